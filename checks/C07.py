"""Gate values get the calibration of the filter that produced them, and are censored by signal level and quality."""
import ctypes
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr
from checks.C06 import config, same_cal, calibration

ID = 'C07'
RULE = ('calibrate: filter layouts of 1..8 filters in any order x calibrations x gate counts; censor: sequences of rays (differing gate counts, product values incl. '
        'infinities and NaN, signal and quality around the thresholds) through one scratch space into reused ray slots; non-trivial = at least two filters, or a ray '
        'with both kept and censored gates; distinct by case content')
ASSUMPTIONS = ['gates that no filter covers are not looked at', 'signal levels within 1e-5 of the threshold are not decided']


def strat_cal():
    return st.fixed_dictionaries({'blocks': st.integers(1, 24), 'gates': st.floats(0, 1), 'nf': st.integers(1, 8), 'groups': st.integers(1, 22), 'holes': st.booleans(),
                                  'seed': st.integers(0, 2 ** 32)})


def run_cal(L, c, ctx):
    rng = np.random.default_rng(c['seed'])
    cap = 16 * c['blocks']
    gates = max(1, int(c['gates'] * cap))
    f, u = config(rng, cap)
    nf = c['nf']
    u[1], u[2] = c['groups'], nf
    cuts = np.sort(rng.integers(0, cap + 1, nf - 1)).tolist()
    lo, hi = [0] + cuts, cuts + [262144]
    for k, j in enumerate(rng.permutation(nf)):
        u[3 + 3 * k] = rng.integers(0, cap + 1)
        u[4 + 3 * k] = lo[j]
        u[5 + 3 * k] = hi[j] - lo[j] - (0 if not c['holes'] else rng.integers(0, 3) if hi[j] - lo[j] > 3 else 0)
    gs, adj = float(np.float32(rng.uniform(5, 900))), float(np.float32(rng.uniform(40, 80)))
    out = aligned(4 * cap, np.float32)
    L.vt_calibrate(cap, ptr(f), ptr(u), gates, ctypes.c_float(gs), ctypes.c_float(adj), ptr(out))
    o = out[:4 * cap].reshape(4, cap)
    want = calibration(f, u, gates, gs, adj)
    hole = np.isnan(want[2])
    got = o[:, :gates].copy()
    want[:, hole] = 0
    got[:, hole] = 0
    same_cal(got, want, '%d filters, %d groups' % (nf, c['groups']))
    need(np.all(o[:, gates:] == -7777), 'calibration written beyond the gates')
    return nf > 1 and gates > 1


def strat_cen():
    ray = st.fixed_dictionaries({'gates': st.one_of(st.floats(0, 1), st.just(1.0)), 'snr': st.floats(-30, 20, width=32), 'sqi': st.sampled_from([0.0, 0.05, 0.2, 0.5, 0.9]),
                                 'spread': st.sampled_from([1.0, 6.0, 20.0])})
    return st.fixed_dictionaries({'blocks': st.integers(1, 12), 'rays': st.lists(ray, min_size=1, max_size=6), 'depth': st.integers(1, 3), 'odd': st.booleans(), 'seed': st.integers(0, 2 ** 32)})


def run_cen(L, c, ctx):
    rng = np.random.default_rng(c['seed'])
    cap, n = 16 * c['blocks'], len(c['rays'])
    g = np.array([max(1, int(r['gates'] * cap)) for r in c['rays']], np.uint32)
    noise = rng.uniform(0.001, 50, (n, 2)).astype(np.float32)
    th = np.array([[r['snr'], r['sqi']] for r in c['rays']], np.float32)
    x = aligned(n * 20 * cap, np.float32)
    X = x[:n * 20 * cap].reshape(n, 20, cap)
    X[:] = rng.uniform(-40, 70, X.shape)
    for k in range(n):
        lev = 10.0 ** (0.1 * th[k, 0])
        # smooth runs, so that censored and kept stretches both appear
        d = np.repeat(rng.standard_normal((2, cap // 4 + 1)), 4, axis=1)[:, :cap] * c['rays'][k]['spread'] + rng.standard_normal((2, cap))
        X[k, 7] = noise[k, 0] * lev * 10.0 ** (0.1 * (d[0] + 2))
        X[k, 8] = noise[k, 1] * lev * 10.0 ** (0.1 * (d[1] + 2))
        X[k, 9] = np.clip(rng.random(cap) ** 0.3, 0, 1)
        X[k, 19] = np.clip(rng.random(cap) ** 0.3, 0, 1)
    if c['odd']:
        m = rng.random(X.shape) < 0.02
        m[:, 7:9] = False
        X[m] = rng.choice([np.nan, np.inf, -np.inf, 0.0], int(m.sum()))
    y = aligned(n * 19 * cap, np.float32)
    r = L.vt_make_rays(cap, n, c['depth'], ptr(g), ptr(noise), ptr(th), ptr(x), ptr(y))
    need(r == 0, 'ray header or neighbour wrong (%d)', r)
    Y = y[:n * 19 * cap].reshape(n, 19, cap)
    mixed = False
    for k in range(n):
        G = int(g[k])
        sh, sv = X[k, 7, :G].astype(float), X[k, 8, :G].astype(float)
        lev = 10.0 ** (0.1 * float(th[k, 0]))
        rh, rv = sh / float(noise[k, 0]) / lev, sv / float(noise[k, 1]) / lev
        qh, qv = X[k, 9, :G], X[k, 19, :G]
        with np.errstate(invalid='ignore'):
            kh, kv = (rh > 1) & (qh > th[k, 1]), (rv > 1) & (qv > th[k, 1])
        unsure = (np.abs(rh - 1) < 1e-5) | (np.abs(rv - 1) < 1e-5)
        if np.any(unsure):
            ctx.cls('at the threshold')
            continue
        keeph, keepv = kh.copy(), kv.copy()
        keeph[:-1] &= kh[1:]
        keepv[:-1] &= kv[1:]
        # despeckling runs from near to far on the unchanged flag of the next gate
        both = keeph & keepv
        mixed |= bool(both.any() and not both.all())
        for i in range(19):
            a, b = Y[k, i, :G].astype(float), X[k, i, :G].astype(float)
            if i in (7, 8):
                w = 10 * np.log10(b) - 80
                ok = np.abs(a - w) < 1e-3
            else:
                m = np.ones(G, bool) if i == 9 else keeph if i in (0, 1, 2, 16, 17, 18) else both
                w = np.where(m, b, np.nan)
                ok = (a == w) | (np.isnan(a) & np.isnan(w))
            bad = np.argwhere(~ok)
            if len(bad):
                z = int(bad[0, 0])
                need(False, 'ray %d product %d gate %d of %d: %r, not %r (kept H %s V %s)', k, i, z, G, a[z], w[z], bool(keeph[z]), bool(keepv[z]))
    ctx.cls('full rays' if np.any(g == cap) else 'partial rays')
    return mixed


SUBS = [Sub('calibrate', strat_cal, run_cal, 4000, 100000), Sub('censor', strat_cen, run_cen, 6000, 150000)]
PROBES = {}
