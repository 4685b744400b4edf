"""The slow-time filter is its difference equation on every gate of its region, for any number of cores."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr, data, late, slow

ID = 'C03'
RULE = ('histories of pulses (some skipped by the compressor) through the threaded ring filter engine x capacity x gate count x ring filter gate '
        'limit x cores 1..8 x FIR/IIR coefficients (1..8 taps, poles inside the unit circle) x filter on/off x buffer depth; compared with a '
        'float64 difference equation per gate; non-trivial = filter on, a filter longer than one tap and at least 3 unskipped pulses; distinct by case content')
ASSUMPTIONS = ['gate count and filter stay the same during a run (the engine keeps its history across a change of layout)',
               'the producer stays within a quarter of the buffer', 'stable filters; tolerance 2e-4 of the gate\'s largest magnitude']


def strat():
    @st.composite
    def s(draw):
        cap = 16 * draw(st.one_of(st.integers(1, 8), st.integers(1, 60)))
        gates = draw(st.one_of(st.just(cap), st.integers(1, cap)))
        ring = draw(st.one_of(st.just(gates), st.just(262144), st.integers(1, cap), st.integers(0, 4).map(lambda v: 16 * v)))
        return {'cap': cap, 'gates': gates, 'ring': ring, 'cores': draw(st.integers(1, 8)), 'depth': draw(st.sampled_from([12, 16, 24, 40])),
                'on': draw(st.sampled_from([True, True, True, True, False])), 'nb': draw(st.integers(1, 8)), 'na': draw(st.integers(0, 8)),
                'n': draw(st.one_of(st.integers(1, 12), st.integers(10, 70))), 'skip': draw(st.sampled_from([0, 0, 0.1, 0.5])),
                'poll': draw(st.integers(1, 4)), 'late': draw(late()), 'seed': draw(st.integers(0, 2 ** 32))}
    return s()


def run(L, c, ctx):
    rng = np.random.default_rng(c['seed'])
    cap, n, G = c['cap'], c['n'], c['gates']
    b = rng.standard_normal(c['nb']).astype(np.float32)
    if c['na'] > 1:
        p = []
        while len(p) < c['na'] - 1:
            q = rng.uniform(0.1, 0.85)
            if len(p) + 2 <= c['na'] - 1 and rng.random() < 0.6:
                t = rng.uniform(0, np.pi)
                p += [q * np.exp(1j * t), q * np.exp(-1j * t)]
            else:
                p += [q if rng.random() < 0.5 else -q]
        a = np.real(np.poly(p)).astype(np.float32)
    else:
        a = np.ones(c['na'], np.float32)
    x = data(rng, n * 4 * cap, 'normal')
    skip = (rng.random(n) < c['skip']).astype(np.uint8)
    z = aligned(n * 4 * cap, np.float32)
    hdr = np.zeros((n, 4), np.uint32)
    bb, aa = np.zeros(8, np.float32), np.zeros(8, np.float32)
    bb[:len(b)] = b
    aa[:len(a)] = a
    slow(L, c)
    r = L.vt_ring_engine(cap, c['depth'], c['cores'], int(c['on']), G, c['ring'], len(b), ptr(bb), len(a), ptr(aa), n, ptr(skip), ptr(x), c['poll'], ptr(z), ptr(hdr))
    L.vt_sem_slow(0, 0, 1)
    need(r == 0, 'ring engine: %s', {1001: 'did not start', 1002: 'a pulse was never finished'}.get(r, r))
    X = x.reshape(n, 2, 2, cap).astype(float)
    Z = z.reshape(n, 2, 2, cap)
    R = min(G, c['ring'])
    hx, hy = [], []
    scale = np.zeros((2, 2, R)) + 1e-6
    for k in range(n):
        s = int(hdr[k, 0])
        want = 0x80 | 0x400 | 0x45 | (0x10 if skip[k] else 0x28)
        if c['on']:
            want |= 0x200 if skip[k] else 0x100
        need(s == want, 'pulse %d (%s, filter %s) finished with status 0x%x, not 0x%x', k, 'skipped' if skip[k] else 'compressed', 'on' if c['on'] else 'off', s, want)
        need(hdr[k, 1] == G and hdr[k, 2] == G and hdr[k, 3] == k, 'pulse %d: header changed to %s', k, hdr[k].tolist())
        if not c['on'] or skip[k]:
            need(np.array_equal(Z[k].astype(float), X[k]), 'pulse %d: samples of %s changed', k, 'a skipped pulse' if skip[k] else 'an unfiltered run')
            continue
        need(np.array_equal(Z[k][..., R:].astype(float), X[k][..., R:]), 'pulse %d: gates beyond the filter region [0, %d) changed (cores %d)', k, R, c['cores'])
        xr = X[k][..., :R]
        y = b[0] * xr
        mag = np.abs(y)
        for j in range(1, len(b)):
            if j <= len(hx):
                y = y + float(b[j]) * hx[-j]
                mag = mag + np.abs(float(b[j]) * hx[-j])
        for j in range(1, len(a)):
            if j <= len(hy):
                y = y - float(a[j]) * hy[-j]
                mag = mag + np.abs(float(a[j]) * hy[-j])
        scale = np.maximum(scale, mag)
        e = np.abs(Z[k][..., :R] - y)
        bad = np.argwhere(~(e <= 2e-4 * scale))
        if len(bad):
            p, q, g = bad[0]
            need(False, 'pulse %d channel %d %s gate %d is %r, the difference equation gives %r (region %d gates on %d cores)', k, p, 'iq'[q], g, float(Z[k][p, q, g]), float(y[p, q, g]), R, c['cores'])
        hx.append(xr)
        hy.append(y)
    ctx.cls('fir' if len(a) <= 1 else 'iir')
    ctx.cls('cores idle' if R <= 16 * (c['cores'] - 1) else 'cores busy')
    ctx.cls('lapped' if n > c['depth'] else 'one lap')
    return c['on'] and len(b) + len(a) > 2 and int((skip == 0).sum()) >= 3 and R > 0


SUBS = [Sub('engine', strat, run, 3000, 60000, hang=60)]
PROBES = {}
