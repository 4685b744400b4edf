"""The noise of a ray is that of its echo-free gates, whatever the scale, the channel and the echoes; that of a radar is the mean of its latest pulses."""
import ctypes as C
import math
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt import noise_tables as T
from vt.num import aligned, ptr

ID = 'C28'
RULE = 'rays of 1 to 220 pulses with white noise of any power in each channel, echoes over up to 30% of the gates, a transmit leakage and filter settings; buffers of pulses of which some are short or not compressed; non-trivial = an estimate was made; distinct by case content'
ASSUMPTIONS = ['the accuracy is claimed for 8 pulses or more, a running window of 20 gates or more that fits the echo-free gates three times',
               'up to 65535 gates', 'pulses have at least one gate']
F = np.float32


def strat_ray():
    return st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(8, 40), st.integers(8, 220), st.sampled_from([8, 16, 64, 128, 198, 199, 200])),
        k=st.integers(20, 120), m=st.floats(0, 1).map(lambda v: round(v, 3)), mk=st.integers(4, 14),
        power=st.tuples(st.floats(-4, 7).map(lambda v: round(v, 2)), st.floats(-4, 7).map(lambda v: round(v, 2))),
        echo=st.one_of(st.none(), st.fixed_dictionaries(dict(at=st.floats(0, 1).map(lambda v: round(v, 3)), width=st.floats(0.02, 0.3).map(lambda v: round(v, 3)), snr=st.floats(3, 50).map(lambda v: round(v, 1)), shape=st.sampled_from(['flat', 'hump', 'ramp'])))),
        leak=st.integers(0, 30), raw=st.sampled_from([1, 1, 2, 5]), scale=st.integers(-6, 6), what=st.sampled_from(['none', 'scale', 'scale', 'swap', 'negate', 'leak', 'one']),
        seed=st.integers(0, 2 ** 31)))


def make(c):
    r = np.random.default_rng(c['seed'])
    n, g = c['n'], min(c['mk'] * c['k'] + int(c['m'] * 40), 1200) + c['leak'] + 1
    g = max(g, 4 * c['k'] + c['leak'] + 1)
    z = r.standard_normal((n, 2, 2, g)) * math.sqrt(0.5)
    if c['echo']:
        e = c['echo']
        w = max(1, int(e['width'] * g))
        a = int(e['at'] * (g - w))
        t = (np.arange(w) + 0.5) / w
        s = 10 ** (e['snr'] / 10) * dict(flat=np.ones(w), hump=np.sin(np.pi * t) ** 2, ramp=t)[e['shape']]
        for p in range(2):
            v = np.sqrt(s) * np.exp(1j * (r.uniform(-3, 3) * np.arange(n)[:, None] + r.uniform(0, 6.3, w)))
            z[:, p, 0, a:a + w] += v.real
            z[:, p, 1, a:a + w] += v.imag
    for p in range(2):
        z[:, p] *= 10.0 ** (c['power'][p] / 2)
    if c['leak']:
        z[..., :c['leak'] + 1] *= 10 ** r.uniform(-3, 3)
    return z.astype(F), g


def estimate(L, c, z, k=None, g=None):
    n, _, _, g = z.shape
    k = k or c['k']
    # The window is ceil(8 km / gate size)
    dr = F(8000.0 / (k - 0.5))
    x = aligned(z.size, F)
    x[:] = z.ravel()
    out, back = (C.c_float * 2)(-9, -9), (C.c_float * 2)(123.5, 0.75)
    w = c['leak'] * c['raw'] + (c['raw'] - 1 if c['leak'] else 0)
    rc = L.vt_ray_noise(C.c_uint32((g + 15) // 16 * 16), n, C.c_uint32(g), C.c_uint32(g * c['raw']), C.c_uint32(w), C.c_float(dr), ptr(x), back, out)
    if rc:
        need((out[0], out[1]) == (back[0], back[1]), 'without an estimate the noise is %g and %g instead of that of the configuration', out[0], out[1])
        return None
    need(all(np.isfinite(v) and v >= 0 for v in out), 'the noise is %g and %g', out[0], out[1])
    return np.array(out[:], F)


def run_ray(L, c, ctx):
    z, g = make(c)
    v = estimate(L, c, z)
    need(v is not None, 'no estimate from %d pulses of %d gates, %d of them in a window', c['n'], g, c['k'])
    tol = 0.04 + 7 / math.sqrt(c['n'] * c['k'] * 4)
    for p in range(2):
        true = 10.0 ** c['power'][p]
        need(abs(v[p] / true - 1) < tol, 'noise of channel %d is %g instead of %g (%+.1f%%, up to %.1f%%)', p, v[p], true, 100 * (v[p] / true - 1), 100 * tol)
    what = c['what']
    ctx.cls(what)
    if what == 'scale':
        s = F(2.0 ** c['scale'])
        u, want = estimate(L, c, z * s), v * s * s
    elif what == 'swap':
        u, want = estimate(L, c, np.ascontiguousarray(z[:, ::-1])), v[::-1]
    elif what == 'negate':
        u, want = estimate(L, c, -z), v
    elif what == 'leak':
        y = z.copy()
        if c['leak']:
            y[..., :c['leak'] + 1] = 1e4 * 10.0 ** (c['power'][0] / 2)
        u, want = estimate(L, c, y), v
    elif what == 'one':
        # The other channel has its own noise
        y = z.copy()
        y[:, 1] *= F(2.0 ** c['scale'])
        u, want = estimate(L, c, y), v * np.array([1, 4.0 ** c['scale']], F)
    else:
        return True
    need(u is not None and (u == want).all(), '%s: the noise is %s instead of %s', what, u, want)
    return True


def strat_any():
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 12), st.integers(1, 220)), g=st.one_of(st.integers(1, 60), st.integers(1, 500)), k=st.one_of(st.integers(1, 20), st.integers(1, 400)),
                                      leak=st.one_of(st.just(0), st.integers(0, 20), st.integers(0, 600)), raw=st.integers(1, 3),
                                      kind=st.sampled_from(['white', 'zero', 'constant', 'ramp', 'steps', 'spikes', 'some', 'lognormal', 'tiny', 'one channel']), seed=st.integers(0, 2 ** 31)))


def run_any(L, c, ctx):
    r = np.random.default_rng(c['seed'])
    n, g = c['n'], c['g']
    z = r.standard_normal((n, 2, 2, g))
    kind = c['kind']
    if kind == 'zero':
        z[:] = 0
    elif kind == 'constant':
        z[:] = 3
    elif kind == 'ramp':
        z *= 10.0 ** np.linspace(-3, 3, g)
    elif kind == 'steps':
        z *= 10.0 ** np.repeat(r.integers(-2, 3, g), 17)[:g]
    elif kind == 'spikes':
        z *= np.where(r.random(g) < 0.2, 1e3, 1)
    elif kind == 'some':
        z *= r.random(g) < 0.5
    elif kind == 'lognormal':
        z *= np.exp(r.standard_normal(g) * 2)
    elif kind == 'tiny':
        z *= 1e-15
    elif kind == 'one channel':
        z[:, r.integers(0, 2)] = 0
    z = z.astype(F)
    ctx.cls(kind)
    v = estimate(L, c, z)
    if v is None:
        return False
    p = (z.astype(float) ** 2).sum(axis=2).mean(axis=0)
    # Whatever it is, it is made of the gates that are there
    for i in range(2):
        need(p[i].min() * 0.99 <= v[i] <= p[i].max() * 1.01, '%s: noise of channel %d is %g from gates of %g to %g', kind, i, v[i], p[i].min(), p[i].max())
    need(kind not in ('zero', 'one channel'), '%s: an estimate from nothing', kind)
    return True


class Margin:
    """Comparisons in double precision, remembering how close the closest one was."""
    def __init__(self):
        self.least = 1.0

    def less(self, a, b, slack=0.0):
        a, b = np.asarray(a, float), np.asarray(b, float)
        d = np.abs(a - b) / np.maximum(np.maximum(np.abs(a), np.abs(b)) + slack, 1e-300)
        d = d[np.isfinite(d) & ~((a == 0) & (b == 0))] if d.ndim else d
        if np.size(d) and np.all(np.isfinite(d)):
            self.least = min(self.least, float(np.min(d)))
        return a < b


def model(z, K, w, ctx):
    """The steps of the radial noise estimation: point clutter, flat stretches, threshold, persistence, threshold, running sums."""
    n = len(z)
    M = min(n, 199)
    L = int(500 / M + 0.5)
    q = Margin()
    out = []
    for p in range(2):
        a = (z[:, p].astype(float) ** 2).sum(axis=1).mean(axis=0)[w + 1:]
        if not len(a) or not a.sum() > 0:
            return None, q
        scale = a.mean()
        a = a / scale
        m = a[2:-2]
        with np.errstate(divide='ignore', invalid='ignore'):
            s = m[q.less(m, T.TCN[M] * a[:-4]) & q.less(m, T.TCN[M] * a[4:])] if len(a) > 4 else a[:0]
            b = np.log10(s)
            if len(s) < K:
                return None, q
            flat = np.zeros(len(s), bool)
            for k in range(len(s) - K):
                x = b[k:k + K]
                # In single precision the mean of squares less the square of the mean loses digits
                if q.less(np.mean(x * x) - np.mean(x) ** 2, T.VARTHRESHOLD[M], 0.1 * float(np.mean(x * x))):
                    flat[k:k + K] = True
        best, run, last = np.inf, [], len(s) - K
        for k in range(last + 1):
            if flat[k]:
                run.append(s[k])
                # A stretch that starts at the last gate is not used
                if k == last and len(run) > 1:
                    best = min(best, np.mean(run))
            elif run:
                best = min(best, np.mean(run))
                run = []
        if not np.isfinite(best):
            return None, q
        s = s[q.less(s, T.SNRTHRESHOLD[M] * best)]
        if len(s):
            below = q.less(s, np.median(s))
            keep = np.array([below[max(0, k - 5):k + 5].any() for k in range(len(s))], bool)
            s = s[keep]
        if not len(s):
            return None, q
        s = s[q.less(s, T.SNRTHRESHOLD[M] * s.mean())]
        if len(s) < L:
            return None, q
        f = s.mean()
        rounds = 0
        for _ in range(10):
            rounds += 1
            c = np.concatenate([[0], np.cumsum(s)])
            over = q.less(1.12 * L * f, c[L:] - c[:-L])
            hit = np.zeros(len(s), bool)
            for k in np.flatnonzero(over):
                hit[k:k + L] = True
            left = s[~hit]
            if q.less(over.sum(), T.RUNSUMPERCENTILE[M] * (len(s) - L + 1)):
                break
            if len(left) * M < 800:
                break
            s = left
            f = s.mean()
        if rounds > 1:
            ctx.cls('more than one round')
        if len(s) * M < 200:
            return None, q
        out.append(f * scale)
    return np.array(out), q


def strat_steps():
    echo = st.fixed_dictionaries(dict(at=st.one_of(st.floats(0, 1).map(lambda v: round(v, 3)), st.sampled_from([0, 1])), width=st.floats(0.02, 0.6).map(lambda v: round(v, 3)), snr=st.one_of(st.floats(-12, 12), st.floats(0, 60)).map(lambda v: round(v, 1)), shape=st.sampled_from(['flat', 'hump', 'ramp', 'shelf', 'shelf'])))
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(3, 30), st.integers(1, 220), st.sampled_from([16, 64, 199, 200])), g=st.one_of(st.integers(100, 400), st.integers(200, 700)),
                                      k=st.one_of(st.integers(2, 30), st.integers(5, 100)), leak=st.one_of(st.just(0), st.integers(0, 20)), raw=st.integers(1, 3), echoes=st.lists(echo, max_size=3),
                                      clutter=st.sampled_from([0, 0, 0.01, 0.05]), seed=st.integers(0, 2 ** 31)))


def run_steps(L, c, ctx):
    r = np.random.default_rng(c['seed'])
    n, g = c['n'], c['g']
    z = r.standard_normal((n, 2, 2, g))
    level = np.ones((2, g))
    for e in c['echoes']:
        w = max(1, int(e['width'] * g))
        a = int(e['at'] * (g - w))
        t = (np.arange(w) + 0.5) / w
        level[:, a:a + w] += 10 ** (e['snr'] / 10) * dict(flat=np.ones(w), hump=np.sin(np.pi * t) ** 2, ramp=t, shelf=10 ** (e['snr'] / 10 * 2.5 * np.minimum(0, np.minimum(t, 1 - t if e['at'] < 1 else 1) - 0.4)))[e['shape']]
    level[:, r.random(g) < c['clutter']] *= 1000
    z = (z * np.sqrt(level)[None, :, None]).astype(F)
    dr = F(8000.0 / (c['k'] - 0.5))
    K = int(math.ceil(F(8.0e3) / dr))
    w = (c['leak'] * c['raw'] + (c['raw'] - 1 if c['leak'] else 0)) * g // (g * c['raw'])
    if w + 2 > g:
        return False
    want, q = model(z, K, w, ctx)
    v = estimate(L, c, z)
    if q.least < 1e-5 and ((v is None) != (want is None) or v is not None and np.any(np.abs(v / want - 1) >= 1e-4)):
        ctx.cls('too close to a threshold')
        return False
    need((v is None) == (want is None), 'an estimate is %s instead of %s', v, want)
    if v is None:
        ctx.cls('no estimate')
        return False
    need(all(abs(v[p] / want[p] - 1) < 1e-4 for p in range(2)), 'noise %g and %g instead of %g and %g', v[0], v[1], want[0], want[1])
    return True


def strat_radar():
    return st.fixed_dictionaries(dict(depth=st.one_of(st.integers(201, 260), st.integers(2, 260)), at=st.integers(0, 10 ** 6), gates=st.integers(1, 60),
                                      lengths=st.lists(st.integers(1, 12), min_size=0, max_size=3), ratio=st.sampled_from([0, 1, 2, 5]),
                                      short=st.floats(0, 0.3).map(lambda v: round(v, 2)), late=st.integers(0, 3), holes=st.integers(0, 2),
                                      power=st.floats(-4, 6).map(lambda v: round(v, 2)), seed=st.integers(0, 2 ** 31)))


def run_radar(L, c, ctx):
    r = np.random.default_rng(c['seed'])
    d, stride = c['depth'], c['gates'] + 1
    at = c['at'] % d
    gates = np.where(r.random(d) < c['short'], r.integers(0, c['gates'] + 1, d), c['gates']).astype(np.uint32)
    status = np.full(d, 0x1f, np.uint32)
    for i in range(c['late']):
        status[(at - 1 - i) % d] = 1
    for i in r.integers(0, d, c['holes'] if d > 200 else 0):
        status[i] = 1
    x = (r.standard_normal((d, 2, stride, 2)) * np.exp(r.standard_normal((d, 2, 1, 1))) * 10.0 ** (c['power'] / 2)).astype(F)
    lengths = np.array(c['lengths'] + [0], np.uint32)
    out = (C.c_float * 2)(-9, -9)
    k = L.vt_measure_noise(C.c_uint32((stride + 15) // 16 * 16), C.c_uint32(d), C.c_uint32(at), ptr(gates), ptr(status), ptr(x), C.c_uint32(stride), len(c['lengths']), ptr(lengths), C.c_uint32(c['ratio']), out)
    need(k == 1, '%d configurations', k)
    o = (sum(c['lengths']) + (2 * c['lengths'][-1] if c['lengths'] else 0)) // max(1, c['ratio'])
    i = (at - 1) % d
    for _ in range(d):
        if status[i] & 8:
            break
        i = (i - 1) % d
    v = []
    for _ in range(200):
        i = (i - 1) % d
        if status[i] & 8 and gates[i] > 2 * o:
            v.append((x[i].astype(float) ** 2).sum(axis=2)[:, o:int(gates[i]) - o].mean(axis=1))
    want = np.mean(v, axis=0) if v else np.array([0.001, 0.001])
    need(all(abs(out[p] / want[p] - 1) < 2e-4 for p in range(2)), 'noise %g and %g of the latest pulses, instead of %g and %g (%d pulses)', out[0], out[1], want[0], want[1], len(v))
    ctx.cls('some short' if 0 < len(v) < 200 else 'none' if not v else 'all')
    return bool(v)


def run_config(L, c, ctx):
    out = (C.c_float * 3)()
    L.vt_noise_config((C.c_float * 2)(*c['v']), out)
    need(out[0] == c['v'][0] and out[1] == c['v'][1] and out[2] == 1, 'noise %g and %g of the configuration is %g and %g', c['v'][0], c['v'][1], out[0], out[1])
    return True


SUBS = [
    Sub('rays', strat_ray, run_ray, 1600, 24000),
    Sub('steps', strat_steps, run_steps, 1500, 30000),
    Sub('any', strat_any, run_any, 2500, 40000),
    Sub('radars', strat_radar, run_radar, 800, 12000),
    Sub('configuration', lambda: st.fixed_dictionaries(dict(v=st.lists(st.floats(0, 1000, width=32), min_size=2, max_size=2))), run_config, 100, 500),
]
PROBES = {}
