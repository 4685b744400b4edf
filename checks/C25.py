"""Windows, ramps, strides, transforms and conversions are what mathematics says they are."""
import ctypes as C
import math
import os
import shutil
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from vt.num import aligned, ptr
from checks.C12 import window, WINDOWS

ID = 'C25'
RULE = 'windows and ramps of any kind, length and parameter; real and complex series of any length; capacities of transforms; angles, bit patterns and numbers of all magnitudes, also the special ones; pulses with noise; non-trivial = more than two samples, or a number that is not zero; distinct by case content'
ASSUMPTIONS = ['angles are within a turn', 'fast sine and cosine take angles within half a turn, as they say']
F = np.float32
D = C.c_double


def buf(n, v=np.nan):
    a = aligned(n + 8, F)
    a[:] = F(777)
    return a


def run_window(L, c, ctx):
    n, kind, p, b = c['n'], c['kind'], c['p'], c['b']
    i = WINDOWS.index(kind)
    # RKWindow.h has its own order
    i = {'box': 0, 'hann': 1, 'hamming': 2, 'kaiser': 3, 'tukey': 4, 'trapezoid': 5}[kind]
    a = buf(n)
    if b is None:
        L.vt_window_plain(ptr(a), i, n, D(p))
        b = 0.0
    else:
        L.vt_window(ptr(a), i, n, D(p), D(b))
    w = (1 - b) * window(kind, n, p) + b
    e = abs(a[:n] - w)
    need((e <= 2e-5 * max(1, abs(w).max())).all(), '%s window of %d samples (%g, %g): sample %d is %g, not %g', kind, n, p, b, int(e.argmax()) if np.isfinite(e).all() else int((~np.isfinite(e)).argmax()), a[:n][e.argmax()], w[e.argmax()])
    need((a[n:] == 777).all(), 'samples behind the window')
    if kind not in ('trapezoid',):
        need(np.allclose(a[:n], a[:n][::-1], atol=2e-5), '%s window of %d samples (%g) is not symmetric', kind, n, p)
    ctx.cls(kind)
    return n > 2


def strat_window():
    n = st.one_of(st.integers(1, 40), st.integers(1, 3000))
    unit = st.one_of(st.sampled_from([0.0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.75, 0.9999999, 1.0]), st.floats(0, 1).map(lambda v: round(v, 4)))
    return st.one_of(
        st.fixed_dictionaries(dict(kind=st.sampled_from(['box', 'hann', 'hamming']), n=n, p=st.just(0.0), b=st.one_of(st.none(), unit))),
        st.fixed_dictionaries(dict(kind=st.sampled_from(['tukey']), n=n, p=st.one_of(unit, st.sampled_from([-1.0, 1.5])), b=st.one_of(st.none(), unit))),
        st.fixed_dictionaries(dict(kind=st.just('kaiser'), n=n, p=st.floats(0, 12).map(lambda v: round(v, 3)), b=st.one_of(st.none(), unit))),
        st.fixed_dictionaries(dict(kind=st.just('trapezoid'), n=n, p=st.floats(-2, 2).map(lambda v: round(v, 3)), b=st.one_of(st.none(), unit))))


def run_ramp(L, c, ctx):
    n, kind, p = c['n'], c['kind'], c['p']
    a = buf(n)
    L.vt_ramp(ptr(a), ['zeros', 'ones', 'step', 'linear', 'rcos'].index(kind), n, D(p))
    k = np.arange(n)
    t = k / max(1, n - 1)
    w = {'zeros': 0 * t, 'ones': 0 * t + 1, 'step': (k >= math.ceil(min(max(p, 0), 1) * n)) * 1.0, 'linear': t, 'rcos': 0.5 * (1 - np.cos(np.pi * t))}[kind]
    e = abs(a[:n] - w)
    need((e <= 1e-6).all(), '%s ramp of %d samples (%g): %s, not %s', kind, n, p, a[:n][:8], w[:8])
    need((a[n:] == 777).all(), 'samples behind the ramp')
    ctx.cls(kind)
    return n > 2


def strat_ramp():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(['zeros', 'ones', 'step', 'linear', 'rcos']), n=st.one_of(st.integers(1, 30), st.integers(1, 3000)), p=st.one_of(st.sampled_from([0.0, 0.5, 1.0, -0.5, 1.5]), st.floats(0, 1).map(lambda v: round(v, 3)))))


def run_stride(L, c, ctx):
    n = c['n']
    for f in ('RKBestStrideOfHops', 'RKBestStrideOfHopsV1'):
        s = getattr(L, f)(n, False)
        need(1 <= s <= max(1, n - 1) and math.gcd(s, n) == 1, '%s: stride of %d hops is %d', f, n, s)
    if n >= 5 and n != 6:
        s = L.RKBestStrideOfHops(n, False)
        need(min(s, n - s) > 1, 'hops of %d go to the neighbour', n)
    return n > 2


def run_hilbert(L, c, ctx):
    n = c['n']
    r = np.random.default_rng(c['seed'])
    x = r.standard_normal(n) if c['kind'] == 'noise' else np.cos(2 * np.pi * c['f'] * np.arange(n) + 1)
    a = aligned(n, F)
    a[:] = x
    out = buf(2 * n)
    L.RKHilbertTransform(ptr(a), ptr(out), n)
    m = 1 << max(0, (n - 1).bit_length())
    h = np.zeros(m)
    h[0] = h[m // 2] = 1
    h[1:m // 2] = 2
    w = np.fft.ifft(np.fft.fft(a.astype(float), m) * h)[:n]
    g = out[0:2 * n:2] + 1j * out[1:2 * n:2]
    tol = 2e-6 * (1 + np.log2(m)) * max(1, abs(x).max()) * 3
    need((abs(g - w) <= tol).all(), 'transform of %d samples: %s, not %s', n, g[:4], w[:4])
    need((abs(g.real - a) <= tol).all(), 'real part of the transform of %d samples', n)
    need((out[2 * n:] == 777).all(), 'samples behind the transform')
    return n > 2


def run_fft(L, c, ctx):
    folder = scratch()
    try:
        L.RKSetRootFolder(folder.encode())
        cap = c['cap']
        planned = (cap - 1).bit_length() + 1
        plan = c['plan'] % planned
        n = 1 << plan
        r = np.random.default_rng(c['seed'])
        x = aligned(2 * n, F)
        x[:] = r.standard_normal(2 * n)
        out = buf(2 * n)
        sizes = np.zeros(40, np.uint32)
        count = L.vt_fft_module(C.c_uint32(cap), plan, int(c['back']), int(c['inplace']), ptr(x), ptr(out), ptr(sizes))
        need(count == planned and list(sizes[:count]) == [1 << k for k in range(planned)], 'capacity %d has plans of %s', cap, sizes[:count])
        z = x[::2].astype(float) + 1j * x[1::2]
        w = np.fft.ifft(z) * n if c['back'] else np.fft.fft(z)
        g = out[:2 * n:2] + 1j * out[1:2 * n:2]
        need((abs(g - w) <= 1e-5 * np.sqrt(n) * (1 + plan)).all(), 'transform of %d samples: %s, not %s', n, g[:4], w[:4])
        return n > 2
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run_sine(L, c, ctx):
    x = F(c['x'])
    for f, tol in (('RKFasterSineCosine', 0.0562), ('RKFastSineCosine', 0.0012)):
        s, k = C.c_float(), C.c_float()
        getattr(L, f)(C.c_float(x), C.byref(s), C.byref(k))
        need(abs(s.value - math.sin(x)) <= tol and abs(k.value - math.cos(x)) <= tol, '%s of %g: %g, %g', f, x, s.value, k.value)
        need(abs(s.value) <= 1.0001 and abs(k.value) <= 1.0001, '%s of %g: %g, %g', f, x, s.value, k.value)
    return x != 0


def strat_sine():
    return st.fixed_dictionaries(dict(x=st.one_of(st.floats(-3.140625, 3.140625, width=32), st.sampled_from([0.0, 1.5707964, -1.5707964, 3.14159, -3.14159, 1.5708, 0.785398]))))


def run_angles(L, c, ctx):
    a, b, t = F(c['a']), F(c['b']), F(c['t'])
    for f in ('RKGetSignedMinorSectorInDegrees', 'RKGetMinorSectorInDegrees', 'RKInterpolatePositiveAngles', 'RKInterpolateAngles'):
        getattr(L, f).restype = C.c_float
    q = lambda f, *v: getattr(L, f)(*[C.c_float(x) for x in v])
    d = q('RKGetSignedMinorSectorInDegrees', a, b)
    want = (float(a) - float(b) + 180) % 360 - 180
    gap = lambda u, v: abs((u - v + 180) % 360 - 180)
    need(-180 <= d <= 180 and gap(d, want) <= 1e-4, 'from %g to %g are %g degrees', b, a, d)
    need(q('RKGetMinorSectorInDegrees', a, b) == abs(d) and q('RKGetMinorSectorInDegrees', b, a) == abs(d), 'between %g and %g are %g degrees', a, b, q('RKGetMinorSectorInDegrees', a, b))
    v = q('RKInterpolatePositiveAngles', a, b, t)
    turn = -d if abs(abs(d) - 180) > 1e-3 else None
    if a >= 0 and b >= 0:
        need(0 <= v < 360, '%g between %g and %g is %g', t, a, b, v)
    if turn is not None:
        need(gap(v, a + float(t) * turn) <= 2e-4, '%g between %g and %g is %g', t, a, b, v)
        e = q('RKInterpolateAngles', a, b, t)
        need(gap(e, a + float(t) * turn) <= 2e-4, '%g between %g and %g is %g', t, a, b, e)
        lo, hi = min(a, a + turn), max(a, a + turn)
        need(lo - 2e-4 <= e <= hi + 2e-4, '%g between %g and %g is %g', t, a, b, e)
    return a != b


def strat_angles():
    a = st.one_of(st.sampled_from([0.0, 90.0, 179.99, 180.0, 180.01, 359.99, 0.01]), st.floats(0, 359.984375, width=32))
    e = st.one_of(st.sampled_from([0.0, -1.0, 90.0, -90.0]), st.floats(-90, 90, width=32))
    t = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 1, width=32))
    return st.one_of(st.fixed_dictionaries(dict(a=a, b=a, t=t)), st.fixed_dictionaries(dict(a=e, b=e, t=t)))


def run_bits(L, c, ctx):
    L.vt_double.restype = D
    L.RKBitReverse32.restype, L.RKBitReverse16.restype, L.RKBitReverse8.restype = C.c_uint32, C.c_uint16, C.c_uint8
    for n, t in ((32, C.c_uint32), (16, C.c_uint16), (8, C.c_uint8)):
        v = c['v'] & (1 << n) - 1
        r = getattr(L, 'RKBitReverse%d' % n)(t(v))
        need(r == int(format(v, '0%db' % n)[::-1], 2), '%d bits of 0x%x reversed are 0x%x', n, v, r)
    h = np.array([c['v'] & 0xffff], np.uint16)
    o = C.c_float()
    L.vt_half(C.c_uint16(int(h[0])), C.byref(o))
    want = float(h.view(np.float16)[0])
    need(o.value == want and math.copysign(1, o.value) == math.copysign(1, want) or math.isnan(want) and math.isnan(o.value), 'half 0x%04x is %g, not %g', h[0], o.value, want)
    f = np.array([c['v']], np.uint32).view(F)
    g = L.vt_double(C.c_float(f[0]))
    with np.errstate(all='ignore'):
        want = float(f[0])
    need(g == want and math.copysign(1, g) == math.copysign(1, want) or math.isnan(want) and math.isnan(g), 'single 0x%08x is %g, not %g', c['v'], g, want)
    return c['v'] != 0


def strat_bits():
    special = st.sampled_from([0, 1, 0x8000, 0x80000000, 0x3ff, 0x400, 0x7c00, 0xfc00, 0x7c01, 0x7e00, 0x7bff, 0x7f800000, 0xff800000, 0x7fc00000, 0x007fffff, 0x00800000, 0x3f800000, 0x7f7fffff])
    return st.fixed_dictionaries(dict(v=st.one_of(special, st.integers(0, 2 ** 32 - 1))))


def run_filter(L, c, ctx):
    b, a = np.zeros((8, 2), F), np.zeros((8, 2), F)
    n = (C.c_int * 2)()
    t = L.vt_filter(c['type'], ptr(b), ptr(a), n)
    need(t == c['type'], 'type %d is %d', c['type'], t)
    if c['type'] == 0:
        need(tuple(n) == (0, 0), 'no filter has %s coefficients', tuple(n))
        return False
    B, A = b[:n[0], 0].astype(float), a[:n[1], 0].astype(float)
    need(1 <= n[0] <= 8 and 1 <= n[1] <= 8 and A[0] == 1 and not b[:, 1].any() and not a[:, 1].any() and not b[n[0]:].any() and not a[n[1]:].any(), 'filter %d is %s / %s', c['type'], B, A)
    need(all(abs(np.roots(A)) < 1), 'filter %d is not stable', c['type'])
    g = lambda w: abs(np.polyval(B[::-1], np.exp(-1j * w)) / np.polyval(A[::-1], np.exp(-1j * w)))
    if 1 <= c['type'] <= 4:
        k = c['type'] - 1
        cut = 0.1 * (k + 1)
        w = cut * c['at']
        if w < 0.3 * cut:
            need(g(w) < 0.1, 'filter %d passes %g at %g', c['type'], g(w), w)
        elif w > 1.2 * cut and w < np.pi:
            need(0.85 < g(w) < 1.15, 'filter %d has a gain of %g at %g', c['type'], g(w), w)
    return True


def run_noise(L, c, ctx):
    r = np.random.default_rng(c['seed'])
    n, o = c['gates'], c['origin']
    x = aligned(4 * max(1, n), F)
    x[:] = r.standard_normal(x.size) * 10.0 ** r.uniform(-2, 3)
    z = x[:4 * n].reshape(2, n, 2).astype(float)
    noise = (C.c_float * 2)(-5, -5)
    k = L.vt_pulse_noise(C.c_uint32(c['cap'] + n), C.c_uint32(n), o, 8, ptr(x), noise)
    if n <= 2 * o:
        need(k != 0, 'noise of no gates: %d of %d gates are left out on each side', o, n)
        return False
    need(k == 0, 'noise of %d gates from %d is not measured: %d', n, o, k)
    for p in range(2):
        w = (z[p][o:n - o] ** 2).sum() / (n - 2 * o)
        need(abs(noise[p] / w - 1) < 1e-4, 'noise of channel %d is %g, not %g', p, noise[p], w)
    return n - 2 * o > 2


SUBS = [
    Sub('windows', strat_window, run_window, 6000, 60000),
    Sub('ramps', strat_ramp, run_ramp, 2000, 20000),
    Sub('strides', lambda: st.fixed_dictionaries(dict(n=st.integers(1, 260))), run_stride, 260, 400),
    Sub('hilbert', lambda: st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 40), st.integers(1, 2000), st.sampled_from([64, 65, 128, 1024, 1025])), seed=st.integers(0, 2 ** 31), kind=st.sampled_from(['noise', 'tone']), f=st.floats(0.01, 0.49).map(lambda v: round(v, 3)))), run_hilbert, 1500, 15000),
    Sub('transforms', lambda: st.fixed_dictionaries(dict(cap=st.one_of(st.integers(1, 70), st.integers(1, 3000)), plan=st.integers(0, 20), seed=st.integers(0, 2 ** 31), back=st.booleans(), inplace=st.booleans())), run_fft, 400, 4000),
    Sub('sines', strat_sine, run_sine, 3000, 30000),
    Sub('angles', strat_angles, run_angles, 4000, 40000),
    Sub('filters', lambda: st.fixed_dictionaries(dict(type=st.integers(0, 5), at=st.floats(0, 31).map(lambda v: round(v, 3)))), run_filter, 500, 3000),
    Sub('noise', lambda: st.fixed_dictionaries(dict(gates=st.integers(1, 200), origin=st.one_of(st.integers(0, 10), st.integers(0, 120)), cap=st.integers(0, 20), seed=st.integers(0, 2 ** 31))), run_noise, 500, 4000),
    Sub('bits', strat_bits, run_bits, 6000, 80000),
]
PROBES = {}
