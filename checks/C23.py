"""The clock gives each reading the time at which its reference says it happened, whatever the system was doing then."""
import ctypes as C
import os
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import ptr

ID = 'C23'
RULE = 'histories of up to 8 phases of readings: steady or irregular, with latencies of any size, gaps, resets, references that stop or start again, offsets and known rates, with histories of any size; non-trivial = more readings than a stride; distinct by case content'
ASSUMPTIONS = ['system time does not go back', 'the reference counts at a constant rate while it counts', 'up to 1e9 tics in a stride']


@st.composite
def strat(draw):
    stride = draw(st.one_of(st.integers(2, 12), st.integers(2, 80), st.sampled_from([100, 1000])))
    phases = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(['run', 'run', 'run', 'gap', 'long gap', 'reset', 'new', 'stuck', 'restart']))
        if k == 'run':
            phases.append([k, draw(st.one_of(st.integers(1, 30), st.integers(1, 3 * stride))), draw(st.booleans())])
        elif k == 'gap':
            phases.append([k, draw(st.floats(0.1, 250).map(lambda v: round(v, 3)))])
        elif k == 'long gap':
            phases.append([k, draw(st.floats(302, 90000).map(lambda v: round(v, 3)))])
        else:
            phases.append([k])
    return dict(stride=stride, more=draw(st.one_of(st.integers(1, 5), st.integers(1, 100), st.just(stride), st.just(1000))), phases=[['run', draw(st.integers(3, 40)), False]] + phases,
                T=draw(st.sampled_from([0.0002, 0.0005, 0.001, 0.0025, 0.01])), tics=draw(st.sampled_from([1, 2, 100, 1000, 50000, 250000])), jitter=draw(st.sampled_from([0, 0, 0.01, 0.1, 0.3, 1, 3])), burst=draw(st.booleans()),
                start=draw(st.integers(0, 4 * 10 ** 9)), u0=draw(st.sampled_from([0, 0, 1, 12345, 10 ** 9])), wisdom=draw(st.sampled_from([None, None, 'dxdu', 'dudx'])), high=draw(st.booleans()), offset=draw(st.sampled_from([0, 0, -0.00001, 0.5, -3])),
                seed=draw(st.integers(0, 2 ** 31)), what=draw(st.sampled_from(['', 'scale', 'days', 'offset', 'reset'])))


class Clock:
    def __init__(self, L, c, start):
        self.L = L
        L.RKClockInitWithSize.restype = C.c_void_p
        L.vt_time_set(C.c_double(start))
        self.p = C.c_void_p(L.RKClockInitWithSize(C.c_uint32(c['stride'] + c['more']), C.c_uint32(c['stride'])))
        L.RKClockSetHighPrecision(self.p, C.c_bool(c['high']))

    def run(self, kind, x, u):
        n = len(kind)
        y, t = np.zeros(n), np.zeros(n)
        kind, x, u = np.array(kind, np.uint8), np.array(x, float), np.array(u, float)
        self.L.vt_clock(self.p, n, ptr(kind), ptr(x), ptr(u), ptr(y), ptr(t))
        return y, t

    def free(self):
        self.L.RKClockFree(self.p)


STAT = {}


def build(c):
    """kind, system time, reference, true time, bound of the error (None = not claimed)"""
    r = np.random.default_rng(c['seed'])
    T, n, S = c['T'], c['tics'], c['stride']
    # Up to 1e9 tics in a stride, with the gaps in it
    n = max(1, min(n, 4e8 / S, 4e8 * T / (1 + sum(p[1] for p in c['phases'] if p[0] == 'gap'))) // 1)
    J = c['jitter'] * T
    day = float(c['start'])
    kind, X, U, true, bound = [], [], [], [], []
    if c['wisdom']:
        kind.append(3 if c['wisdom'] == 'dxdu' else 4)
        X.append(day)
        U.append(T / n if c['wisdom'] == 'dxdu' else n / T)
        true.append(np.nan)
        bound.append(None)
    if c['offset']:
        kind.append(2)
        X.append(day)
        U.append(c['offset'])
        true.append(np.nan)
        bound.append(None)
    smooth, unsure, latest = {}, False, None
    now, u, last = 1.0, float(c['u0']), 0.0
    internal = stuck = False
    count, gap, lost, mixed, spoiled = 0, 0.0, False, False, False
    for ph in c['phases']:
        k = ph[0]
        if k == 'run':
            for _ in range(ph[1]):
                e = J * (r.random() if not c['burst'] else r.integers(0, 2))
                x = max(round(now + e, 6), last)
                last = x
                kind.append(0)
                X.append(day + x)
                U.append(u)
                true.append(now)
                if count == 0:
                    hist = []
                hist.append(u)
                if not internal and count >= 2 and u <= hist[-1 - S if count > S else 0]:
                    # This is when it is found out: no progress in a stride
                    internal, count, gap, lost, spoiled = True, 0, 0.0, False, False
                j = J + 2e-6
                wrong = (mixed or (stuck and count)) and not internal
                # A rate that is known is not found again after a wrong one
                spoiled |= wrong and c['wisdom'] is not None
                bound.append(None if lost or wrong or spoiled or unsure else 2.2 * j + (4 * j / (S * T) * gap if count > S or c['wisdom'] else 0))
                latest = bound[-1]
                if count > S + 1 and gap == 0 and bound[-1]:
                    # Latencies do not come through, other than averaged
                    smooth[len(kind) - 1] = 8 * j / S + 1e-7
                count += 1
                step = T
                if ph[2] and not (internal or stuck or mixed):
                    step = T * round(r.uniform(0.5, 2), 2)
                if not stuck:
                    u += n * step / T
                now += step
        elif k in ('gap', 'long gap'):
            now += ph[1]
            if not stuck:
                u += n * ph[1] / T
            # own tics do not know of it
            lost = internal or stuck or mixed
            gap += ph[1]
            if k == 'long gap' and count and (latest is None or latest > 1):
                # Whether that is a long time since the latest time it gave depends on that one
                unsure = True
            elif k == 'long gap' and not (count < 3 and (stuck or mixed) and not internal):
                count, gap, lost = 0, 0.0, False
                if not internal:
                    mixed = False
        elif k in ('reset', 'new'):
            kind.append(1)
            X.append(day + max(now, last))
            U.append(0)
            true.append(np.nan)
            bound.append(None)
            count, gap, lost, internal, mixed = 0, 0.0, False, False, False
            spoiled |= unsure and c['wisdom'] is not None
            unsure = False
            stuck = False
            if k == 'new':
                u = 0.0
        elif k == 'stuck':
            stuck = True
        elif k == 'restart' and count >= 3 and not (stuck or internal or mixed):
            u = 0.0
            mixed = True
    return kind, X, U, np.array(true), bound, smooth


def run(L, c, ctx):
    L.RKClockSetOffset.argtypes = [C.c_void_p, C.c_double]
    kind, X, U, true, bound, smooth = build(c)
    day = float(c['start'])
    base = np.floor(day / 86400) * 86400 if c['high'] else 0.0
    k = Clock(L, c, day)
    y, t = k.run(kind, X, U)
    for i in range(len(kind)):
        if kind[i]:
            continue
        need(abs(t[i] - X[i]) < 6e-7, 'reading %d: the system time was %.6f and comes back as %.6f', i, X[i], t[i])
        if bound[i] is None:
            continue
        e = y[i] - c['offset'] - (true[i] + (day - base))
        b = bound[i] + (3e-5 if not c['high'] else 0) + 1e-9 * abs(X[i] - day)
        if 'VT_STAT' in os.environ:
            STAT[c['jitter']] = max(STAT.get(c['jitter'], 0), abs(e) / b)
            if abs(e) / b > 0.9: print(abs(e)/b, i, c)
        need(abs(e) <= b, 'reading %d is %+.6f s off its time, up to %.6f', i, e, b)
        if i in smooth and c['high']:
            e = (y[i] - y[i - 1]) - (true[i] - true[i - 1])
            if 'VT_STAT' in os.environ:
                STAT['s'] = max(STAT.get('s', 0), abs(e) / smooth[i])
                if abs(e) / smooth[i] > 0.9: print(abs(e) / smooth[i], i, c)
            need(abs(e) <= smooth[i], 'reading %d comes %.6f s after the one before, which was %.6f s ago', i, y[i] - y[i - 1], true[i] - true[i - 1])
    m = c['what']
    ctx.cls(m)
    got = want = None
    if m == 'scale' and not c['wisdom']:
        q = Clock(L, c, day)
        got, want = q.run(kind, X, [v / 4 if s == 0 else v for v, s in zip(U, kind)])[0], y
        q.free()
    elif m == 'days' and c['high']:
        q = Clock(L, c, day + 86400 * 7)
        got, want = q.run(kind, [v + 86400 * 7 for v in X], U)[0], y
        need(not len(got) or abs(got - want).max() < 2e-6 + 4e-6 * (np.diff([v for v in X]).max() if len(X) > 1 else 0) / c['T'] / c['stride'], 'a week later the times are up to %g s later', abs(got - want).max())
        q.free()
        got = None
    elif m == 'offset':
        q = Clock(L, c, day)
        q.run([2], [day], [0.0])
        got, want = q.run([v if v != 2 else 9 for v in kind], X, U)[0], y - np.where(np.array(kind) == 0, c['offset'], 0)
        q.free()
        need(abs(got - want).max() < 1e-6 * 1e-3 * (1 if c['high'] else 1000), 'the offset changes more than that')
        got = None
    elif m == 'reset' and not c['wisdom']:
        k.run([1, 2], [X[-1]] * 2, [0, 0])
        s = X[-1] + 5 - day
        got = k.run(kind, [v + s for v in X], U)[0]
        q = Clock(L, c, day)
        want = q.run(kind, [v + s for v in X], U)[0]
        q.free()
    if got is not None:
        need((got == want).all(), '%s: reading %d is %.9f, not %.9f', m, int((got != want).argmax()), got[(got != want).argmax()], want[(got != want).argmax()])
    k.free()
    return kind.count(0) > c['stride']


def run_size(L, c, ctx):
    L.RKClockInitWithSize.restype = C.c_void_p
    p = L.RKClockInitWithSize(C.c_uint32(c['size']), C.c_uint32(c['stride']))
    need((p is not None) == (c['size'] > c['stride']), 'a clock of %d for strides of %d: %s', c['size'], c['stride'], bool(p))
    if p:
        L.RKClockFree(C.c_void_p(p))
    return True


SUBS = [
    Sub('histories', strat, run, 3000, 50000),
    Sub('sizes', lambda: st.integers(1, 50).flatmap(lambda s: st.fixed_dictionaries(dict(stride=st.just(s), size=st.integers(max(1, s - 2), s + 3)))), run_size, 100, 300),
]
PROBES = {}
