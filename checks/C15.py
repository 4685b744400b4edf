"""Every pulse gets the antenna position of its own time, and the marks of the sweep it belongs to."""
import ctypes as C
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr

ID = 'C15'
RULE = ('position histories (any rates, azimuth and elevation turning either way through north, scan modes, active and complete flags) and pulse times between them, handed to the threaded engine in any interleaving, '
        'both buffers reused; every pulse against interpolation and marker rules evaluated over the whole history; non-trivial = a sweep begins and ends, or a buffer is reused; distinct by case content')
ASSUMPTIONS = ['positions are later one after the other, pulses never earlier than the one before nor than the first position', 'neither buffer is lapped while the engine is behind',
               'the antenna moves less than half a circle between two positions']

POS = np.dtype([('time', 'f8'), ('el', 'f4'), ('az', 'f4'), ('vel', 'f4'), ('vaz', 'f4'), ('sel', 'f4'), ('saz', 'f4'), ('flag', 'u4'), ('rel', 'u4'), ('raz', 'u4')], align=True)
PUL = np.dtype([('time', 'f8'), ('gateCount', 'u4'), ('gateSize', 'f4'), ('skip', 'u4')], align=True)
OUT = np.dtype([('el', 'f4'), ('az', 'f4'), ('vel', 'f4'), ('vaz', 'f4'), ('rel', 'u4'), ('raz', 'u4'), ('marker', 'u4'), ('status', 'u4'), ('rev', 'u8'), ('sel', 'f4'), ('saz', 'f4'), ('size', 'f4'),
                ('start', 'u4'), ('count', 'u4'), ('i', 'u8'), ('same', 'u4')], align=True)
AE, AS, AP, AC = 1, 1 << 8, 1 << 9, 1 << 10
EE, ES, EP, EC = 1 << 16, 1 << 24, 1 << 25, 1 << 26
ACTIVE = 1 << 28
MIDDLE, BEGIN, END = 1, 2, 4
MODES = {'ppi': (EP | AS, 1 << 5), 'rhi': (ES | AP, 2 << 5), 'point': (EP | AP, 3 << 5), 'slew': (ES | AS, 0), 'idle': (0, 0)}

segment = st.tuples(st.sampled_from(sorted(MODES)), st.booleans(), st.integers(1, 25), st.sampled_from(['none', 'az', 'el', 'both']), st.sampled_from([0, 1, 2, 3]))


def strat():
    return st.fixed_dictionaries(dict(
        segments=st.lists(segment, min_size=1, max_size=12), rate=st.sampled_from([0.1, 0.3, 1.0, 1.0, 2.0, 5.0, 12.0]), ties=st.booleans(), seed=st.integers(0, 2 ** 32 - 1),
        step=st.sampled_from([0.01, 0.3, 1.0, 20.0, 170.0]), base=st.sampled_from([0.0, 1000.0, 1.7e9]), posDepth=st.integers(24, 90), pulseDepth=st.integers(60, 120), sched=st.lists(st.integers(0, 255), max_size=40),
        late=st.sampled_from([0, 1, 3]), gates=st.integers(1, 3)))


def history(c):
    rng = np.random.default_rng(c['seed'])
    seg = c['segments']
    n = sum(s[2] for s in seg) + 6
    p = np.zeros(n, POS)
    dt = rng.uniform(0.002, 0.03, n)
    if c['ties']:
        dt = np.round(dt * 256 + 1) / 256
    p['time'] = c['base'] + 0.5 + np.cumsum(dt)
    turn = np.cumsum(rng.choice([-1, 1]) * rng.uniform(0, c['step'], n))
    if rng.random() < 0.3:
        turn = np.cumsum(rng.uniform(-c['step'], c['step'], n))
    p['az'] = np.mod(rng.uniform(0, 360) + turn, 360).astype(np.float32)
    if rng.random() < 0.5:
        p['az'] = np.round(p['az'])
    p['az'][p['az'] >= 360] = 0
    p['el'] = np.clip(rng.uniform(-2, 20) + np.cumsum(rng.uniform(-1, 1, n)), -5, 185)
    if rng.random() < 0.2:
        p['el'] = np.mod(p['el'], 360)
    for f in ('vel', 'vaz', 'sel', 'saz'):
        p[f] = rng.uniform(-50, 50, n)
    p['rel'] = rng.integers(0, 2 ** 32, n)
    p['rel'] &= ~np.uint32(3)
    if c['late']:
        p['rel'] |= np.where(rng.random(n) < 0.2, c['late'], 0).astype(np.uint32)
    p['raz'] = rng.integers(0, 2 ** 32, n)
    k = 0
    for mode, active, length, complete, where in seg:
        for j in range(length):
            f = MODES[mode][0] | (ACTIVE if active else 0) | int(rng.integers(0, 8)) | int(rng.integers(0, 8)) << 16 | (int(rng.integers(0, 2)) << 29)
            if complete != 'none' and (j == length - 1 or where == 1 and j == length // 2 or where == 2 and rng.random() < 0.3):
                f |= (AC if complete in ('az', 'both') else 0) | (EC if complete in ('el', 'both') else 0)
            p['flag'][k] = f
            k += 1
    p['flag'][k:] = p['flag'][k - 1]
    # Pulse times between the first and the last position
    m = max(1, min(600, int(round((n - 2) / c['rate']))))
    lo, hi = p['time'][0], p['time'][-1]
    t = np.sort(rng.uniform(lo, hi, m))
    if rng.random() < 0.5:
        t = lo + (hi - lo) * (np.arange(m) + rng.uniform(0, 1)) / m
    if c['ties']:
        q = rng.random(m) < 0.4
        t[q] = p['time'][np.searchsorted(p['time'], t[q], 'right') - 1]
        t = np.sort(t)
    t = t[t < hi]
    if not len(t):
        t = np.array([lo])
    u = np.zeros(len(t), PUL)
    u['time'] = t
    g = rng.integers(1, 5000, c['gates'])
    run = np.cumsum(rng.random(len(t)) < 0.1)
    u['gateCount'] = g[run % len(g)]
    u['gateSize'] = np.float32(30.0) + (run // 3).astype(np.float32)
    u['skip'] = np.where(rng.random(len(t)) < 0.2, c['late'], 0)
    # No more positions between two pulses than either buffer holds
    b = np.searchsorted(p['time'], t, 'right') - 1
    most = min(c['posDepth'] - c['posDepth'] // 8 - 6, c['pulseDepth'] - 2)
    gap = np.diff(np.concatenate([[0], b]))
    if gap.max(initial=0) > most:
        return None
    return p, u, b


def run(L, c, ctx):
    h = history(c)
    if h is None:
        return False
    p, u, b = h
    n, m = len(p), len(u)
    P, U, O = aligned(n, POS), aligned(m, PUL), aligned(m, OUT)
    P[:], U[:] = p, u
    B = aligned(m, np.int32)
    B[:] = b
    sched = np.array(c['sched'] + [0x11], np.uint8)
    S = aligned(len(sched), np.uint8)
    S[:] = sched
    rev = C.c_int(0)
    rc = L.vt_position_run(n, ptr(P), m, ptr(U), C.c_uint32(c['posDepth']), C.c_uint32(c['pulseDepth']), len(S), ptr(S), ptr(B), ptr(O), C.byref(rev))
    need(rc == 0, 'pulse %d of %d got no position', -1 - rc, m)
    # Model of the markers
    last, was, gates = 0, END, int(u['gateCount'][0])
    revision, sel, saz, size, start, count = 0, 77.0, 0.0, 0.0, 0, 0
    begins = ends = 0
    for k in range(m):
        i, j = int(b[k]), int(b[k]) + 1
        a, z, o = p[i], p[j], O[k]
        what = 'pulse %d between positions %d and %d' % (k, i, j)
        need(o['i'] == k and o['same'], '%s: its own header values changed', what)
        w = (u['time'][k] - a['time']) / (z['time'] - a['time'])
        turn = lambda x, y: (float(y) - float(x) + 180.0) % 360.0 - 180.0
        for f, name in (('az', 'azimuth'), ('el', 'elevation')):
            d = turn(a[f], z[f])
            want = float(a[f]) + w * d
            err = abs(turn(want, o[f]))
            if abs(abs(d) - 180) < 1e-3:
                ctx.cls('half a circle between two positions')
                continue
            need(err < 2e-3, '%s: %s %.4f, expected %.4f', what, name, o[f], want % 360 if f == 'az' else want)
        need(0 <= o['az'] < 360, '%s: azimuth %r is not in [0, 360)', what, o['az'])
        for f in ('vel', 'vaz', 'rel', 'raz'):
            need(o[f] == a[f], '%s: %s is %s, not that of the position before it, %s', what, f, o[f], a[f])
        flag = int(a['flag'])
        marker = MIDDLE if flag & ACTIVE else 0
        if flag & EP and flag & AS:
            marker |= 1 << 5
        elif flag & AP and flag & ES:
            marker |= 2 << 5
        elif flag & AP and flag & EP:
            marker |= 3 << 5
        passed = p['flag'][last:j] & (AC | EC)
        if k == 0:
            passed = p['flag'][0:j] & (AC | EC)
        last = j
        if len(passed) and passed.any() and (len(passed) == 1 or not was & END):
            marker |= END
        if was & MIDDLE and not marker & MIDDLE:
            marker |= END
        if marker & MIDDLE and (not was & MIDDLE or was & END) or (was ^ marker) & 0x60:
            marker |= BEGIN
        need(o['marker'] == marker, '%s: marker %02x, expected %02x after %02x', what, o['marker'], marker, was)
        new = False
        if marker & BEGIN:
            revision += 1
            sel, saz, size, start, count = z['sel'], z['saz'], u['gateSize'][k], marker, int(u['gateCount'][k])
        if int(u['gateCount'][k]) != gates:
            gates = int(u['gateCount'][k])
            revision += 1
            count = gates
        got = (int(o['rev']), float(o['sel']), float(o['saz']), float(o['size']), int(o['start']), int(o['count']))
        want = (revision, float(sel), float(saz), float(size), start, count)
        need(got == want, '%s: configuration (revision, elevation, azimuth, gate size, marker, gates) is %s, expected %s', what, got, want)
        begins += bool(marker & BEGIN)
        ends += bool(marker & END)
        was = marker
    need(rev.value == revision, '%d configuration changes, expected %d', rev.value, revision)
    if m > c['pulseDepth']:
        ctx.cls('pulse buffer reused')
    if n > c['posDepth']:
        ctx.cls('position buffer reused')
    ctx.cls('rate %s' % c['rate'])
    return begins > 1 and ends > 0 or m > c['pulseDepth'] or n > c['posDepth']


def run_angle(L, c, ctx):
    L.RKInterpolatePositiveAngles.restype = C.c_float
    L.RKInterpolateAngles.restype = C.c_float
    a, d, w = np.float32(c['a']), c['d'], c['w']
    z = np.float32((float(a) + d) % 360.0)
    if z >= 360:
        z = np.float32(0)
    turn = (float(z) - float(a) + 180.0) % 360.0 - 180.0
    if abs(turn) > 179.99:
        return False
    want = float(a) + np.float32(w) * turn
    got = L.RKInterpolatePositiveAngles(C.c_float(a), C.c_float(z), C.c_float(w))
    need(0 <= got < 360, 'azimuth %r of the way from %r to %r is %r', w, a, z, got)
    need(abs((got - want + 180) % 360 - 180) < 2e-4, 'azimuth %r of the way from %r to %r is %r', w, a, z, got)
    got = L.RKInterpolateAngles(C.c_float(a), C.c_float(z), C.c_float(w))
    need(abs((got - want + 180) % 360 - 180) < 2e-4, 'angle %r of the way from %r to %r is %r', w, a, z, got)
    return turn != 0


angle = lambda: st.fixed_dictionaries(dict(a=st.one_of(st.floats(0, 359.9375, width=32), st.integers(0, 359), st.sampled_from([1e-30, 1e-6, 359.99997])),
                                           d=st.one_of(st.floats(-179.9, 179.9), st.floats(-1e-3, 1e-3)), w=st.floats(0, 1)))
SUBS = [Sub('history', strat, run, 1600, 30000, hang=60), Sub('angles', angle, run_angle, 6000, 200000)]
PROBES = {}
