"""A whole radar: what comes out of it follows from what went in, and when it is gone nothing of it stays behind."""
import ctypes as C
import glob
import os
import time
import warnings
import numpy as np
from hypothesis import strategies as st
from scipy.io import netcdf_file
from vt.core import Sub, need, scratch
from vt.num import ptr, late, slow

ID = 'C29'
RULE = ('whole radars (capacity, ratio, buffer depths, cores, late workers, recording level) fed with positions of several sweeps and with pulses of known signal, '
        'PRF, calibration and waveform changing on the way, restarted in between; life cycles of init, live, restart, stop and free; '
        'non-trivial = at least ten rays checked, or a radar that went live; distinct by case content')
ASSUMPTIONS = ['the producer waits so that no engine falls 300 pulses behind', 'positions and pulses are time-stamped without jitter (the clock is C23)',
               'the host monitor pings nobody', 'a radar is stopped at most once']
D = C.c_double
BEGIN, END = 1 << 1, 1 << 2
USED, PROCESSED = 1 << 11, 1 << 10 | 1 << 1
FLAGS = 0x77F00


class Seen(C.Structure):
    _fields_ = [('i', C.c_uint64), ('time', D), ('az', C.c_float), ('el', C.c_float), ('marker', C.c_uint32), ('status', C.c_uint32), ('gates', C.c_uint32), ('down', C.c_uint32), ('config', C.c_uint64)]


class Ray(C.Structure):
    _fields_ = [('i', C.c_uint64), ('t0', D), ('t1', D)] + [(n, C.c_float) for n in 'a0 a1 e0 e1 sel size'.split()] + [(n, C.c_uint32) for n in 's marker gates pulses products capacity'.split()]


def api(L):
    if getattr(L, 'vt_radar_api', 0):
        return
    V, I, P = C.c_void_p, C.c_int, C.c_char_p
    L.vt_radar_new.restype = V
    L.vt_radar_new.argtypes = [V, P, D, D, D]
    L.vt_heap.restype = C.c_size_t
    L.vt_entries.argtypes = [P]
    L.vt_radar_pulse.restype = C.c_int64
    L.vt_radar_pulse.argtypes = [V, D, C.c_uint64, C.c_uint32, C.c_float, V]
    L.vt_radar_position.argtypes = [V, V, C.c_uint32, C.c_uint64]
    for f in ('live', 'stop', 'restart', 'free', 'ray_index'):
        getattr(L, 'vt_radar_' + f).argtypes = [V]
    L.vt_radar_recorder_tic.restype = C.c_uint64
    L.vt_radar_recorder_tic.argtypes = [V]
    L.vt_radar_record.argtypes = [V, I]
    L.vt_radar_config.argtypes = [V] + [D] * 7
    L.vt_radar_pulse_status.argtypes = [V, C.c_int64]
    L.vt_radar_pulse_get.argtypes = [V, C.c_int64, V]
    L.vt_radar_ray.argtypes = [V, C.c_uint32, V, V, V]
    L.vt_radar_health.argtypes = [V, I, P]
    L.vt_radar_latest_health.argtypes = [V]
    L.vt_radar_latest_health.restype = P
    L.vt_radar_desc.argtypes = [V, V]
    L.vt_radar_recording.argtypes = [P, I, V, V, V, I]
    L.vt_radar_prf.argtypes = [V, C.c_uint32]
    L.vt_radar_calibration.argtypes = [V, P, V]
    L.vt_radar_named_waveform.argtypes = [V, P]
    L.vt_radar_config_get.argtypes = [V, V, P]
    L.vt_device_set.argtypes = [V, I, I]
    L.vt_device_take.argtypes = [V]
    L.vt_radar_command.argtypes = [V, P, I]
    L.vt_radar_command.restype = P
    L.vt_radar_background.argtypes = [V, P]
    L.vt_radar_settings.argtypes = [V, V]
    L.vt_radar_controls.argtypes = [V, V, V, I]
    L.vt_radar_control.argtypes = [V, I, P, P]
    L.vt_radar_calibration_count.argtypes = [V]
    L.vt_radar_limits.argtypes = [V, V]
    L.vt_radar_request_node.argtypes = [V]
    L.vt_radar_api = 1


def make(L, u, path, prate=100.0, rate=1000.0):
    L.vt_time_set(D(1.7e9))
    r = L.vt_radar_new((C.c_uint32 * 14)(*u), path.encode(), prate, rate, 0.0)
    need(r is not None, 'no radar of %s', u)
    return C.c_void_p(r)


# ------------------------------------------------------------------ pipeline
def s_pipe():
    sweep = st.fixed_dictionaries({'positions': st.integers(6, 90), 'el': st.sampled_from([0.5, 1.0, 2.0, 4.0, 10.5, 19.5]), 'az': st.floats(0, 359, width=32)})
    event = st.fixed_dictionaries({'at': st.floats(0.02, 0.98), 'kind': st.sampled_from(['prf', 'prf', 'wave', 'wave', 'wave', 'cal']), 'value': st.integers(0, 3)})
    return st.fixed_dictionaries({
        'ratio': st.sampled_from([1, 1, 2, 4]), 'blocks': st.integers(1, 3), 'cores': st.tuples(st.integers(1, 4), st.integers(1, 4)), 'late': late(),
        'per': st.sampled_from([4, 5, 8, 10, 10, 20]), 'step': st.sampled_from([0.013, 0.02, 0.05, 0.05, 0.09, 0.13]), 'sweeps': st.lists(sweep, min_size=1, max_size=5),
        'events': st.lists(event, max_size=4), 'level': st.sampled_from([0, 1, 2, 3, 3]), 'gates': st.floats(0.1, 1), 'restart': st.sampled_from([False, False, True]), 'seed': st.integers(0, 2 ** 32)})


def gather(p):
    """Rays of pulses (azimuth, marker): first and last pulse."""
    rays, origin, count, i1 = [], 0, 0, None
    for k, q in enumerate(p):
        pos = int(np.floor(q.az))
        if q.marker & BEGIN:
            origin, count, i1 = k, 0, pos
        if i1 != pos or count == 1999 or q.marker & END:
            i1 = pos
            if count > 0:
                rays.append((origin, origin + count))
                origin, count = k, 0
        count += 1
    return rays


def segment(L, c, r, seg, ctx, sig):
    gates, ratio, P = sig['gates'], c['ratio'], c['per']
    A, th, ph = sig['A'], sig['th'], sig['ph']
    prt = 1e-3
    base = 1.7e9 + 1 + 200 * seg
    # positions: truth
    pos = []
    for s in c['sweeps']:
        for m in range(s['positions']):
            az = (s['az'] + c['step'] * P * m) % 360
            pos.append((s['el'], az, (1 << 10) if m == s['positions'] - 1 else 0))
    n = len(pos) * P - 2 * P
    flag = 1 | 1 << 16 | 1 << 8 | 1 << 25 | 1 << 28
    tp = np.array([base + (j * P - 0.5) * prt for j in range(len(pos))])
    el = np.array([q[0] for q in pos])
    az = np.array([q[1] for q in pos])

    def give(j):
        L.vt_radar_position(r, (D * 5)(tp[j], el[j], az[j], el[j], az[j]), flag | pos[j][2], j)
    events = sorted((int(e['at'] * n), i, e) for i, e in enumerate(c['events'])) if seg == 0 or not c['restart'] else []
    P_ = []
    depth = sig['depth']
    lag = 300
    j = 0

    def catch(k):
        q = Seen()
        need(L.vt_radar_pulse_get(r, k, C.byref(q)), 'pulse %d is not in its slot', k)
        need(q.status & 1, 'pulse %d lost: status %x', k, q.status)
        P_.append(q)

    def wait(k, what, bits=USED):
        t = time.time()
        while L.vt_radar_pulse_status(r, k) & bits != bits or bits == USED and L.vt_radar_recorder_tic(r) - tic0 <= k:
            need(time.time() - t < 15, '%s: pulse %d of %d never used and recorded: status %x, recorder at %d', what, k, n, L.vt_radar_pulse_status(r, k), L.vt_radar_recorder_tic(r) - tic0)
            time.sleep(0.0005)
    tic0 = L.vt_radar_recorder_tic(r)
    configs = [(0, dict(sig['cfg']))]
    for k in range(n):
        while j < len(pos) and (j < 2 or (j - 1) * P <= k):
            give(j)
            j += 1
        while events and events[0][0] <= k:
            e = events.pop(0)[2]
            if k > 2 * P:
                wait(k - 2 * P - 1, 'before %s' % e, PROCESSED)
            if k:
                wait(k - 1, 'before %s' % e, 1 << 10)
            g = configs[-1][1].copy()
            if e['kind'] == 'prf':
                g['prf'] = [500, 777, 1250, 2000][e['value']]
                L.vt_radar_prf(r, g['prf'])
            elif e['kind'] == 'wave':
                g['wave'] = e['value']
                need(L.vt_radar_named_waveform(r, b'w%d' % e['value']) == 0, 'waveform not set')
            else:
                g['zcal'], g['dcal'], g['pcal'] = -20.0 + e['value'], 0.25 * e['value'], 0.5 * e['value']
                L.vt_radar_config(r, float(g['prf']), 0.1, g['zcal'], g['dcal'], g['pcal'], -30.0, 0.0)
            o, name = (D * 7)(), C.create_string_buffer(256)
            L.vt_radar_config_get(r, o, name)
            need(abs(o[1] * g['prf'] - 1) < 1e-6 and o[2] == g['zcal'] and name.value == b'w%d' % g['wave'] and abs(o[3] - sig['cal'][g['wave']][0]) < 1e-5,
                 'configuration after %s: PRT %r, ZCal %r, %r, %r', e, o[1], o[2], name.value, o[3])
            configs.append((k, g))
        z = A * np.exp(1j * (th + ph * k))
        x = np.empty((2, gates, 2), np.int16)
        x[..., 0], x[..., 1] = np.round(z.real), np.round(z.imag)
        i = L.vt_radar_pulse(r, base + k * prt, k, gates, sig['size'], ptr(x))
        need(i == k, 'pulse %d has identity %d', k, i)
        if k % 50 == 49 and k >= lag:
            wait(k - lag, 'on the way')
        while len(P_) + lag < k - 49:
            catch(len(P_))
    while j < len(pos):
        give(j)
        j += 1
    wait(n - 1, 'at the end', PROCESSED)
    while len(P_) < n:
        catch(len(P_))
    # ---- pulses
    t = base + np.arange(n) * prt
    f = (t - tp[0]) / (P * prt)
    a = np.floor(f).astype(int).clip(0, len(pos) - 2)
    w = np.clip(f - a, 0, 1)
    da = (az[a + 1] - az[a] + 180) % 360 - 180
    want = (az[a] + w * da) % 360
    wel = el[a] + w * (el[a + 1] - el[a])
    got = np.array([q.az for q in P_])
    err = np.abs((got - want + 180) % 360 - 180)
    jump = np.abs(da) > 2 * c['step'] * P
    tol = 0.002 + 2e-4 * np.abs(da)
    bad = np.flatnonzero((err > tol) & (np.arange(n) >= P))
    need(len(bad) == 0, 'segment %d: pulse %d of %d at azimuth %r, the pedestal was at %r (positions %r, %r)', seg, bad[0] if len(bad) else 0, n, got[bad[0]] if len(bad) else 0, want[bad[0]] if len(bad) else 0,
         az[a[bad[0]]] if len(bad) else 0, az[a[bad[0]] + 1] if len(bad) else 0)
    err = np.abs(np.array([q.el for q in P_]) - wel)
    bad = np.flatnonzero((err > 0.002 + 2e-3 * np.abs(el[a + 1] - el[a])) & (np.arange(n) >= P))
    need(len(bad) == 0, 'segment %d: pulse %d at elevation %r, the pedestal was at %r', seg, bad[0] if len(bad) else 0, P_[bad[0]].el if len(bad) else 0, wel[bad[0]] if len(bad) else 0)
    for k, q in enumerate(P_):
        need(q.gates == gates and q.down == (gates + ratio - 1) // ratio, 'pulse %d: %d gates, %d downsampled from %d', k, q.gates, q.down, gates)
    # ---- sweeps: the one after the last position of a sweep is its end, the next one the beginning of the next
    ends = []
    for m in np.cumsum([q['positions'] for q in c['sweeps']])[:-1]:
        k = int(np.flatnonzero(t > tp[m - 1])[0])
        if k < n - 1:
            ends.append(k)
    marks = [(k, q.marker & (BEGIN | END)) for k, q in enumerate(P_) if q.marker & (BEGIN | END)]
    need(marks == [(0, BEGIN)] + [x for k in ends for x in ((k, END), (k + 1, BEGIN))], 'segment %d: sweep marks %s, sweeps end at %s', seg, marks, ends)
    # ---- rays
    rays = gather(P_)
    t0 = time.time()
    R = []
    g = np.arange(0, gates, ratio)
    rg = np.arange(len(g)) * float(np.float32(sig['size'])) * ratio
    complete = lambda e: bool(ends) and e <= ends[-1]
    used = lambda k: k < n - 600 or L.vt_radar_pulse_status(r, k) & USED
    for y, (o, e) in enumerate(rays):
        if e - o == 1 and complete(e):
            R.append(None)
            continue
        name = 'segment %d: ray %d of %d (pulses %d to %d)' % (seg, y, len(rays), o, e)
        h = Ray()
        while True:
            L.vt_radar_ray(r, y, C.byref(h), None, None)
            if h.i == y and h.s & 8:
                break
            # the rays of a complete sweep are released: nothing but the status changes (one that is a sweep by itself is released first and looked at later)
            if h.i == y and h.s & ~64 == 0 and complete(e) and e - o > 1 and used(e - 1):
                break
            need(time.time() - t0 < 20, '%s never came out: identity %d, status %x', name, h.i, h.s)
            time.sleep(0.001)
        a, b = P_[o], P_[e]
        need(h.gates == len(g) and h.pulses == e - o + 1, '%s: %d gates of %d, %d pulses of %d', name, h.gates, len(g), h.pulses, e - o + 1)
        need((h.a0, h.a1, h.e0, h.e1) == (a.az, b.az, a.el, b.el) and (h.t0, h.t1) == (a.time, b.time), '%s: azimuth %r to %r, elevation %r to %r, its pulses %r to %r, %r to %r', name, h.a0, h.a1, h.e0, h.e1, a.az, b.az, a.el, b.el)
        da = abs(a.az - b.az)
        go = e - o + 1 > 3 and min(da, 360 - da) < 3 and abs(a.el - b.el) < 3
        need(h.s & 15 == (10 if go else 12) or h.s & ~64 == 0 and complete(e), '%s: status 0x%x although it is %s', name, h.s, 'to be processed' if go else 'to be skipped')
        need(abs(h.size - sig['size'] * ratio) < 1e-3, '%s: gate size %r', name, h.size)
        v, u = np.zeros((10, len(g)), np.float32), np.zeros((10, len(g)), np.uint8)
        L.vt_radar_ray(r, y, C.byref(h), ptr(v), ptr(u))
        R.append((h, v))
        if not go:
            need(np.isnan(v).all(), '%s: a skipped ray with values', name)
            ctx.cls('skipped ray')
            continue
        # configuration of the ray: that of the last change before it, or one of those that came in while its pulses were under way
        sure = [q for k, q in configs if k <= e - 2 * P]
        cands = [q for k, q in configs if k <= e + 2 * P][len(sure) - 1 if sure else 0:]
        why = None
        for q in cands:
            why = moments(sig, q, v, g, rg, e - o + 1, ratio)
            if why is None:
                break
        need(why is None, '%s: %s', name, why)
        ctx.cls('ray')
    # what has come to the sweep engine by the time it stops is written
    for y in range(len(rays) - 1, -1, -1):
        if c['level'] and R[y] is not None and complete(rays[y][1]):
            h, t0 = Ray(), time.time()
            while time.time() - t0 < 5:
                L.vt_radar_ray(r, y, C.byref(h), None, None)
                if h.s & 64 or h.s == 0:
                    break
                time.sleep(0.001)
            break
    t0 = time.time()
    while L.vt_radar_ray_index(r) != len(rays) % 900 and time.time() - t0 < 5:
        time.sleep(0.001)
    need(L.vt_radar_ray_index(r) == len(rays) % 900, 'segment %d: %d rays, the pulses make %d', seg, L.vt_radar_ray_index(r), len(rays))
    sig['cfg'] = configs[-1][1]
    return P_, R, rays, base, n


def moments(sig, q, v, g, r, pulses, ratio):
    """None, or how the moments of this ray differ from those of the signal under this configuration."""
    if pulses < 4:
        return None
    A, th, ph, cal = sig['A'][:, g], sig['th'][:, g], sig['ph'][g], sig['cal'][q['wave']].astype(float)
    S = 20 * np.log10(A)
    wrap = lambda x: (x + np.pi) % (2 * np.pi) - np.pi
    pcal = wrap(q['pcal'] + cal[3])
    va = 0.25 * 0.1 * q['prf']
    with np.errstate(all='ignore'):
        z = S[0] + 20 * np.log10(r) + q['zcal'] + cal[0] - (10 * np.log10(sig['size'] / 150.0) + 60) - 60  # an impulse of 1 Hz has a gain of 60 dB
    tolS = 0.06
    for nm, got, want, tol in (('SNR power', v[7], S[0] - 80, tolS), ('Z', v[0][1:], z[1:], tolS), ('ZDR', v[3][1:], (S[0] - S[1] + cal[0] - cal[1] + q['dcal'] + cal[2])[1:], 2 * tolS)):
        bad = np.flatnonzero(~(np.abs(got - want) <= tol))
        if len(bad):
            return '%s of gate %d is %r, the signal makes %r' % (nm, bad[0], float(got[bad[0]]), float(want[bad[0]]))
    bad = np.flatnonzero(~(np.abs(v[1] / va * np.pi - ph) <= 0.02))
    if len(bad):
        return 'velocity of gate %d is %r, the signal makes %r' % (bad[0], float(v[1][bad[0]]), float(ph[bad[0]] * va / np.pi))
    bad = np.flatnonzero(~(np.abs(wrap(v[4] - (sig['th'][0] - sig['th'][1])[g] - pcal)) <= 0.02))
    if len(bad):
        return 'phase of gate %d is %r, the signal makes %r' % (bad[0], float(v[4][bad[0]]), float(wrap((sig['th'][0] - sig['th'][1])[g] + pcal)[bad[0]]))
    bad = np.flatnonzero(~(np.abs(v[5] - 1) <= 0.02))
    if len(bad):
        return 'correlation of gate %d is %r' % (bad[0], float(v[5][bad[0]]))
    return None


def pipe(L, c, ctx):
    api(L)
    most = max(6, 3000 // c['per'] // len(c['sweeps']))
    c = dict(c, sweeps=[dict(q, positions=min(q['positions'], most)) for q in c['sweeps']])
    rng = np.random.default_rng(c['seed'])
    ratio = c['ratio']
    block = 16 * ratio
    cap = block * c['blocks']
    gates = max(1, int(cap * c['gates']))
    depth = 800 + 16 * int(rng.integers(0, 40))
    path = scratch()
    slow(L, {'late': c['late'], 'cores': max(c['cores'])})
    r = make(L, [cap, ratio, 8, 100, 20, 200, depth, 900, FLAGS, c['cores'][0], c['cores'][1], 5, 0, 0], path, 1000.0 / c['per'])
    sig = {'sweeps': [q['el'] for q in c['sweeps']], 'gates': gates, 'depth': depth, 'A': 10 ** rng.uniform(2.5, 4, (2, gates)), 'th': rng.uniform(-3, 3, (2, gates)), 'ph': rng.uniform(-2.8, 2.8, gates), 'size': 75.0 / ratio,
           'cfg': {'prf': 1000, 'zcal': -20.0, 'dcal': 0.5, 'pcal': 0.1, 'wave': 0}, 'cal': [np.array([1.5 * k, -k, 0.1 * k, 0.3 * k], np.float32) for k in range(4)]}
    for k in range(4):
        L.vt_radar_calibration(r, b'w%d' % k, ptr(sig['cal'][k]))
    need(L.vt_radar_named_waveform(r, b'w0') == 0, 'waveform not set')
    L.vt_radar_record(r, c['level'])
    for k in range(5):  # recordings begin with the fifth configuration
        L.vt_radar_config(r, 1000.0, 0.1, -20.0, 0.5, 0.1, -30.0, 0.0)
    need(L.vt_radar_live(r) == 0, 'radar does not go live')
    S = [segment(L, c, r, 0, ctx, sig)]
    if c['restart']:
        need(L.vt_radar_restart(r) == 0, 'radar does not restart')
        S.append(segment(L, c, r, 1, ctx, sig))
    need(L.vt_radar_stop(r) == 0, 'radar does not stop')
    need(L.vt_radar_free(r) == 0, 'radar not freed')
    L.vt_sem_slow(0, 0, 1)
    files(L, c, path, sig, S, ctx)
    return sum(len(q[2]) for q in S) >= 10


def files(L, c, path, sig, S, ctx):
    names = sorted(glob.glob(path + '/**/*.*', recursive=True))
    iq = [f for f in names if '/iq/' in f]
    mo = [f for f in names if '/moment/' in f]
    need(c['level'] >= 2 or not iq, 'recorded %s at level %d', iq[:2], c['level'])
    need(c['level'] >= 1 or not mo, 'recorded %s at level %d', mo[:2], c['level'])
    # ---- raw recordings: the pulses up to the last ray, once each, in order, as they came
    if c['level'] >= 2:
        ext = '.rkr' if c['level'] == 3 else '.rkc'
        need(all(f.endswith(ext) for f in iq), 'recordings %s at level %d', iq, c['level'])
        m0 = 4000
        gates = sig['gates'] if c['level'] == 3 else (sig['gates'] + c['ratio'] - 1) // c['ratio']
        got, data = [], []
        for f in iq:
            o, y, t = np.zeros((m0, 4)), np.zeros((m0, 2, gates, 2), np.float32), C.c_int()
            m = L.vt_radar_recording(f.encode(), m0, ptr(o), C.byref(t), ptr(y), gates)
            need(m > 0, '%s: %d pulses', os.path.basename(f), m)
            got.append(o[:m])
            data.append(y[:m])
        # the first configurations are those of the start and not recorded
        need(all(q.config > 1003 for q in S[0][0]), 'pulses with a configuration from before the radar went live')
        first = [min([k for k, q in enumerate(P_) if q.config > 1003], default=n) for P_, R, rays, base, n in S]
        need(bool(got) or all(q[2][-1][1] <= f for q, f in zip(S, first) if q[2]), 'no recording, although pulses from %s should be', first)
        if not got:
            got, data = [np.zeros((0, 4))], [np.zeros((0, 2, gates, 2))]
        got, data = np.concatenate(got), np.concatenate(data)
        k = 0
        for seg, (P_, R, rays, base, n) in enumerate(S):
            last = max([e for q, (o, e) in enumerate(rays)], default=0)
            m = 0
            while k < len(got) and (m == 0 or got[k, 0] == got[k - 1, 0] + 1):
                m += 1
                k += 1
            w = got[k - m:k]
            if m == 0 and first[seg] >= last:
                continue
            f = first[seg]
            need(m and w[0, 0] == f, 'segment %d: the recording begins with pulse %r, not %d', seg, w[0, 0] if m else None, f)
            need(last <= m + f <= n, 'segment %d: %d pulses recorded, %d given, the last ray ends with %d', seg, m, n, last)
            need(all(w[q, 1] == P_[f + q].time and w[q, 3] == np.float32(P_[f + q].az) for q in range(m)), 'segment %d: time or azimuth of a recorded pulse', seg)
            need((w[:, 2] == sig['gates']).all(), 'segment %d: gate count of a recorded pulse', seg)
            z = sig['A'] * np.exp(1j * (sig['th'] + sig['ph'] * np.arange(f, f + m)[:, None, None]))
            z = np.stack([np.round(z.real), np.round(z.imag)], 3)
            if c['level'] == 2:
                z = z[:, :, ::c['ratio']]
            bad = np.argwhere(np.abs(data[k - m:k] - z) > (0.51 if c['level'] == 3 else 0.2))
            # a change of the waveform may come in the middle of the last pulses
            need(len(bad) == 0, 'segment %d: sample %s of the recording is %r, given %r', seg, bad[0] if len(bad) else 0, data[k - m:k][tuple(bad[0])] if len(bad) else 0, z[tuple(bad[0])] if len(bad) else 0)
            ctx.cls('recorded pulses', m)
        need(k == len(got), 'pulse %r recorded after the last', got[k, 0] if k < len(got) else 0)
    # ---- moment files: one set per complete sweep of several rays, with its rays
    if c['level'] < 1:
        return
    want = {}
    for seg, (P_, R, rays, base, n) in enumerate(S):
        marks = [(k, q.marker) for k, q in enumerate(P_) if q.marker & (BEGIN | END)]
        for (a, ma), (b, mb) in zip(marks, marks[1:]):
            if not (ma & BEGIN and mb & END):
                continue
            ys = [y for y, (o, e) in enumerate(rays) if o >= a and e <= b]
            # only sweeps of several rays of which most are in the middle of the scan are written
            mid = sum(any(P_[k].marker & 1 for k in range(rays[y][0], rays[y][1] + 1)) for y in ys)
            if len(ys) < 3 or mid < 0.8 * len(ys):
                continue
            good = sum(R[y] is not None and not np.isnan(R[y][1][0]).all() for y in ys)
            when = time.strftime('%Y%m%d-%H%M%S', time.gmtime(base + rays[ys[0]][0] * 1e-3))
            want.setdefault((when, '%.1f' % sig['sweeps'][marks.index((a, ma)) // 2]), []).append((seg, ys, good))
    have = {}
    for f in mo:
        _, day, t, e, p = os.path.basename(f).split('-')
        need(p.endswith('.nc'), 'file %s', f)
        have.setdefault((day + '-' + t, e[1:]), {})[p[:-3]] = f
    # without moments in any ray there may be nothing to write
    want = {k: v for k, v in want.items() if k in have or any(q[2] for q in v)}
    need(sorted(have) == sorted(want), 'moment files of %s, complete sweeps %s', sorted(have), sorted(want))
    for k, v in want.items():
        need(sorted(have[k]) == sorted('ZVWDPR'), 'sweep %s: files of %s', k, sorted(have[k]))
        if len(v) > 1:
            continue
        seg, ys, good = v[0]
        R = S[seg][1]
        for p, i in (('Z', 0), ('V', 1), ('W', 2), ('D', 3), ('P', 4), ('R', 5)):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                x = netcdf_file(have[k][p], 'r', mmap=False)
            var = [q for q in x.variables if q not in ('Azimuth', 'Elevation', 'Beamwidth', 'GateWidth')]
            az, dat = np.array(x.variables['Azimuth'].data), np.array(x.variables[var[0]].data)
            need(len(az) == len(ys), 'sweep %s, %s: %d rays, the sweep had %d', k, p, len(az), len(ys))
            for q, y in enumerate(ys):
                if R[y] is None:
                    continue
                h, val = R[y]
                need(az[q] == np.float32(h.a0), 'sweep %s, %s: ray %d at azimuth %r, not %r', k, p, q, az[q], h.a0)
                w = np.where(np.isfinite(val[i]), val[i], np.float32(-99900))
                need(np.array_equal(dat[q].astype(np.float32), w), 'sweep %s, %s: ray %d is %s, not %s', k, p, q, dat[q][:4], w[:4])
            x.close()
        ctx.cls('sweep file')



# ------------------------------------------------------------------ life
def s_life():
    depth = lambda least, most: st.one_of(st.just(0), st.integers(least, most), st.integers(most + 1, 2 * most), st.just(0xFFFFFFFF))
    return st.fixed_dictionaries({
        'ratio': st.sampled_from([0, 1, 1, 2, 3, 4]), 'blocks': st.integers(0, 6), 'depths': st.tuples(depth(2, 10), depth(4, 10), depth(4, 50), depth(20, 1000), depth(100, 20000), depth(40, 3600)).map(list),
        'nodes': st.integers(0, 16), 'controls': st.sampled_from([0, 1, 5, 128, 129, 300]), 'cals': st.sampled_from([0, 1, 3, 128, 129, 300]),
        'cores': st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list),
        'devices': st.lists(st.tuples(st.integers(0, 10), st.sampled_from([0, 0, 0, 0, 1, 2, 3])).map(list), max_size=5, unique_by=lambda q: q[0]),
        'live': st.sampled_from([True, True, True, False]), 'restart': st.sampled_from([False, False, True]), 'stop': st.booleans(), 'waves': st.lists(st.integers(0, 140), max_size=4), 'more': st.integers(0, 4)})


def life(L, c, ctx):
    api(L)
    path = scratch()
    tasks = lambda: L.vt_entries(b'/proc/self/task')
    files_ = lambda: L.vt_entries(b'/proc/self/fd')
    buf = C.create_string_buffer(1 << 20)
    ratio = max(1, c['ratio'])
    dep = [(10, 10), (10, 10), (40, 50), (500, 1000), (2000, 20000), (720, 3600)]
    want = [d if q == 0 else min(q, m) for q, (d, m) in zip(c['depths'], dep)]
    nodes = 12 if c['nodes'] == 0 or c['nodes'] > 12 else max(4, c['nodes'])
    ctrl = min(128, c['controls'] or 64)
    cals = min(128, c['cals'] or 64)
    # devices start in this order: user devices, health relay, pedestal, transceiver
    order = sorted([q for q in c['devices'] if q[0] > 2]) + [q for k in (2, 1, 0) for q in c['devices'] if q[0] == k]
    started, result, tried = [], 0, []
    for k, fail in order:
        if fail in (2, 3):
            result = L.vt_device_result(k, 0)
            break
        tried.append(k)
        if fail == 1:
            result = L.vt_device_result(k, 1)
            break
        started.append(k)
    res = []
    for cycle in range(2):
        L.vt_device_take(buf)
        r = make(L, [16 * ratio * c['blocks'], c['ratio']] + c['depths'] + [FLAGS, c['cores'][0], c['cores'][1], c['nodes'], c['controls'], c['cals']], path)
        o = (C.c_uint32 * 16)()
        L.vt_radar_desc(r, o)
        need(list(o)[1:7] == want and o[0] == 16 * ratio * max(1, c['blocks']) and o[7] == nodes, 'asked for %s and %d nodes of capacity %d, the radar has %s', c['depths'], c['nodes'], 16 * ratio * c['blocks'], list(o)[:8])
        lim = (C.c_uint32 * 4)()
        L.vt_radar_limits(r, lim)
        need(list(lim)[:3] == [ctrl, cals, ratio], 'asked for %d controls, %d calibrations and ratio %d, the radar has %s', c['controls'], c['cals'], c['ratio'], list(lim)[:3])
        # controls and calibrations: the first ones that have room
        for k in range(ctrl + c['more'] - 2):
            L.vt_radar_control(r, k & 1, b'label %d' % k, b'command %d' % k)
        L.vt_radar_control(r, 3, None, None)
        uid = (C.c_uint32 * 256)()
        n = L.vt_radar_controls(r, uid, buf, 256)
        have = buf.value.split(b'\x02')[:-1]
        m = max(0, min(ctrl, ctrl + c['more'] - 2))
        need(n == m and have == [b'label %d\x01command %d' % (k, k) for k in range(m)], '%d controls of %d: %s', n, m, have[-2:])
        need(len(set(uid[:n])) == n, 'identities of the controls %s', sorted(uid[:n])[:8])
        nc = max(0, cals + c['more'] - 2)
        for k in range(nc):
            L.vt_radar_calibration(r, b'w%d' % k, ptr(np.array([k + 1.0, k, 0.1, 0.2], np.float32)))
        need(L.vt_radar_calibration_count(r) == min(cals, nc), '%d calibrations, given %d, room for %d', L.vt_radar_calibration_count(r), nc, cals)
        # health nodes: those there are
        got = []
        while len(got) < 20:
            q = L.vt_radar_request_node(r)
            if not 0 <= q < 255:
                break
            got.append(q)
        need(got == list(range(4, nodes)), 'health nodes %s of %d', got, nodes)
        for k in range(20):
            need((L.vt_radar_health(r, k, b'{"a":1}') == 0) == (k < nodes), 'health of node %d of %d', k, nodes)
        for k, fail in c['devices']:
            L.vt_device_set(r, k, fail)
        if c['live']:
            q = L.vt_radar_live(r)
            need(q == result, 'going live with devices %s gives %d, not %d', c['devices'], q, result)
            if result == 0:
                seen, name = (D * 7)(), C.create_string_buffer(256)
                for w in c['waves']:
                    need(L.vt_radar_named_waveform(r, b'w%d' % w) == 0, 'waveform not set')
                    L.vt_radar_config_get(r, seen, name)
                    need(name.value == b'w%d' % w and seen[3] == (w + 1 if w < min(cals, nc) else 0), 'waveform %d with calibration %r of %d', w, seen[3], min(cals, nc))
                if c['restart']:
                    need(L.vt_radar_restart(r) == 0, 'does not restart')
                    L.vt_radar_desc(r, o)
                    need(list(o)[9:12] == [0, 0, 0], 'indices after the restart %s', list(o)[9:12])
                if c['waves']:
                    L.vt_radar_config_get(r, seen, name)
                    need(name.value == b'w%d' % c['waves'][-1], 'waveform %r in the end', name.value)
                if c['stop']:
                    need(L.vt_radar_stop(r) == 0, 'does not stop')
        need(L.vt_radar_free(r) == 0, 'not freed')
        L.vt_device_take(buf)
        log = [q.decode() for q in buf.value.split(b'\x01')[:-1]]
        if not c['live']:
            need(log == [], 'devices of a radar that never was live: %s', log)
        else:
            for k in range(11):
                w = chr(65 + k)
                mine = [q[1:] for q in log if q[0] == w]
                need(mine == (['i', 'xdisconnect', 'f'] if k in started else ['i'] if k in tried else []), 'device %d of %s saw %s', k, c['devices'], mine)
            need([q[0] for q in log if q[1] == 'i'] == [chr(65 + k) for k in tried], 'devices started in order %s, not %s', log, tried)
        t = time.time()
        while cycle and (tasks(), files_()) != res[0][:2] and time.time() - t < 5:
            time.sleep(0.01)
        if cycle == 0:
            time.sleep(0.05)
        res.append((tasks(), files_(), L.vt_heap()))
    need(res[1][0] <= res[0][0], '%d threads after a radar, %d before', res[1][0], res[0][0])
    need(res[1][1] <= res[0][1], '%d open files after a radar, %d before', res[1][1], res[0][1])
    need(res[1][2] - res[0][2] < 16384, '%d more bytes in use after a radar of %s', res[1][2] - res[0][2], c)
    ctx.cls('life of a radar' + (' that went live' if c['live'] and not result else ''))
    return bool(c['live'])


SUBS = [Sub('pipeline', s_pipe, pipe, 60, 1500, hang=120, heavy=True), Sub('life', s_life, life, 60, 1200, hang=60, heavy=True)]
PROBES = {}
