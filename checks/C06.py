"""Pulses become rays by position, sweep marks and the length limit; each ray is its own pulses' moments under its own configuration."""
import ctypes
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr, late, slow

ID = 'C06'
RULE = ('pulse histories (sweeps of PPI / RHI / other scans with begin and end marks, strays between sweeps, stares longer than the ray limit) through the '
        'threaded moment engine x cores x ratio x buffer depths x configurations x boundary mode; rays compared with a model of the gathering and with '
        'the same pulses processed alone; non-trivial = at least two rays processed; distinct by case content')
ASSUMPTIONS = ['the producer waits so that the engine never falls half a buffer behind', 'positions are non-negative; one gate count and one compression state per sweep, one gate size per configuration',
               'products that the processor under test does not compute are not compared']
B, E_ = 1 << 1, 1 << 2
LIMIT = 2000


def config(rng, span):
    """f[51], u[27]: filters that together cover span gates."""
    nf = int(rng.choice([1, 1, 2, 2, 3]))
    f = np.zeros(51, np.float32)
    f[0] = rng.uniform(2e-4, 3e-3)
    f[1:3] = rng.uniform(0.01, 2, 2)
    f[3:7] = np.concatenate([rng.uniform(-60, 60, 2), rng.uniform(-3, 3, 2)])
    f[7] = rng.uniform(-20, 6)
    f[8] = rng.choice([0, 0, 0.1, 0.3])
    f[9:11] = rng.uniform(0, 90), rng.uniform(0, 360)
    f[11:] = rng.uniform(-2.5, 2.5, 40)
    cuts = sorted(rng.integers(0, span + 1, nf - 1).tolist())
    lo = [0] + cuts
    hi = cuts + [100000]
    order = rng.permutation(nf)
    u = np.zeros(27, np.uint32)
    u[1] = rng.choice([1, 1, 2, 4])
    u[2] = nf
    for k in range(nf):
        j = order[k]
        over = int(rng.integers(0, 4)) if rng.random() < 0.3 else 0
        u[3 + 3 * k] = rng.integers(0, span + 1)
        u[4 + 3 * k] = lo[j]
        u[5 + 3 * k] = hi[j] - lo[j] + over
    return f, u


def calibration(f, u, gates, gate_size, adj):
    """S2Z h, v, dcal, pcal: per gate, by the last filter that covers the gate."""
    out = np.full((4, gates), np.nan)
    r = np.arange(gates) * float(gate_size)
    with np.errstate(divide='ignore'):
        lr = 20 * np.log10(r)
    for k in range(int(u[2])):
        a, n = int(u[4 + 3 * k]), int(u[5 + 3 * k])
        s = slice(a, min(a + n, gates))
        z, v, d, p, g = [float(t) for t in f[11 + 5 * k:16 + 5 * k]]
        out[0, s] = lr[s] + float(f[3]) + z - g - adj
        out[1, s] = lr[s] + float(f[4]) + v - g - adj
        out[2, s] = float(f[5]) + d
        t = float(f[6]) + p
        out[3, s] = t + 2 * np.pi if t < -np.pi else t - 2 * np.pi if t >= np.pi else t
    return out


def same_cal(got, want, what):
    for i, nm in enumerate(('H reflectivity', 'V reflectivity', 'ZDR', 'phase')):
        g, w = got[i].astype(float), want[i]
        ok = (g == w) | (np.abs(g - w) <= 2e-3) if i < 3 else np.abs((g - w + np.pi) % (2 * np.pi) - np.pi) <= 1e-4
        bad = np.argwhere(~ok)
        if len(bad):
            k = int(bad[0, 0])
            need(False, '%s: %s calibration of gate %d is %r, its filter gives %r', what, nm, k, float(g[k]), float(w[k]))


def strat():
    sweep = st.fixed_dictionaries({
        'cfg': st.integers(0, 2), 'scan': st.sampled_from(['ppi', 'ppi', 'rhi', 'other', 'index']), 'n': st.one_of(st.integers(1, 12), st.integers(5, 120)),
        'start': st.floats(0, 359.5, width=32), 'rate': st.sampled_from([0.0, 0.05, 0.11, 0.13, 0.2, 0.3, 0.5, 1.3]), 'el': st.floats(0, 60, width=32),
        'gates': st.floats(0.05, 1), 'begin': st.sampled_from([True, True, True, False]), 'end': st.sampled_from([True, True, True, False]),
        'stray': st.sampled_from([0, 0, 0, 1, 3]), 'compressed': st.sampled_from([True] * 7 + [False]), 'bin': st.sampled_from([4, 5, 11, 40])})
    return st.fixed_dictionaries({
        'blocks': st.integers(1, 3), 'ratio': st.sampled_from([1, 1, 2, 4]), 'cores': st.integers(1, 8), 'late': late(), 'exclude': st.booleans(),
        'raydepth': st.sampled_from([16, 24, 50]), 'deep': st.integers(0, 2), 'burst': st.sampled_from([1, 3, 20, 1000]),
        'sweeps': st.lists(sweep, min_size=1, max_size=6), 'stare': st.sampled_from([0] * 14 + [1990, 2003, 2400]), 'seed': st.integers(0, 2 ** 32)})


SCAN = {'ppi': 1 << 5, 'rhi': 2 << 5, 'other': 0, 'index': 1 << 5}


def run(L, c, ctx):
    rng = np.random.default_rng(c['seed'])
    rc = 16 * (1 if c['stare'] else c['blocks'])
    cap = rc * c['ratio']
    ncfg = 4
    F, U, scans = [], [], {}
    for k in range(ncfg):
        f, u = config(rng, rc)
        F.append(f)
        U.append(u)
    GS = np.float32(rng.uniform(10, 600, ncfg)).tolist()
    hu, hf, hd = [], [], []
    t = 1.6e9 + rng.random() * 1000
    sweeps = list(c['sweeps'])
    if c['stare']:
        sweeps = sweeps[:2] + [dict(sweeps[0], n=c['stare'], rate=0.0, scan='ppi', begin=True)]
    prev = None
    for si, s in enumerate(sweeps):
        ci = s['cfg'] if s['cfg'] not in scans or scans[s['cfg']] == SCAN[s['scan']] else 3
        mk = scans.setdefault(ci, SCAN[s['scan']])
        U[ci][0] = mk
        gates = max(1, int(s['gates'] * rc))
        gs = GS[ci]
        lay = (ci, gates, s['compressed'])
        begin = s['begin'] or prev is not None and prev[0] != lay
        raw = gates * c['ratio'] - int(rng.integers(0, c['ratio']))
        for j in range(s['n'] + s['stray']):
            a = (s['start'] + s['rate'] * j) % 360.0
            e = s['el']
            if mk == SCAN['rhi']:
                a, e = s['start'], min(179.0, s['el'] + s['rate'] * j)
            m = mk
            if j == 0 and begin:
                m |= B
            if j == s['n'] - 1 and (s['end'] or si == len(sweeps) - 1) and not (m & B):
                m |= E_
            if si == len(sweeps) - 1 and j >= s['n']:
                break
            pos = 0xffffffff if s['scan'] != 'index' else (1000 * si + j // s['bin'])
            hu.append([m, pos, ci, raw, gates, int(s['compressed'])])
            hf.append([a, e, gs])
            t += float(F[ci][0])
            hd.append(t)
        prev = (lay,)
    hu[-1][0] = (hu[-1][0] & ~B) | E_
    hu = np.array(hu, np.uint32)
    hf = np.array(hf, np.float32)
    hd = np.array(hd)
    n = len(hu)
    # ---- model of the gathering
    rays = []
    origin, count, i1 = 0, 0, None
    for k in range(n):
        m, pos, ci = int(hu[k, 0]), int(hu[k, 1]), int(hu[k, 2])
        if pos == 0xffffffff:
            a, e = int(np.floor(hf[k, 0])), int(np.floor(hf[k, 1]))
            pos = a if scans[ci] == SCAN['ppi'] else e if scans[ci] == SCAN['rhi'] else 360 * e + a
        if m & B:
            origin, count, i1 = k, 0, pos
        if i1 != pos or count == LIMIT - 1 or m & E_:
            i1 = pos
            if c['exclude'] and count > 0:
                if m & E_:
                    count += 1
                if count > 1:
                    count -= 1
            if count > 0:
                rays.append((origin, origin + count, k))
                origin, count = k, 0
        count += 1
    total = len(rays)
    assert all(e <= k for o, e, k in rays), rays
    gap = max([b[2] - a[2] for a, b in zip([(0, 0, 0)] + rays, rays)] + [rays[0][2] + 1 if rays else n])
    ends = [0] + [r[2] for r in rays]
    nc = c['cores'] + 1
    span = max([b - a for a, b in zip(ends, ends[nc:])] + [0])
    depth = 4 * max(gap, span, 8) + 16 + 37 * c['deep']
    e = np.array([r[2] for r in rays], int)
    half = c['raydepth'] // 2
    needed = np.array([max(0, int(np.sum(e <= k - depth // 2)), int(np.sum(e < k)) - half) for k in range(n)], np.uint32)
    x = aligned(n * 4 * rc, np.float32)
    X = x.reshape(n, 2, 2, rc)
    # coherent signal of differing strength per gate, plus noise
    amp = 10.0 ** rng.uniform(-1.2, 1.5, (2, rc))
    ph = rng.uniform(-np.pi, np.pi, (2, rc)) + np.arange(n)[:, None, None] * rng.uniform(-np.pi, np.pi, rc)
    X[:, :, 0] = amp * np.cos(ph) + 0.3 * rng.standard_normal((n, 2, rc))
    X[:, :, 1] = amp * np.sin(ph) + 0.3 * rng.standard_normal((n, 2, rc))
    ru = np.zeros((total, 6), np.uint32)
    rf = np.zeros((total, 7), np.float32)
    rd = np.zeros((total, 4))
    ry = aligned(max(1, total) * 19 * rc, np.float32)
    cals = aligned(max(1, total) * 4 * rc, np.float32)
    calls = np.zeros((max(1, total), 10), np.uint32)
    nc = ctypes.c_int(0)
    lam = float(np.float32(rng.choice([0.03, 0.1])))
    FF, UU = np.array(F, np.float32), np.array(U, np.uint32)
    slow(L, c)
    r = L.vt_moment_engine(cap, depth, c['ratio'], c['raydepth'], c['cores'], int(c['exclude']), ctypes.c_float(lam), ncfg, ptr(FF), ptr(UU), n, ptr(hu), ptr(hf), ptr(hd),
                           ptr(x), ptr(needed), total, c['burst'], ptr(ru), ptr(rf), ptr(rd), ptr(ry), ptr(calls), ctypes.byref(nc), ptr(cals))
    L.vt_sem_slow(0, 0, 1)
    need(r == 0, 'moment engine: %s (%d pulses, %d rays expected)', {1001: 'did not start', 1002: 'a ray never came out', 1004: 'rays dropped for an overload that is not there', 1003: 'more rays than the pulses make'}.get(r, r), n, total)
    Y = ry[:max(1, total) * 19 * rc].reshape(-1, 19, rc)
    byfirst = {}
    cf = calls.view(np.float32)
    for k in range(min(nc.value, total)):
        need(int(calls[k, 0]) not in byfirst, 'pulse %d starts two rays', int(calls[k, 0]))
        byfirst[int(calls[k, 0])] = k
    processed = 0
    C = cals[:max(1, total) * 4 * rc].reshape(-1, 4, rc)
    for q, (o, en, k) in enumerate(rays):
        name = 'ray %d (pulses %d..%d)' % (q, o, en)
        need(en - o + 1 <= LIMIT, 'model')
        ci = int(hu[en, 2])
        need(ru[q, 1] == q, '%s came out with identity %d', name, ru[q, 1])
        need(ru[q, 5] == en - o + 1, '%s: pulseCount %d', name, ru[q, 5])
        mk = int(np.bitwise_or.reduce(hu[o:en + 1, 0]))
        need(ru[q, 2] == mk, '%s: marker 0x%x, not 0x%x', name, ru[q, 2], mk)
        need(ru[q, 3] == ci, '%s: configuration %d, not %d', name, ru[q, 3], ci)
        need(ru[q, 4] == hu[en, 4], '%s: gate count %d, not %d', name, ru[q, 4], hu[en, 4])
        want = np.array([hf[en, 2] * np.float32(c['ratio']), F[ci][9], F[ci][10], hf[o, 0], hf[o, 1], hf[en, 0], hf[en, 1]])
        need(np.allclose(rf[q], want, rtol=1e-5), '%s: gate size, sweep and end angles %s, not %s', name, rf[q].tolist(), want.tolist())
        wt = np.array([hd[o], hd[en], hd[o], hd[en]])
        need(np.all(np.abs(rd[q] - wt) < 2e-6), '%s: times %s, not %s', name, rd[q].tolist(), wt.tolist())
        da = abs((float(hf[o, 0]) - float(hf[en, 0]) + 180) % 360 - 180)
        de = abs(float(hf[o, 1]) - float(hf[en, 1]))
        if abs(da - 3) < 1e-3 or abs(de - 3) < 1e-3:
            continue
        go = en - o + 1 > 3 and da < 3 and de < 3 and bool(hu[o, 5])
        st_ = int(ru[q, 0])
        need(st_ == (0x2 if go else 0x4) | 0x8 | 0x20, '%s: status 0x%x although it is %s', name, st_, 'to be processed' if go else 'to be skipped')
        if not go:
            need(np.all(np.isnan(Y[q])), '%s: a skipped ray with values', name)
            need(o not in byfirst, '%s: skipped, but processed', name)
            continue
        need(o in byfirst, '%s: marked processed, but its pulses never reached the processor', name)
        h = byfirst[o]
        gates = int(hu[en, 4])
        need(calls[h, 1] == en - o + 1 and calls[h, 3] == 1 and calls[h, 2] == gates, '%s: processed %d pulses from %d, in order %d, of %d gates', name, calls[h, 1], calls[h, 0], calls[h, 3], calls[h, 2])
        f = F[ci]
        vf = 0.25 * lam / float(f[0]) / np.pi
        wf = lam / float(f[0]) / (2 * np.sqrt(2) * np.pi)
        adj = 10 * np.log10(float(hf[en, 2]) / 150) + 60
        need(np.allclose(cf[h, 4:10], [f[1], f[2], vf, wf, hf[en, 2] * c['ratio'], adj], rtol=2e-5, atol=1e-5),
             '%s: noise h, v, velocity, width factor, gate size, sampling adjustment %s, not %s', name, cf[h, 4:10].tolist(), [f[1], f[2], vf, wf, hf[en, 2] * c['ratio'], adj])
        same_cal(C[h][:, :gates], calibration(f, U[ci], gates, hf[en, 2] * c['ratio'], adj), name)
        processed += 1
        if en - o > 300 or processed > 12 and q % 5:
            continue
        y = aligned(19 * rc, np.float32)
        ids = np.arange(o, en + 1, dtype=np.uint32)
        cal = aligned(4 * rc, np.float32)
        cal[:4 * rc] = C[h].ravel()
        fac = np.array([cf[h, 6], cf[h, 7]], np.float32)
        L.vt_ray_alone(rc, ptr(f), ptr(U[ci]), gates, len(ids), ptr(ids), ptr(x), ptr(cal), ptr(fac), ptr(y))
        y = y[:19 * rc].reshape(19, rc)
        for i in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 18):
            a, b = Y[q, i, :gates], y[i, :gates]
            bad = np.argwhere(~((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-3 * (1 + np.abs(b)))))
            need(len(bad) == 0, '%s: product %d gate %d is %r, the same pulses alone give %r', name, i, int(bad[0, 0]) if len(bad) else 0,
                 float(a[bad[0, 0]]) if len(bad) else 0, float(b[bad[0, 0]]) if len(bad) else 0)
    ctx.cls('pulses beyond one lap' if n > depth else 'one lap')
    ctx.cls('rays lapped' if total > c['raydepth'] else 'few rays')
    if c['stare']:
        ctx.cls('stare')
    if any(b[0] == a[1] for a, b in zip(rays, rays[1:])):
        ctx.cls('shared boundary pulse')
    return processed >= 2


SUBS = [Sub('engine', strat, run, 2400, 40000, hang=60)]
PROBES = {}
