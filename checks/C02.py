"""Pulse compression is the matched-filter correlation, whatever the filters, gates and core count."""
import ctypes as C
import math
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr, data, late, slow

ID = 'C02'
RULE = ('compressor: one pulse x one filter anchor (length, input/output origin, maximum data length) x raw type; engine: histories of pulses '
        'with varying gate counts through the threaded engine x core count x filter groups/filters per group x earlier waveforms x '
        'down-sampling ratio; every gate whose filter window lies inside the received samples is compared with a float64 correlation; '
        'non-trivial = at least one such gate with non-zero filter and data; distinct by case content')
ASSUMPTIONS = ['gate count >= total filter length of the group and origins inside the pulse, as waveform set-up guarantees',
               'the producer never runs more than a quarter of the buffer ahead (no overload skipping)',
               'single precision: |error| <= 8 eps log2(N) |x||h|']
EPS = 2.0 ** -23
MF = 8


def corr(x, h):
    return np.correlate(x, h, 'valid') if len(x) >= len(h) else np.zeros(0, complex)


def strat_direct():
    @st.composite
    def s(draw):
        cap = 16 * draw(st.one_of(st.integers(1, 16), st.integers(1, 128)))
        gates = draw(st.one_of(st.just(cap), st.integers(1, cap)))
        L = draw(st.one_of(st.integers(1, min(gates, 40)), st.integers(1, gates)))
        inO = draw(st.one_of(st.just(0), st.integers(0, max(0, gates - L))))
        outO = draw(st.one_of(st.just(0), st.integers(0, gates - 1)))
        mdl = draw(st.one_of(st.just(262144), st.integers(1, gates), st.sampled_from([1, 2, gates - inO, max(1, gates - inO - L), max(1, gates - inO - L + 1)])))
        return {'cap': cap, 'gates': gates, 'L': L, 'inO': inO, 'outO': outO, 'mdl': max(1, mdl),
                'opt': draw(st.sampled_from([0, 0, 0, 1, 32, 33])), 'hk': draw(st.sampled_from(['normal', 'ramp', 'sparse'])),
                'seed': draw(st.integers(0, 2 ** 32))}
    return s()


def filt(rng, L, kind):
    h = (data(rng, L, kind) + 1j * data(rng, L, kind)).astype(np.complex64)
    if kind == 'ramp':
        h = h / np.float32(L)
    return h.astype(np.complex64)


def plan(gates, a):
    return int(math.ceil(math.log2(float(min(gates - a['inO'], a['mdl'] + a['L'])))))


def run_direct(Lb, c, ctx):
    rng = np.random.default_rng(c['seed'])
    cap, gates, L = c['cap'], c['gates'], c['L']
    h = filt(rng, L, c['hk'])
    if c['opt'] & 1:
        x = (data(rng, 2 * cap, 'normal') + 1j * data(rng, 2 * cap, 'normal')).astype(np.complex64)
        xs = x.reshape(2, cap).astype(complex)
    else:
        x = rng.integers(-32768, 32768, 4 * cap).astype(np.int16)
        v = x.reshape(2, cap, 2).astype(float)
        xs = v[..., 0] + 1j * v[..., 1]
    y = aligned(2 * cap, np.complex64)
    z = aligned(4 * cap, np.float32)
    a = np.array([0, 0, L, c['inO'], c['outO'], c['mdl']], np.uint32)
    r = Lb.vt_compress(cap, gates, c['opt'], ptr(a), ptr(h), plan(gates, c), ptr(x), ptr(y), ptr(z))
    need(r == 0, 'compressor damaged %s', 'memory behind the pulse' if r & 1 else 'the raw samples')
    Y = y.reshape(2, cap)
    Z = z.reshape(2, 2, cap)
    zc = Z[:, 0] + 1j * Z[:, 1]
    nout = min(gates - c['outO'], c['mdl'])
    nch = 1 if c['opt'] & 32 else 2
    nv = 0
    for p in range(nch):
        xi = xs[p, c['inO']:gates]
        ref = corr(xi, h.astype(complex))
        n = min(nout, len(ref))
        nv = max(nv, n)
        N = 2 ** plan(gates, c)
        tol = 8 * EPS * max(1, math.log2(N)) * np.linalg.norm(xi) * np.linalg.norm(h) + 1e-30
        got = Y[p, c['outO']:c['outO'] + n]
        if n:
            e = np.abs(got - ref[:n])
            i = int(np.argmax(e))
            need(e[i] <= tol and np.all(np.isfinite(e)), 'channel %d gate %d is %r, correlation gives %r (tolerance %g)', p, i + c['outO'], complex(got[i]), complex(ref[i]), tol)
        sl = slice(c['outO'], c['outO'] + nout)
        need(np.array_equal(Y[p, sl], zc[p, sl]), 'interleaved and split results differ in channel %d', p)
        out = np.ones(cap, bool)
        out[sl] = False
        if not c['opt'] & 1:
            need(np.all(Y[p][out] == np.complex64(-777 - 888j)) and np.all(zc[p][out] == np.complex64(-777 - 888j)),
                 'gates outside [%d, %d) were written', c['outO'], c['outO'] + nout)
    ctx.cls('in-origin' if c['inO'] else 'from-0')
    ctx.cls('L>1' if L > 1 else 'L=1')
    return nv > 0 and np.any(h != 0)


def strat_engine():
    @st.composite
    def wave(draw, cap, gmin):
        groups = draw(st.one_of(st.integers(1, 4), st.integers(1, 22)))
        nf = draw(st.integers(1, 3))
        fs = []
        depth = draw(st.integers(4, 60))
        vary = draw(st.booleans())
        base = None
        for g in range(groups):
            row = []
            n = draw(st.integers(1, nf)) if vary else nf
            if base is None or vary:
                for j in range(n):
                    L = draw(st.integers(1, min(depth, gmin // (nf + 1))))
                    o = draw(st.integers(0, depth - L))
                    inO = draw(st.one_of(st.just(0), st.integers(0, gmin // 4)))
                    outO = draw(st.one_of(st.just(0), st.integers(0, gmin // 2)))
                    mdl = draw(st.one_of(st.just(262144), st.integers(1, gmin)))
                    row.append([o, L, inO, outO, mdl])
                base = row
            fs.append(base)
        return {'depth': depth, 'f': fs, 'seed': draw(st.integers(0, 2 ** 32))}

    @st.composite
    def s(draw):
        cap = 16 * draw(st.integers(4, 40))
        gmin = draw(st.integers(20, cap))
        ws = draw(st.lists(st.one_of(st.none(), wave(cap, gmin), wave(cap, gmin)), min_size=1, max_size=3))
        return {'cap': cap, 'depth': draw(st.sampled_from([16, 24, 40, 100])), 'cores': draw(st.integers(1, 8)), 'late': draw(late()), 
                'ratio': draw(st.sampled_from([1, 1, 2, 3, 5, 16])), 'waves': ws, 'gmin': gmin,
                'n': draw(st.one_of(st.integers(1, 30), st.integers(30, 130))), 'opt': draw(st.sampled_from([0, 0, 0, 32])),
                'poll': draw(st.integers(1, 6)), 'seed': draw(st.integers(0, 2 ** 32))}
    return s()


def run_engine(Lb, c, ctx):
    rng = np.random.default_rng(c['seed'])
    cap, n = c['cap'], c['n']
    sets = []
    Lb.vt_waveform.restype = C.c_void_p
    models = []
    for w in c['waves']:
        if w is None:
            sets.append(None)
            models.append(None)
            continue
        r2 = np.random.default_rng(w['seed'])
        G, D = len(w['f']), w['depth']
        counts = np.array([len(r) for r in w['f']], np.uint32)
        an = np.zeros((G, MF, 6), np.uint32)
        for g, row in enumerate(w['f']):
            for j, f in enumerate(row):
                an[g, j] = [j] + f
        smp = np.stack([filt(r2, D, 'normal') for _ in range(G)])
        sets.append(Lb.vt_waveform(D, G, ptr(counts), ptr(an), ptr(np.ascontiguousarray(smp))))
        models.append((w, smp))
    arr = (C.c_void_p * len(sets))(*sets)
    gates = np.array([int(v) for v in rng.integers(c['gmin'], cap + 1, n)], np.uint32)
    x = rng.integers(-32768, 32768, n * 4 * cap).astype(np.int16)
    y = aligned(n * 2 * cap, np.complex64)
    z = aligned(n * 4 * cap, np.float32)
    hdr = np.zeros((n, 8), np.uint32)
    slow(Lb, c)
    r = Lb.vt_pulse_engine(cap, c['depth'], c['cores'], 1, 0, c['ratio'], len(sets), arr, n, ptr(gates), ptr(x), c['opt'], c['poll'],
                           ptr(y), ptr(z), ptr(hdr))
    Lb.vt_sem_slow(0, 0, 1)
    for s_ in sets:
        if s_:
            Lb.RKWaveformFree(C.c_void_p(s_))
    need(r < 1000, 'engine: %s', {1000: 'a valid waveform was refused', 1001: 'did not start', 1002: 'a pulse was never finished'}.get(r, r))
    need(r == 0, 'engine: %s', 'raw samples changed' if r & 2 else 'delivered a pulse that was never fed')
    Y = y.reshape(n, 2, cap)
    Z = z.reshape(n, 2, 2, cap)
    v = x.reshape(n, 2, cap, 2).astype(float)
    xs = v[..., 0] + 1j * v[..., 1]
    m = models[-1]
    if m is None:
        F, H = [[[0, 1, 0, 0, cap]]], np.ones((1, 1), complex)
    else:
        F, H = m[0]['f'], m[1].astype(complex)
    nv = 0
    for k in range(n):
        h = hdr[k]
        need(h[0] == k, 'pulse %d came out as number %d', h[0], k)
        g = k % len(F)
        row = F[g]
        blind = sum(f[1] for f in row)
        gc = int(gates[k]) + 1 - blind
        need(h[1] & 0x69 == 0x69 and not h[1] & 0x10, 'pulse %d finished with status 0x%x', k, h[1])
        need(h[2] == gc, 'pulse %d: %d gates with %d filter samples came out with %d gates, not %d', k, gates[k], blind, h[2], gc)
        ds = -(-gc // c['ratio'])
        need(h[3] == ds, 'pulse %d: %d gates decimated by %d are reported as %d', k, gc, c['ratio'], h[3])
        need(h[4] == blind, 'pulse %d: pulse width %d samples reported as %d', k, blind, h[4])
        for p in range(1 if c['opt'] & 32 else 2):
            ref = np.zeros(cap, complex)
            ok = np.zeros(cap, bool)
            tol = np.zeros(cap)
            G = int(gates[k])
            for f in row:
                o, L, inO, outO, mdl = f
                hh = H[g][o:o + L]
                xi = xs[k, p, inO:G]
                cc = corr(xi, hh)
                nout = min(G - outO, mdl)
                nn = min(nout, len(cc))
                ok[outO:outO + nout] = False
                ref[outO:outO + nn] = cc[:nn]
                ok[outO:outO + nn] = True
                tol[outO:outO + nn] = 8 * EPS * 11 * np.linalg.norm(xi) * np.linalg.norm(hh)
            if c['ratio'] > 1:
                idx = np.arange(ds) * c['ratio']
                ref, ok, tol = ref[idx], ok[idx], tol[idx]
            else:
                ref, ok, tol = ref[:gc], ok[:gc], tol[:gc]
            q = len(ref)
            got = Y[k, p, :q]
            e = np.where(ok, np.abs(got - ref), 0)
            bad = np.where(~(e <= tol))[0] if ok.any() else []
            if len(bad):
                i = int(bad[0])
                need(False, 'pulse %d channel %d gate %d is %r, the group-%d filters give %r', k, p, i, complex(got[i]), g, complex(ref[i]))
            zz = Z[k, p, 0, :q] + 1j * Z[k, p, 1, :q]
            need(np.array_equal(zz[ok], got[ok]), 'pulse %d channel %d: interleaved and split results differ', k, p)
            nv += int(ok.sum())
    ctx.cls('groups>8' if len(F) > 8 else 'groups<=8')
    ctx.cls('lapped' if n > c['depth'] else 'one lap')
    ctx.cls('rewaved' if len(sets) > 1 else 'single waveform')
    return nv > 0


SUBS = [Sub('compressor', strat_direct, run_direct, 6000, 120000),
        Sub('engine', strat_engine, run_engine, 480, 8000, hang=90, heavy=True)]
PROBES = {}
