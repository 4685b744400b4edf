"""Each moment processor returns the estimates its autocovariance formulas define, from this ray's pulses alone."""
import ctypes as C
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr

ID = 'C05'
RULE = ('processor (pulse pair, hop, ATSR, multi-lag 0..4, spectral) x gate counts x pulse counts x first pulse number x per-gate power, Doppler '
        'frequency, spread, inter-channel phase/correlation x noise, calibration arrays, with up to two other rays run through the same scratch '
        'space first; every product and moment is compared with a float64 evaluation where it is well conditioned; '
        'non-trivial = at least one gate with power above noise compared for every product; distinct by case content')
ASSUMPTIONS = ['4 or more pulses per ray, as the moment engine passes', 'KDP is marked "not ready" by the processors and not compared',
               'spectrum width of the spectral processor ("incomplete") is not compared', 'tolerance: float32 accumulation of n pulses, 12-bit reciprocals for correlation coefficients']
EPS = 2.0 ** -23
N_OUT = 35
NAMES = ['Zh', 'Zv', 'Vh', 'Vv', 'Wh', 'Wv', 'Qh', 'Qv', 'Sh', 'Sv', 'SNRh', 'SNRv', 'D', 'P', 'R', 'Lh', 'Lv', 'RXh', 'RXv', 'PXh', 'PXv',
         'mHi', 'mHq', 'mVi', 'mVq', 'vH', 'vV', 'HR0', 'VR0', 'HR1i', 'HR1q', 'VR1i', 'VR1q', 'HR2', 'VR2']
KINDS = ['pulse-pair', 'hop', 'atsr', 'multilag', 'spectral']


def strat():
    @st.composite
    def s(draw):
        cap = 16 * draw(st.integers(1, 8))
        rays = draw(st.integers(1, 3))
        kind = draw(st.sampled_from([0, 0, 1, 2, 3, 3, 4]))
        return {'cap': cap, 'kind': kind, 'lag': draw(st.integers(0, 4)) if kind == 3 else 0,
                'n': [draw(st.one_of(st.integers(4, 8), st.integers(4, 40), st.integers(30, 200))) for _ in range(rays)],
                'g': [draw(st.one_of(st.integers(1, cap), st.just(cap))) for _ in range(rays)],
                'i0': [draw(st.integers(0, 9)) for _ in range(rays)],
                'noise': [draw(st.sampled_from([1.0, 0.01, 100.0, 37.5])), draw(st.sampled_from([1.0, 0.02, 80.0]))],
                'va': draw(st.sampled_from([1.0, 5.5, 0.3])), 'wa': draw(st.sampled_from([1.0, 2.25])),
                'spread': draw(st.sampled_from([0.0, 0.1, 0.5, 2.0])), 'seed': draw(st.integers(0, 2 ** 32))}
    return s()


def signal(rng, n, g, cap, spread, noise):
    """2 x n x cap complex64 time series."""
    amp = 10 ** rng.uniform(-0.5, 4, g)
    f = rng.uniform(-np.pi, np.pi, g)
    t = np.arange(n)[:, None]
    ph = f * t + np.cumsum(rng.standard_normal((n, g)) * spread * rng.random(g), 0)
    am = 1 + 0.3 * rng.standard_normal((n, g)) * min(spread, 1)
    h = amp * am * np.exp(1j * ph)
    zdr = 10 ** rng.uniform(-0.3, 0.3, g)
    pdp = rng.uniform(-np.pi, np.pi, g)
    v = h * zdr * np.exp(-1j * pdp)
    cn = lambda: rng.standard_normal((n, g)) + 1j * rng.standard_normal((n, g))
    dec = rng.uniform(0, 0.3, g) * amp
    x = np.zeros((2, n, cap), np.complex64)
    x[0, :, :g] = h + cn() * dec * 0.3 + cn() * np.sqrt(noise[0] / 2)
    x[1, :, :g] = v + cn() * dec * 0.3 + cn() * np.sqrt(noise[1] / 2)
    x[:, :, g:] = (rng.standard_normal((2, n, cap - g)) + 1j).astype(np.complex64)
    return x


def wrap(a):
    return np.angle(np.exp(1j * a))


class Cmp:
    def __init__(self, out, g, kind):
        self.o, self.g, self.kind, self.count = out, g, kind, {}

    def __call__(self, name, ref, tol, ok, circ=None):
        got = self.o[NAMES.index(name), :self.g].astype(float)
        d = got - ref
        if circ:
            d = wrap(d / circ) * circ
        with np.errstate(invalid='ignore'):
            bad = np.where(ok & ~(np.abs(d) <= tol))[0]
        if len(bad):
            i = int(bad[0])
            need(False, '%s: %s of gate %d is %r, its definition gives %r (tolerance %.3g)', self.kind, name, i, float(got[i]), float(np.broadcast_to(ref, (self.g,))[i]), float(np.broadcast_to(tol, (self.g,))[i]))
        self.count[name] = int(np.sum(ok))


def run(L, c, ctx):
    rng = np.random.default_rng(c['seed'])
    cap, kind = c['cap'], c['kind']
    xs, bufs = [], []
    for n, g in zip(c['n'], c['g']):
        x = signal(rng, n, g, cap, c['spread'], c['noise'])
        xs.append(x)
        b = aligned(n * 4 * cap, np.float32)
        v = b.reshape(n, 2, 2, cap)
        v[:, :, 0] = x.real.transpose(1, 0, 2)
        v[:, :, 1] = x.imag.transpose(1, 0, 2)
        bufs.append(b)
    s2z = rng.uniform(-40, 40, 2 * cap).astype(np.float32)
    dcal = rng.uniform(-3, 3, cap).astype(np.float32)
    pcal = rng.uniform(-np.pi, np.pi * 0.999, cap).astype(np.float32)
    noise = np.array(c['noise'], np.float32)
    va, wa = np.float32(c['va']), np.float32(c['wa'])
    fac = np.array([va, wa, 0.004], np.float32)
    out = aligned(N_OUT * cap, np.float32)
    ia = lambda v: ptr(np.array(v, np.int32))
    an, ag, ai = [np.array(c[k], np.int32) for k in ('n', 'g', 'i0')]
    px = (C.c_void_p * len(bufs))(*[b.ctypes.data for b in bufs])
    r = L.vt_moment(cap, kind, c['lag'], len(bufs), ptr(an), ptr(ag), ptr(ai), px, ptr(noise), ptr(fac), ptr(s2z), ptr(dcal), ptr(pcal), ptr(out))
    need(r == 0, '%s: %s', KINDS[kind], 'changed the pulses' if r == -2 else 'did not report all pulses as used')
    n, g, i0 = c['n'][-1], c['g'][-1], c['i0'][-1]
    X = xs[-1][:, :, :g].astype(np.complex128)
    nz = noise.astype(float)
    D, P = dcal[:g].astype(float), pcal[:g].astype(float)
    s2 = s2z.reshape(2, cap)[:, :g].astype(float)
    cmp = Cmp(out.reshape(N_OUT, cap), g, KINDS[kind] + ('-%d' % c['lag'] if kind == 3 else ''))
    va, wa = float(va), float(wa)
    e = EPS * (n + 8)
    ev = X[:, (i0 % 2)::2]          # the even-numbered pulses
    with np.errstate(divide='ignore', invalid='ignore'):
        if kind in (0, 1, 2):
            if kind == 0:
                M, R0 = X.mean(1), (np.abs(X) ** 2).mean(1)
                R1 = (X[:, 1:] * X[:, :-1].conj()).mean(1)
                C0 = (X[0] * X[1].conj()).mean(0)
                R2 = np.abs((X[:, 2:] * X[:, :-2].conj()).mean(1))
                for p, q in enumerate('HV'):
                    cmp(q + 'R2', R2[p], e * R0[p], np.ones(g, bool))
            elif kind == 1:
                M, R0 = ev.mean(1), (np.abs(ev) ** 2).mean(1)
                a = i0 % 2
                k = (n - a) // 2
                prs = [(a + 2 * j + 1, a + 2 * j) for j in range((n - a) // 2)]
                R1 = np.mean([X[:, u] * X[:, w].conj() for u, w in prs], 0)
                C0 = (ev[0] * ev[1].conj()).mean(0)
            else:
                od = X[:, ((i0 + 1) % 2)::2]
                Hc, Vx, Hx, Vc = ev[0], ev[1], od[0], od[1]
                R0 = np.array([(np.abs(Hc) ** 2).mean(0), (np.abs(Vc) ** 2).mean(0)])
                RX = np.array([(np.abs(Hx) ** 2).mean(0), (np.abs(Vx) ** 2).mean(0)])
                R1 = np.array([(Hc[1:] * Hc[:-1].conj()).mean(0), (Vc[1:] * Vc[:-1].conj()).mean(0)])
                CX = np.array([(Hc * Vx.conj()).mean(0), (Vc * Hx.conj()).mean(0)])
                a = i0 % 2
                Ca = np.mean([X[0, j] * X[1, j + 1].conj() for j in range(a, n - 1, 2)], 0)
                Cb = np.mean([X[1, j - 1] * X[0, j].conj() for j in range(2 if a == 0 else 1, n, 2)], 0)
                M = None
            if M is not None:
                for p, q in enumerate('HV'):
                    cmp('m' + q + 'i', M[p].real, e * np.sqrt(R0[p]), np.ones(g, bool))
                    cmp('m' + q + 'q', M[p].imag, e * np.sqrt(R0[p]), np.ones(g, bool))
                    cmp('v' + q, R0[p] - np.abs(M[p]) ** 2, 4 * e * R0[p], np.ones(g, bool))
            if M is not None or kind == 2:
                for p, q in enumerate('HV'):
                    cmp(q + 'R0', R0[p], e * R0[p], np.ones(g, bool))
                    mag = R0[p] * 2 if kind == 1 else R0[p]
                    mg = np.maximum(mag, (np.abs(X[p]) ** 2).max(0))
                    cmp(q + 'R1i', R1[p].real, e * mg, np.ones(g, bool))
                    cmp(q + 'R1q', R1[p].imag, e * mg, np.ones(g, bool))
            vs = 0.5 if kind == 2 else 1.0
            S = np.maximum(0, R0 - nz[:, None])
            dS = e * R0 + EPS * nz[:, None]
            for p, q in enumerate('hv'):
                mg = (np.abs(X[p]) ** 2).max(0)
                a1 = np.abs(R1[p])
                ok = S[p] > 1e-3 * R0[p]
                cmp('S' + q, S[p], dS[p], np.ones(g, bool))
                cmp('SNR' + q, S[p] / nz[p], dS[p] / nz[p] * 1.01 + 4 * EPS * S[p] / nz[p], np.ones(g, bool))
                cmp('Q' + q, a1 / R0[p], 2 * e * mg / R0[p] + 4 * EPS, np.ones(g, bool))
                cmp('Z' + q, 10 * np.log10(S[p]) + s2[p], 4.4 * dS[p] / S[p] + 3e-5, ok)
                okr = a1 > 50 * e * mg
                cmp('V' + q, vs * va * np.angle(R1[p]), vs * va * (1.1 * e * mg / a1 + 2e-6), okr, circ=vs * va)
                lw = np.log(np.maximum(1, S[p] / a1))
                W2 = (vs * wa) ** 2 * lw
                tol = (1.1 * dS[p] / S[p] + 1.1 * e * mg / a1 + 1e-6)
                w = np.sqrt(W2)
                cmp('W' + q, w, vs * wa * np.minimum(np.sqrt(tol), tol / np.sqrt(np.maximum(lw, 1e-30))) + 1e-6 * w, ok & okr)
            both = (S > 1e-3 * R0).all(0)
            tD = 4.4 * (dS / S).sum(0) + 1e-4
            cmp('D', 10 * np.log10(S[0] / S[1]) + s2[0] - s2[1] + D, tD, both)
            if kind != 2:
                rho = np.abs(C0) / np.sqrt(R0[0] * R0[1])
                f = np.sqrt((1 + nz[0] / S[0]) * (1 + nz[1] / S[1]))
                cmp('R', rho * f, 1.2e-3 * rho * f + f * e * 2 + rho * f * 2 * (dS / S).sum(0), both)
                okc = rho > 100 * e
                cmp('P', wrap(np.angle(C0) + P), 2 * e / np.maximum(rho, 1e-9) + 2e-6, okc, circ=1.0)
            else:
                pk = [(np.abs(X[p]) ** 2).max(0) for p in (0, 1)]
                rr = np.sqrt(R0[0] * R0[1])
                pp = np.sqrt(pk[0] * pk[1])
                rho = (np.abs(Ca) + np.abs(Cb)) / 2 / rr
                cmp('R', rho, 1.2e-3 * rho + 3 * e * pp / rr, np.ones(g, bool))
                okc = (np.abs(Ca) > 100 * e * pp) & (np.abs(Cb) > 100 * e * pp)
                ref = 0.5 * np.angle(Ca * Cb.conj()) + P
                tp = 2 * e * pp * (1 / np.abs(Ca) + 1 / np.abs(Cb)) + 3e-6
                edge = np.abs(np.abs(np.angle(Ca * Cb.conj())) - np.pi) > 2 * tp
                cmp('P', ref, tp, okc & edge, circ=1.0)
                for p, q in enumerate('hv'):
                    lx = 10 * np.log10(RX[1 - p]) + s2[p] - (10 * np.log10(S[p]) + s2[p])
                    cmp('L' + q, lx, 4.4 * (dS[p] / S[p] + e) + 1e-4, S[p] > 1e-3 * R0[p])
                    den = np.sqrt(R0[0] * RX[1]) if p == 0 else np.sqrt(RX[0] * R0[1])
                    rx = np.abs(CX[p]) / den
                    cmp('RX' + q, rx, 1.2e-3 * rx + 3 * e, np.ones(g, bool))
                    cmp('PX' + q, np.angle(CX[p]), 2 * e * den / np.abs(CX[p]) + 2e-6, np.abs(CX[p]) > 100 * e * den, circ=1.0)
            nt = both.any()
        elif kind == 3:
            lag = min(c['lag'], n - 1)
            lc = min(n, 5) if lag == 0 else min(lag + 1, 5)
            R = np.array([[(X[p, k:] * X[p, :n - k].conj()).mean(0) for k in range(lc)] for p in (0, 1)])
            A = np.abs(R)
            mg = (np.abs(X) ** 2).max(1)
            M = X.mean(1)
            for p, h in enumerate('HV'):
                cmp('m' + h + 'i', M[p].real, e * np.sqrt(mg[p]), np.ones(g, bool))
                cmp('m' + h + 'q', M[p].imag, e * np.sqrt(mg[p]), np.ones(g, bool))
                cmp('v' + h, A[p, 0] - np.abs(M[p]) ** 2, 4 * e * mg[p], np.ones(g, bool))
            CC = []
            for k in range(-lc + 1, lc):
                if k < 0:
                    CC.append((X[0, :n + k] * X[1, -k:].conj()).mean(0))
                else:
                    CC.append((X[0, k:] * X[1, :n - k].conj()).mean(0))
            CC = np.array(CC)
            N = lc - 1
            kk = np.arange(-N, N + 1)
            w = (3.0 * N * N + 3 * N - 1 - 5 * kk * kk) * 3 / ((2 * N - 1) * (2 * N + 1) * (2 * N + 3)) if N else np.array([1.0])
            if N == 0:
                return False
            mx = np.sqrt(mg[0] * mg[1])
            gC = np.exp((w[:, None] * np.log(np.abs(CC))).sum(0))
            dl = (np.abs(w)[:, None] * (1.1 * e * mx / np.abs(CC) + 2e-6 * (1 + np.abs(np.log(np.abs(CC)))))).sum(0)
            okC = (np.abs(CC) > 0.02 * mx).all(0)
            q = [e * mg[p] / A[p].min(0) for p in (0, 1)]
            okA = (A > 0.02 * mg[:, None]).all((0, 1))
            rel = max(lc, 2) * 2 * np.maximum(q[0], q[1]) + 1e-5
            a = A
            if lag == 2:
                S = a[:, 1] ** (4 / 3) / a[:, 2] ** (1 / 3)
                num, den, ws = np.log(a[:, 1]), np.log(a[:, 2]), 1 / np.sqrt(3)
                rn = S
            elif lag == 3:
                S = a[:, 1] ** (6 / 7) * a[:, 2] ** (3 / 7) / a[:, 3] ** (2 / 7)
                num, den, ws = 11 * np.log(a[:, 1]) + 2 * np.log(a[:, 2]), 13 * np.log(a[:, 3]), 1 / (7 * np.sqrt(2))
                rn = S
            elif lag == 4:
                S = a[:, 1] ** (54 / 86) * a[:, 2] ** (39 / 86) * a[:, 3] ** (14 / 86) / a[:, 4] ** (21 / 86)
                num, den, ws = 13 * np.log(a[:, 1]) + 7 * np.log(a[:, 2]), 3 * np.log(a[:, 3]) + 17 * np.log(a[:, 4]), 1 / np.sqrt(258)
                rn = S
            else:
                S = a[:, 0] - nz[:, None]
                num, den, ws = np.log(S), np.log(a[:, 1]), 1.0
                rn = a[:, 0]
            dS = rel * np.maximum(np.abs(S), a[:, 0]) + EPS * nz[:, None]
            pos = (S > 1e-2 * a[:, 0]).all(0) & okA
            for p, h in enumerate('hv'):
                cmp('S' + h, S[p], dS[p], okA)
                cmp('SNR' + h, S[p] / nz[p], 1.1 * dS[p] / nz[p], okA)
                cmp('Q' + h, a[p, 1] / a[p, 0], 3 * e * mg[p] / a[p, 0] + 4 * EPS, a[p, 0] > 1e-3)
                cmp('Z' + h, 10 * np.log10(S[p]) + s2[p], 4.4 * dS[p] / S[p] + 1e-4, pos)
                cmp('V' + h, va * np.angle(R[p, 1]), va * (1.1 * e * mg[p] / a[p, 1] + 2e-6), okA, circ=va)
                df = num[p] - den[p]
                tol = 1.1 * dS[p] / S[p] + 40 * q[p] + 4 * EPS * (np.abs(num[p]) + np.abs(den[p]) + 1)
                df0 = np.maximum(df, 0)
                cmp('W' + h, wa * ws * np.sqrt(df0), wa * ws * np.minimum(np.sqrt(tol), tol / np.sqrt(np.maximum(df0, 1e-30))) + 1e-5 * wa * ws * np.sqrt(df0), pos)
            cmp('D', 10 * np.log10(S[0] / S[1]) + D, 4.4 * (dS / S).sum(0) + 1e-4, pos)
            cmp('R', gC / np.sqrt(rn[0] * rn[1]), gC / np.sqrt(rn[0] * rn[1]) * (2 * dl + 4 * rel + 1e-5), pos & okC)
            k0 = CC[N]
            cmp('P', np.angle(k0) + P, 1.5 * e * mx / np.abs(k0) + 3e-6, np.abs(k0) > 0.02 * mx, circ=1.0)
            nt = (pos & okC).any()
        else:
            size = 2 ** int(np.ceil(np.log2(np.float32(n) * np.float32(1.2))))
            F = np.fft.fft(X, size, axis=1)
            R0 = (np.abs(F) ** 2).sum(1) / (n * size)
            C0 = (F[0] * F[1].conj()).sum(0) / (n * size)
            S = R0 - nz[:, None]
            es = EPS * (size + 16)
            dS = es * R0 + EPS * nz[:, None]
            phi = 2 * np.pi * np.arange(size) / size
            Am = np.abs(F)
            om = (Am * np.exp(1j * phi)[None, :, None]).sum(1)
            ga = Am.sum(1)
            pos = (S > 1e-2 * R0).all(0)
            for p, h in enumerate('hv'):
                ok = S[p] > 1e-2 * R0[p]
                cmp('S' + h, S[p], dS[p], np.ones(g, bool))
                cmp('Z' + h, 10 * np.log10(S[p]) + s2[p], 4.4 * dS[p] / S[p] + 1e-4, ok)
                cmp('V' + h, va * np.angle(om[p]), va * (4 * es * ga[p] / np.abs(om[p]) + 1e-5), np.abs(om[p]) > 200 * es * ga[p], circ=va)
                cmp('Q' + h, np.minimum(1, S[p] / nz[p]), 1.1 * dS[p] / nz[p] + 4 * EPS, np.ones(g, bool))
            cmp('D', 10 * np.log10(S[0] / S[1]) + D, 4.4 * (dS / S).sum(0) + 1e-4, pos)
            rho = np.abs(C0) / np.sqrt(R0[0] * R0[1])
            cmp('R', rho, 4 * es + 1e-5, np.ones(g, bool))
            cmp('P', np.angle(C0) + P, 4 * es / rho + 3e-6, rho > 200 * es, circ=1.0)
            nt = pos.any()
    ctx.cls(cmp.kind)
    ctx.cls('scratch reused' if len(c['n']) > 1 else 'fresh scratch')
    return bool(nt)


SUBS = [Sub('processors', strat, run, 6000, 120000)]
PROBES = {}
