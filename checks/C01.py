"""Vectorised arithmetic equals its scalar definition."""
import ctypes as C
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import IQZ, aligned, ptr, data, KINDS

ID = 'C01'
RULE = ('operation x length (0..4200, biased to +-9 around multiples of the vector width) x data kind x seed; '
        'compared element by element with a float64 reference, guard words behind every padded array; '
        'non-trivial = length > 0 with non-zero data; distinct by case content')
ASSUMPTIONS = ['arrays are 64-byte aligned and padded to the vector width with finite data, as RKIQZ buffers of the library are',
               'single-precision rounding: |error| <= 4 eps x sum of magnitudes of the terms']
EPS = 2.0 ** -23
GUARD = 32
W = 16  # guard granularity: no vector unit in use is wider than 64 bytes


def z(rng, n, kind):
    cap = -(-n // W) * W + GUARD
    a = aligned(cap, np.float32)
    b = aligned(cap, np.float32)
    a[:n] = data(rng, n, kind)
    b[:n] = data(rng, n, kind)
    for v in (a, b):
        v[n:cap - GUARD] = 1.0
        v[cap - GUARD:] = 12345.0
    return a, b


def iqz(p):
    return C.byref(IQZ(p[0].ctypes.data, p[1].ctypes.data))


def f1(rng, n, kind):
    cap = -(-n // W) * W + GUARD
    a = aligned(cap, np.float32)
    a[:n] = data(rng, n, kind)
    a[n:cap - GUARD] = 1.0
    a[cap - GUARD:] = 12345.0
    return a


def y(rng, n, kind):
    return f1(rng, 2 * n, kind)


def cx(a, n):
    return a[0:2 * n:2].astype(np.float64) + 1j * a[1:2 * n:2].astype(np.float64)


def zc(p, n):
    return p[0][:n].astype(np.float64) + 1j * p[1][:n].astype(np.float64)


def close(name, n, got, ref, mag, k=4):
    if n == 0:
        return
    err = np.maximum(np.abs((got - ref).real), np.abs((got - ref).imag))
    tol = k * EPS * mag + 1e-37
    bad = np.where(~(err <= tol))[0]
    if bad.size:
        i = int(bad[0])
        need(False, '%s n=%d: element %d is %r, scalar definition gives %r', name, n, i, got[i], ref[i])


ZOPS = ['zcpy', 'zadd', 'zsub', 'zmul', 'zmulc', 'zsmul', 'zsmulc', 'izadd', 'izsub', 'izmul', 'izmulc', 'zcma', 'zcmac',
        'szcma', 'csz', 'zscl', 'izscl', 'zabs', 'izrmrm']
YOPS = ['iymul', 'iymulc', 'iymul2', 'iymul2c', 'iymul_reg', 'iyconj', 'iyscl', 'z2y', 'y2z', 'int2y',
        'a_conj', 'a_add', 'a_sub', 'a_mul', 'a_cmul', 'a_ysum', 'a_sum', 'ysum', 'sum']
FOPS = ['mul', 'ssadd', 'subc']


def lengths():
    return st.one_of(st.integers(0, 40), st.builds(lambda k, d: max(0, 16 * k + d), st.integers(0, 255), st.integers(-9, 9)),
                     st.integers(0, 4200))


def strat():
    return st.fixed_dictionaries({'op': st.sampled_from(ZOPS + YOPS + FOPS), 'n': lengths(), 'kind': st.sampled_from(KINDS),
                                  'f': st.sampled_from([0.0, 1.0, -1.0, 0.5, -3.25, 1e-3, 7.0]), 'seed': st.integers(0, 2 ** 32)})


def run(L, c, ctx):
    op, n, kind = c['op'], c['n'], c['kind']
    rng = np.random.default_rng(c['seed'])
    f = float(np.float32(c['f']))
    ctx.cls('tail' if n % 8 else 'whole')
    if op in ZOPS:
        a, b, d = z(rng, n, kind), z(rng, n, kind), z(rng, n, kind)
        A, B, D = zc(a, n), zc(b, n), zc(d, n)
        w = f1(rng, n, kind)
        Wt = w[:n].astype(np.float64)
        o = f1(rng, n, kind)
        a0, b0, w0 = [v.copy() for v in a], [v.copy() for v in b], w.copy()
        inplace_src = False
        cf = C.c_float(f)
        ma, mb, md = np.abs(A), np.abs(B), np.abs(D)
        got = None
        if op == 'zcpy':
            L.RKSIMD_zcpy(iqz(a), iqz(d), n); ref, mag = A, 0 * ma
        elif op == 'zadd':
            L.RKSIMD_zadd(iqz(a), iqz(b), iqz(d), n); ref, mag = A + B, ma + mb
        elif op == 'zsub':
            L.RKSIMD_zsub(iqz(a), iqz(b), iqz(d), n); ref, mag = A - B, ma + mb
        elif op == 'zmul':
            L.RKSIMD_zmul(iqz(a), iqz(b), iqz(d), n, C.c_bool(False)); ref, mag = A * B, ma * mb
        elif op == 'zmulc':
            L.RKSIMD_zmul(iqz(a), iqz(b), iqz(d), n, C.c_bool(True)); ref, mag = A * B.conj(), ma * mb
        elif op == 'zsmul':
            L.RKSIMD_zsmul(iqz(a), iqz(d), n, C.c_bool(False)); ref, mag = A * A, ma * ma
        elif op == 'zsmulc':
            L.RKSIMD_zsmul(iqz(a), iqz(d), n, C.c_bool(True)); ref, mag = A * A.conj(), ma * ma
        elif op == 'izadd':
            L.RKSIMD_izadd(iqz(a), iqz(d), n); ref, mag = D + A, md + ma
        elif op == 'izsub':
            L.RKSIMD_izsub(iqz(a), iqz(d), n); ref, mag = D - A, md + ma
        elif op == 'izmul':
            L.RKSIMD_izmul(iqz(a), iqz(d), n, C.c_bool(False)); ref, mag = D * A, md * ma
        elif op == 'izmulc':
            L.RKSIMD_izmul(iqz(a), iqz(d), n, C.c_bool(True)); ref, mag = D * A.conj(), md * ma
        elif op == 'zcma':
            L.RKSIMD_zcma(iqz(a), iqz(b), iqz(d), n, C.c_bool(False)); ref, mag = D + A * B, md + ma * mb
        elif op == 'zcmac':
            L.RKSIMD_zcma(iqz(a), iqz(b), iqz(d), n, C.c_bool(True)); ref, mag = D + A * B.conj(), md + ma * mb
        elif op == 'szcma':
            L.RKSIMD_szcma(ptr(w), iqz(b), iqz(d), n); ref, mag = D + Wt * B, md + np.abs(Wt) * mb
        elif op == 'csz':
            L.RKSIMD_csz(cf, iqz(a), iqz(d), n); ref, mag = D + f * A, md + abs(f) * ma
        elif op == 'zscl':
            L.RKSIMD_zscl(iqz(a), cf, iqz(d), n); ref, mag = f * A, abs(f) * ma
        elif op == 'izscl':
            L.RKSIMD_izscl(iqz(d), cf, n); ref, mag = f * D, abs(f) * md
        elif op == 'zabs':
            L.RKSIMD_zabs(iqz(a), ptr(o), n); ref, mag = np.abs(A), ma; got = o[:n].astype(np.float64)
            if kind == 'wide':
                mag = mag + 1e-19 / (4 * EPS)   # squares underflow
        elif op == 'izrmrm':
            # normalise C(0), then |C(0)| / sqrt(Rh Rv)
            x1, x2 = f1(rng, n, 'normal'), f1(rng, n, 'normal')
            x1[:n] = np.abs(x1[:n]) + 0.1
            x2[:n] = np.abs(x2[:n]) + 0.1
            L.RKSIMD_izrmrm(iqz(d), ptr(o), ptr(x1), ptr(x2), cf, n)
            ref = np.abs(f * D) / np.sqrt(x1[:n].astype(np.float64) * x2[:n])
            got = o[:n].astype(np.float64)
            if n:
                need(np.all(np.abs(got - ref) <= 1e-3 * ref + 1e-18), 'izrmrm n=%d: correlation coefficient off: %r', n, np.max(np.abs(got - ref)))
            got, ref, mag = zc(d, n), f * D, abs(f) * md
        if got is None:
            got = zc(d, n)
        close(op, n, got, ref, mag, 6)
        for v, v0 in ((a, a0), (b, b0)):
            need(np.array_equal(v[0], v0[0]) and np.array_equal(v[1], v0[1]), '%s n=%d changed a source operand', op, n)
        need(np.array_equal(w, w0), '%s n=%d changed a source operand', op, n)
        for v in (d[0], d[1], o):
            need(np.all(v[-GUARD:] == 12345.0), '%s n=%d wrote behind the padded array', op, n)
    elif op in FOPS:
        a, b, o = f1(rng, n, kind), f1(rng, n, kind), f1(rng, n, kind)
        A, B = a[:n].astype(np.float64), b[:n].astype(np.float64)
        if op == 'mul':
            L.RKSIMD_mul(ptr(a), ptr(b), ptr(o), n); ref, mag = A * B, np.abs(A * B)
        elif op == 'ssadd':
            L.RKSIMD_ssadd(ptr(a), C.c_float(f), ptr(o), n); ref, mag = A + f, np.abs(A) + abs(f)
        else:
            L.RKSIMD_subc(ptr(a), C.c_float(f), ptr(o), n); ref, mag = A - f, np.abs(A) + abs(f)
        close(op, n, o[:n].astype(np.float64), ref, mag)
        need(np.all(o[-GUARD:] == 12345.0), '%s n=%d wrote behind the padded array', op, n)
    else:
        a, d = y(rng, n, kind), y(rng, n, kind)
        A, D = cx(a, n), cx(d, n)
        a0 = a.copy()
        m = np.abs(A) * np.abs(D)
        got, k = None, 6
        if op == 'iymul':
            L.RKSIMD_iymul(ptr(a), ptr(d), n); ref = A * D
        elif op == 'iymulc':
            L.RKSIMD_iymulc(ptr(a), ptr(d), n); ref = A * D.conj()
        elif op == 'iymul2':
            L.RKSIMD_iymul2(ptr(a), ptr(d), n, C.c_bool(False)); ref = A * D
        elif op == 'iymul2c':
            L.RKSIMD_iymul2(ptr(a), ptr(d), n, C.c_bool(True)); ref = A * D.conj()
        elif op == 'iymul_reg':
            L.RKSIMD_iymul_reg(ptr(a), ptr(d), n); ref = A * D
        elif op == 'iyconj':
            L.RKSIMD_iyconj(ptr(d), n); ref, m = D.conj(), 0 * m
        elif op == 'iyscl':
            L.RKSIMD_iyscl(ptr(d), C.c_float(f), n); ref, m = D * f, np.abs(D) * abs(f)
        elif op == 'z2y':
            s = z(rng, n, kind)
            L.RKSIMD_IQZ2Complex(iqz(s), ptr(d), n); ref, m = zc(s, n), 0 * m
        elif op == 'y2z':
            t = z(rng, n, kind)
            L.RKSIMD_Complex2IQZ(ptr(a), iqz(t), n); ref, m = A, 0 * m; got = zc(t, n)
            need(np.all(t[0][-GUARD:] == 12345.0) and np.all(t[1][-GUARD:] == 12345.0), '%s n=%d wrote behind', op, n)
        elif op == 'int2y':
            s = aligned(2 * n + 2, np.int16)
            s[:] = rng.integers(-32768, 32768, 2 * n + 2)
            L.RKSIMD_Int2Complex(ptr(s), ptr(d), n); ref, m = s[0:2 * n:2] + 1j * s[1:2 * n:2].astype(np.float64), 0 * m
        elif op == 'a_conj':
            L.RKComplexArrayInConjugate(ptr(d), n); ref, m = D.conj(), 0 * m
        elif op == 'a_add':
            L.RKComplexArrayInPlaceAdd(ptr(a), ptr(d), n); ref, m = A + D, np.abs(A) + np.abs(D)
        elif op == 'a_sub':
            L.RKComplexArrayInPlaceSubtract(ptr(a), ptr(d), n); ref, m = A - D, np.abs(A) + np.abs(D)
        elif op == 'a_mul':
            L.RKComplexArrayInPlaceMultiply(ptr(a), ptr(d), n); ref = A * D
        elif op == 'a_cmul':
            L.RKComplexArrayInPlaceConjugateMultiply(ptr(a), ptr(d), n); ref = A * D.conj()
        else:
            class CF(C.Structure):
                _fields_ = [('i', C.c_float), ('q', C.c_float)]
            a[2 * n:-GUARD] = 0
            if op in ('sum', 'a_sum'):
                fn = L.RKSIMD_sum if op == 'sum' else L.RKFloatArraySum
                fn.restype = C.c_float
                got = np.array([fn(ptr(a), 2 * n)], np.float64)
                ref = np.array([a[:2 * n].astype(np.float64).sum()])
                m = np.array([np.abs(a[:2 * n].astype(np.float64)).sum()])
            else:
                fn = L.RKSIMD_ysum if op == 'ysum' else L.RKComplexArraySum
                fn.restype = CF
                r = fn(ptr(a), n)
                got = np.array([r.i + 1j * r.q])
                ref = np.array([A.sum()])
                m = np.array([np.abs(A).sum()])
            close(op, 1, got, ref, m, 4 + n)
            return n > 0
        if got is None:
            got = cx(d, n)
        close(op, n, got, ref, m, k)
        need(np.array_equal(a, a0), '%s n=%d changed the source operand', op, n)
        need(np.all(d[-GUARD:] == 12345.0), '%s n=%d wrote behind the padded array', op, n)
    return n > 0


SUBS = [Sub('array-ops', strat, run, 24000, 400000)]
PROBES = {}
