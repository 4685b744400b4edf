"""Waveforms: what a description asks for is what the samples, filters, gains and files hold."""
import ctypes as C
import os
import shutil
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from vt.num import aligned, ptr

ID = 'C12'
RULE = ('waveforms of a kind (tone, chirp, hops, hopping chirps, multiplexed, samples) with random rates, carriers, bandwidths and depths, put through a random sequence of conjugate, decimate, window, append, down-convert, copy, files; '
        'damaged wave files; non-trivial = more than one sample and an operation or more than one group; distinct by case content')
ASSUMPTIONS = ['bandwidths are not negative and at most 11 frequencies are asked for, as a waveform holds 22 groups', 'waveforms have energy in each filter', 'a carrier and its bandwidth need not be below the Nyquist frequency']
F = np.float32
AMP = 32000.0
MAXGATE = 262144
COMPLEX, TONE, HOPS, LFM, TFM, CHIRPS = 1, 2, 4, 8, 16, 128
AN = np.dtype([('name', '<u4'), ('origin', '<u4'), ('length', '<u4'), ('inputOrigin', '<u4'), ('outputOrigin', '<u4'), ('maxDataLength', '<u4'), ('sub', '<f4'), ('sens', '<f4'), ('gain', '<f4'), ('full', '<f4'), ('lo', '<f4'), ('hi', '<f4'), ('pad', 'V16')])
WINDOWS = ['box', 'hann', 'hamming', 'kaiser', 'tukey', 'trapezoid']


def setup(L):
    for f in ('RKWaveformInitAsSingleTone', 'RKWaveformInitAsLinearFrequencyModulation', 'RKWaveformInitAsFrequencyHops', 'RKWaveformInitAsFrequencyHoppingChirp', 'RKWaveformInitAsTimeFrequencyMultiplexing', 'RKWaveformInitFromSampleArrays',
              'RKWaveformInitFromSamples', 'RKWaveformInitAsImpulse', 'RKWaveformInitAsFakeTimeFrequencyMultiplexing', 'RKWaveformCopy', 'RKWaveformInitFromFile'):
        getattr(L, f).restype = C.c_void_p
    L.vt_show_color(0)


D = C.c_double


class Snap:
    """What a waveform says."""
    def __init__(self, L, w):
        o = np.zeros(27)
        L.vt_wave_info(C.c_void_p(w), ptr(o))
        self.type, self.count, self.depth = int(o[0]), int(o[1]), int(o[2])
        self.fc, self.fs = o[3], o[4]
        need(0 < self.count <= 22, 'a waveform of %d groups', self.count)
        self.filters = [int(v) for v in o[5:5 + self.count]]
        name = C.create_string_buffer(128)
        a = np.zeros(22 * 8, AN)
        x = aligned(2 * self.count * self.depth, F)
        i = aligned(2 * self.count * self.depth, np.int16)
        L.vt_wave_get(C.c_void_p(w), name, ptr(a), ptr(x), ptr(i))
        self.name = name.raw.split(b'\0')[0].decode('latin1')
        self.a = a.reshape(22, 8)
        x = x.reshape(self.count, self.depth, 2).astype(float)
        self.x = x[:, :, 0] + 1j * x[:, :, 1]
        self.i = i.reshape(self.count, self.depth, 2).astype(int)

    def each(self):
        for k in range(self.count):
            for j in range(self.filters[k]):
                q = self.a[k][j]
                yield k, j, q, slice(int(q['origin']), int(q['origin']) + int(q['length']))


def gains(s, sens=True, full=True, what=''):
    """The gains are those of the samples."""
    for k, j, q, r in s.each():
        x = s.x[k][r]
        if s.type & COMPLEX:
            e, p = (abs(x) ** 2).sum(), abs(x).max()
            h = p * p
        else:
            e, p = 2 * (x.real ** 2).sum(), abs(x.real).max()
            h = p * p
        if not 1e-25 < h < 1e25:
            continue
        need(abs(q['gain'] - 10 * np.log10(e)) < 2e-3, '%s: gain of filter %d/%d is %g dB, not %g', what, k, j, q['gain'], 10 * np.log10(e))
        if full:
            need(abs(q['full'] * p / AMP - 1) < 1e-4, '%s: full scale of filter %d/%d is %g, with a peak of %g', what, k, j, q['full'], p)
        if sens:
            v = 10 * np.log10(e / (h * 1e-6 * s.fs))
            need(abs(q['sens'] - v) < 2e-3, '%s: sensitivity gain of filter %d/%d is %g dB, not %g', what, k, j, q['sens'], v)


def same(a, b, what, skip=()):
    need((a.type, a.count, a.depth, a.fc, a.fs, a.filters) == (b.type, b.count, b.depth, b.fc, b.fs, b.filters), '%s: %s became %s', what, (a.type, a.count, a.depth, a.fc, a.fs, a.filters), (b.type, b.count, b.depth, b.fc, b.fs, b.filters))
    need(a.name == b.name, '%s: name %r became %r', what, a.name, b.name)
    need(np.array_equal(a.x, b.x) and np.array_equal(a.i, b.i), '%s: samples changed', what)
    for k, j, q, _ in a.each():
        for n in AN.names[:-1]:
            if n not in skip:
                need(q[n] == b.a[k][j][n] or (np.isnan(q[n]) and np.isnan(b.a[k][j][n])), '%s: %s of filter %d/%d: %s became %s', what, n, k, j, q[n], b.a[k][j][n])


def tone(n, fs, f):
    return 2 * np.pi * f / fs * (np.arange(n) - n // 2)


def chirp(n, fs, f, bw):
    """Phase of a sweep from f to f + bw over n samples, 0 at the middle."""
    i = np.arange(n)
    om, ka = 2 * np.pi * f / fs, 2 * np.pi * bw / n / fs
    m = n // 2
    return om * (i - m) + 0.5 * ka * (i * i - float(m) * m)


def near(s, k, phase, r, what, window=None, tol=None):
    """Samples of a filter have this phase, and unit energy."""
    n = len(phase)
    w = np.ones(n) if window is None else window
    x = np.exp(1j * phase) * w
    x = x / np.sqrt((w * w).sum())
    m = abs(phase).max() * 1.3e-7 + 2e-5 if tol is None else tol
    d = abs(s.x[k][r] - x)
    need((d <= m * abs(x).max()).all(), '%s: sample %d of group %d is %s, not %s', what, int(d.argmax()), k, s.x[k][r][d.argmax()], x[d.argmax()])
    z = np.rint(AMP * np.exp(1j * phase).view(float)).reshape(-1, 2)
    if window is not None:
        z = z * w[:, None]
    e = abs(s.i[k][r] - z).max()
    need(e <= AMP * m + 1.01, '%s: 16-bit samples of group %d are off by %g', what, k, e)


def anchor(q, what, **kw):
    for n, v in kw.items():
        if isinstance(v, float):
            need(abs(q[n] - v) <= 1e-5 * abs(v) + 1e-6, '%s: %s is %g, not %g', what, n, q[n], v)
        else:
            need(q[n] == v, '%s: %s is %s, not %s', what, n, q[n], v)


def window(kind, n, p):
    """Independent windows."""
    i = np.arange(n, dtype=float)
    if kind == 'box' or (n == 1 and kind in ('hamming', 'kaiser', 'hann')):
        return np.ones(n)
    if kind == 'hann':
        return 0.5 * (1 - np.cos(2 * np.pi * (i + 1) / (n + 1)))
    if kind == 'hamming':
        return 0.54 - 0.46 * np.cos(2 * np.pi * i / (n - 1))
    if kind == 'kaiser':
        return np.i0(p * np.sqrt(np.maximum(0, 1 - (2 * i / (n - 1) - 1) ** 2))) / np.i0(p)
    if kind == 'trapezoid':
        a, b = (p, 1.0) if p >= 0 else (1.0, abs(p))
        return np.linspace(a, b, n) if n > 1 else np.array([a])
    if p <= 0 or n == 1:
        return np.ones(n)
    if p >= 1:
        return 0.5 * (1 - np.cos(2 * np.pi * (i + 1) / (n + 1)))
    t = i / (n - 1)
    t = np.minimum(t, 1 - t)
    return np.where(t < p / 2, 0.5 * (1 + np.cos(2 * np.pi / p * (t - p / 2))), 1.0)


def make(L, c):
    """The waveform of a case, checked against its description."""
    kind, n, fs, fc, bw, hops = c['kind'], c['n'], c['fs'], c['fc'] * c['fs'], c['bw'] * c['fs'], c['hops']
    if kind == 'tfm':
        # A taper over two samples leaves nothing
        n = max(n, 3)
    pw = n / fs
    if kind == 'tone':
        w = L.RKWaveformInitAsSingleTone(D(fs), D(fc), D(pw))
    elif kind == 'lfm':
        w = L.RKWaveformInitAsLinearFrequencyModulation(D(fs), D(fc), D(pw), D(bw))
    elif kind == 'hops':
        w = L.RKWaveformInitAsFrequencyHops(D(fs), D(fc), D(pw), D(bw), hops)
    elif kind == 'chirps':
        w = L.RKWaveformInitAsFrequencyHoppingChirp(D(fs), D(fc), D(bw), D(pw), hops)
    elif kind == 'tfm':
        w = L.RKWaveformInitAsTimeFrequencyMultiplexing(D(fs), D(fc), D(bw), D(pw))
    elif kind == 'impulse':
        w = L.RKWaveformInitAsImpulse()
    elif kind == 'fake':
        w = L.RKWaveformInitAsFakeTimeFrequencyMultiplexing()
    else:
        r = np.random.default_rng(c['seed'])
        x = r.standard_normal((hops, n, 2)) * 10.0 ** r.uniform(-2, 3.5)
        x[:, :, 0] += 1e-3
        x = np.clip(x, -32000, 32000).astype(F)
        rows = [np.ascontiguousarray(x[k]) for k in range(hops)]
        p = (C.c_void_p * hops)(*[v.ctypes.data for v in rows])
        w = L.RKWaveformInitFromSampleArrays(p, C.c_uint8(hops), C.c_uint32(n), c['name'].encode() if c['name'] else None)
    need(w is not None, 'no waveform')
    s = Snap(L, w)
    try:
        inspect(L, c, s, kind, n, fs, fc, bw, hops, locals().get('x'))
    except BaseException:
        L.RKWaveformFree(C.c_void_p(w))
        raise
    return w, s


def inspect(L, c, s, kind, n, fs, fc, bw, hops, x):
    what = kind
    if kind == 'impulse':
        need((s.count, s.depth, s.filters) == (1, 1, [1]) and s.x[0][0] == 1, 'impulse of %d samples', s.depth)
        gains(s)
        return
    if kind == 'samples':
        count = min(hops, 22)
        need((s.count, s.depth, s.fs, s.fc, s.type) == (count, n, 1.0, 0.0, COMPLEX), 'samples became %s', (s.count, s.depth, s.fs, s.fc, s.type))
        need(s.name == (c['name'] or 'custom')[:127], 'name %r', s.name)
        need(np.array_equal(s.x, x[:count, :, 0].astype(float) + 1j * x[:count, :, 1]), 'samples differ')
        need(np.array_equal(s.i, np.trunc(x[:count].astype(float))), '16-bit samples differ')
        for k, j, q, _ in s.each():
            anchor(q, what, name=0, origin=0, length=n, inputOrigin=0, outputOrigin=0, maxDataLength=MAXGATE, sub=0.0)
        need(s.filters == [1] * count, 'filters %s', s.filters)
        gains(s)
        return
    if kind == 'fake':
        need(s.filters == [2] and s.type == COMPLEX | TFM, 'multiplexed waveform has %s filters', s.filters)
        gains(s)
        for k, j, q, r in s.each():
            need(abs(q['gain']) < 1e-3, 'gain %g dB', q['gain'])
        return
    need((s.fs, s.fc) == (fs, fc), 'rate %s, carrier %s', s.fs, s.fc)
    if kind in ('tone', 'lfm'):
        b = bw if kind == 'lfm' else 0.0
        need(s.type == COMPLEX | (LFM if b > 0 else TONE), 'type 0x%x', s.type)
        need((s.count, s.depth, s.filters) == (1, n, [1]), 'shape %s', (s.count, s.depth, s.filters))
        near(s, 0, chirp(n, fs, fc, b), slice(0, n), what)
        anchor(s.a[0][0], what, name=0, origin=0, length=n, inputOrigin=0, outputOrigin=0, maxDataLength=MAXGATE - n, sub=2 * np.pi * (fc + 0.5 * b) / fs)
        stem = 'q%02.0f' % (1e-6 * b) if b > 0 else 't%02.0f' % (1e-6 * fc) if fc > 0 else 's'
        need(s.name.startswith(stem), 'name %r of %s', s.name, stem)
    elif kind in ('hops', 'chirps'):
        need(s.type == COMPLEX | (HOPS if kind == 'hops' else CHIRPS), 'type 0x%x', s.type)
        need(s.count == (1 if hops == 1 else 2 * hops) and s.depth == n and s.filters == [1] * s.count, 'shape %s', (s.count, s.depth, s.filters))
        order = [int(s.a[k][0]['name']) for k in range(s.count)]
        if hops > 1:
            need(order[::2] == order[1::2], 'hops %s are not in pairs', order)
            need(sorted(order[::2]) == list(range(hops)), 'hops %s do not visit each frequency once', order)
        for k, j in enumerate(order):
            if kind == 'hops':
                f = fc + (bw / (hops - 1) * (j - (hops - 1) / 2) if hops > 1 else 0.0)
                near(s, k, tone(n, fs, f), slice(0, n), what)
                anchor(s.a[k][0], what, origin=0, length=n, inputOrigin=0, outputOrigin=0, maxDataLength=MAXGATE, sub=2 * np.pi * f / fs)
            else:
                f = fc - 0.5 * bw + j * bw / hops
                near(s, k, chirp(n, fs, f, bw / hops), slice(0, n), what, tol=1e-4)
                anchor(s.a[k][0], what, origin=0, length=n, inputOrigin=0, outputOrigin=0, maxDataLength=MAXGATE)
                for field, v in (('lo', f), ('hi', f + bw / hops)):
                    need(abs(s.a[k][0][field] - v) <= 1e-6 * fs, '%s: bound %s is %g, not %g', what, field, s.a[k][0][field], v)
        need(s.name.startswith('%s%02.0f%02d' % ('h' if kind == 'hops' else 'k', 1e-6 * bw, hops)), 'name %r', s.name)
    else:
        m = int(np.round(2e-6 * fs))
        need((s.count, s.depth, s.filters) == (1, n + m, [2]), 'shape %s of %d + %d samples', (s.count, s.depth, s.filters), n, m)
        need(s.type == COMPLEX | TFM | (LFM if bw > 0 else TONE) and s.name == 'tfm', 'type 0x%x, name %r', s.type, s.name)
        near(s, 0, chirp(n, fs, fc, 0.5 * bw), slice(0, n), what, window('tukey', n, 0.05), tol=2e-4 + abs(chirp(n, fs, fc, 0.5 * bw)).max() * 1.3e-7)
        near(s, 0, tone(m, fs, fc - 0.25 * bw), slice(n, n + m), what, window('hamming', m, 0), tol=2e-4 + abs(tone(m, fs, fc - 0.25 * bw)).max() * 1.3e-7)
        anchor(s.a[0][0], what, origin=0, length=n, inputOrigin=n + 10, outputOrigin=n + 10, sub=2 * np.pi * (fc + 0.25 * bw) / fs)
        anchor(s.a[0][1], what, name=1, origin=n, length=m, inputOrigin=n, outputOrigin=0, maxDataLength=n + 10, sub=2 * np.pi * (fc - 0.25 * bw) / fs)
    for k, j, q, r in s.each():
        need(abs(q['gain']) < 1e-3, 'gain of filter %d/%d is %g dB', k, j, q['gain'])
    gains(s, what=what)


def fit(s, what, ref):
    """16-bit samples are the samples at full scale."""
    for k, j, q, r in s.each():
        x = ref[k][r]
        p = abs(x).max()
        z = AMP * x / p
        z = np.stack([z.real, z.imag], 1)
        e = abs(s.i[k][r] - z)
        need((e <= 0.011 * abs(z) + 2).all(), '%s: 16-bit sample of filter %d/%d is %s, not %s', what, k, j, s.i[k][r][e.max(axis=1).argmax()], z[e.max(axis=1).argmax()])


def close(a, b, what, tol=3e-5):
    m = abs(b).max()
    d = abs(a - b)
    need((d <= tol * m + 1e-30).all(), '%s: sample %s is %s, not %s', what, np.unravel_index(d.argmax(), d.shape), a.flat[d.argmax()], b.flat[d.argmax()])


def step(L, w, s, op, ctx, folder):
    """One operation; the new waveform and what it says."""
    what, v = op['op'], C.c_void_p(w)
    if what == 'conjugate':
        L.RKWaveformConjugate(v)
        t = Snap(L, w)
        need(np.array_equal(t.x, s.x.conj()) and np.array_equal(t.i, s.i * [1, -1]), 'conjugate differs')
        t.x, t.i, x, i = s.x, s.i, t.x, t.i
        same(s, t, what, skip=('sub', 'lo', 'hi'))
        t.x, t.i = x, i
        L.RKWaveformConjugate(v)
        same(s, Snap(L, w), 'conjugate twice', skip=('sub', 'lo', 'hi'))
        L.RKWaveformConjugate(v)
        return w, t
    if what == 'decimate':
        m = op['stride']
        x = s.x[:, ::m]
        g = np.sqrt(m) if s.depth % m == 0 or s.depth == 1 else 1 / np.sqrt((abs(x[0]) ** 2).sum())
        if not np.isfinite(g) or any(not abs(x[k]).max() for k in range(s.count)):
            return w, s
        if any(abs(s.x[k][min(-(-int(q['origin']) // m), x.shape[1] - max(1, int(q['length']) // m)) * m:][:max(1, int(q['length']) // m) * m:m]).max() < 1e-12 for k, j, q, _ in s.each()):
            return w, s
        L.RKWaveformDecimate(v, m)
        t = Snap(L, w)
        need((t.depth, t.count, t.filters, t.type, t.fc, t.name) == (x.shape[1], s.count, s.filters, s.type, s.fc, s.name), 'decimated %d by %d to %s', s.depth, m, (t.depth, t.count, t.filters))
        need(abs(t.fs * m / s.fs - 1) < 1e-12, 'rate %s by %d is %s', s.fs, m, t.fs)
        close(t.x, x * g, 'decimate by %d' % m, 2e-4)
        need(np.array_equal(t.i, s.i[:, ::m]), '16-bit samples by %d differ', m)
        up = lambda n: -(-int(n) // m)
        for k, j, q, _ in s.each():
            anchor(t.a[k][j], 'decimate by %d' % m, name=q['name'], origin=min(up(q['origin']), t.depth - max(1, int(q['length']) // m)), length=max(1, int(q['length']) // m), inputOrigin=up(q['inputOrigin']), outputOrigin=up(q['outputOrigin']), maxDataLength=max(1, up(q['maxDataLength'])),
                   sub=float(q['sub'] * m), sens=float(q['sens']))
            need(t.a[k][j]['origin'] + t.a[k][j]['length'] <= t.depth, 'filter %d/%d is beyond the samples', k, j)
        gains(t, sens=False, what=what)
        return w, t
    if what == 'window':
        n, kind, p = s.depth, op['kind'], op['p']
        f = window(kind, n, p).astype(F).astype(float)
        if any((abs(f[r] * s.x[k][r])).max() <= 1e-6 * abs(s.x[k][r]).max() for k, j, q, r in s.each()):
            return w, s
        need(L.vt_wave_window(v, WINDOWS.index(kind), D(p)) == 0, 'window refused')
        t = Snap(L, w)
        g = np.sqrt(n / (f * f).sum())
        close(t.x, s.x * f * g, 'window %s' % kind, 1e-4)
        z = s.i * f[:, None]
        e = abs(t.i - z)
        need((e <= 1.0 + 2e-5 * abs(s.i)).all(), 'window %s: 16-bit sample is off by %g', kind, e.max())
        t.x, t.i, x, i = s.x, s.i, t.x, t.i
        same(s, t, what, skip=('sens', 'gain', 'full'))
        t.x, t.i = x, i
        gains(t, what='window %s' % kind)
        return w, t
    if what == 'append':
        b, u = make(L, dict(op['other'], fs=op['other']['fs'] if op['differ'] else s.fs))
        if (s.type ^ u.type) & COMPLEX:
            L.RKWaveformFree(C.c_void_p(b))
            return w, s
        code = L.RKWaveformAppendWaveform(v, C.c_void_p(b), C.c_uint32(op['transition']))
        L.RKWaveformFree(C.c_void_p(b))
        t = Snap(L, w)
        if s.fs != u.fs or s.count > 1 or s.filters[0] > 1 or u.filters[0] > 1:
            need(code != 0, 'appended anyway')
            same(s, t, 'refused append')
            return w, t
        if u.count > 1:
            return w, t
        need(code == 0, 'append is %d', code)
        n, m, tr = s.depth, u.depth, op['transition']
        l = int(s.a[0][0]['length'])
        need((t.depth, t.count, t.filters, t.type, t.fc, t.fs) == (n + m, 1, [2], s.type | TFM, s.fc, s.fs), 'append %d + %d is %s', n, m, (t.depth, t.filters, t.type))
        need(np.array_equal(t.x[0], np.concatenate([s.x[0], u.x[0]])) and np.array_equal(t.i[0], np.concatenate([s.i[0], u.i[0]])), 'appended samples differ')
        q0, q1 = s.a[0][0], u.a[0][0]
        if l == n:
            anchor(t.a[0][0], what, origin=0, length=n, inputOrigin=n + tr, outputOrigin=n + tr, sub=float(q0['sub']))
            anchor(t.a[0][1], what, maxDataLength=n + tr)
        anchor(t.a[0][0], what, sens=float(q0['sens']), gain=float(q0['gain']), full=float(q0['full']))
        anchor(t.a[0][1], what, origin=n, length=int(q1['length']), inputOrigin=n, outputOrigin=0, sens=float(q1['sens']), gain=float(q1['gain']), full=float(q1['full']), sub=float(q1['sub']))
        gains(t, sens=False, what=what)
        return w, t
    if what == 'down':
        n = s.depth
        x = s.x
        was = s.type & COMPLEX
        if not was:
            nf = 1 << max(0, int(np.ceil(np.log2(n))))
            h = np.zeros(nf)
            h[0] = 1
            h[nf // 2] = 1
            h[1:nf // 2] = 2
            x = np.array([np.fft.ifft(np.fft.fft(v.real, nf) * h)[:n] for v in s.x])
        if any(abs(x[k][r]).max() < 1e-12 for k, j, q, r in s.each()):
            return w, s
        if any(f == 2 and s.a[k][0]['origin'] + s.a[k][0]['length'] > s.a[k][1]['origin'] for k, f in enumerate(s.filters)):
            # Nothing was left of a filter when it was decimated
            return w, s
        L.RKWaveformDownConvert(v)
        t = Snap(L, w)
        om = -2 * np.pi * F(s.fc) / F(s.fs)
        ref = x * np.exp(1j * om * np.arange(n))
        close(t.x, ref, 'down-conversion', 1e-4 + abs(om) * n * 4e-7)
        need(t.fc == 0 and t.type & COMPLEX, 'carrier %s, type 0x%x after the down-conversion', t.fc, t.type)
        need((t.count, t.depth, t.fs, t.filters, t.name) == (s.count, s.depth, s.fs, s.filters, s.name), 'down-conversion changed the shape')
        for k, j, q, _ in s.each():
            for f in ('name', 'origin', 'length', 'inputOrigin', 'outputOrigin', 'maxDataLength'):
                need(q[f] == t.a[k][j][f], 'down-conversion changed %s', f)
        gains(t, sens=False, what=what)
        fit(t, what, t.x)
        return w, t
    if what == 'copy':
        b = L.RKWaveformCopy(v)
        t = Snap(L, b)
        same(s, t, what)
        L.RKWaveformConjugate(v)
        L.vt_wave_rename(v, b'other')
        same(s, Snap(L, b), 'copy that stands alone')
        L.RKWaveformFree(v)
        return b, t
    if what == 'split':
        if s.filters[0] > 1 or s.depth < 2 or any(f != 1 for f in s.filters):
            return w, s
        at = 1 + op['at'] % (s.depth - 1)
        if any(min(abs(s.x[k][:at]).max(), abs(s.x[k][at:]).max()) < 1e-9 for k in range(s.count)):
            return w, s
        L.vt_wave_split(v, at)
        L.vt_wave_normalize(v)
        t = Snap(L, w)
        for k, j, q, r in t.each():
            x = s.x[k][r]
            close(t.x[k][r], x / np.sqrt((abs(x if s.type & COMPLEX else x.real) ** 2).sum()), 'normalisation', 1e-4)
        if s.type & COMPLEX:
            for k, j, q, r in t.each():
                need(abs(q['gain']) < 1e-3, 'gain of filter %d/%d is %g dB', k, j, q['gain'])
        gains(t, what='normalise')
        return w, t
    if what == 'real':
        if any((s.x[k][r].real ** 2).sum() < 1e-6 * (abs(s.x[k][r]) ** 2).sum() for k, j, q, r in s.each()):
            return w, s
        L.vt_wave_retype(v, C.c_uint32(s.type & ~COMPLEX), D(s.fs), D(op['fc'] * s.fs))
        L.vt_wave_normalize(v)
        t = Snap(L, w)
        gains(t, what='normalise')
        return w, t
    # Through a file
    path = os.path.join(folder, 'a', op['file'])
    if op['clear']:
        L.vt_wave_rename(v, b'')
    need(L.RKWaveformWriteFile(v, path.encode()) == 0, 'cannot write %s', path)
    size = 512 + sum(64 * f for f in s.filters) + 12 * s.depth * s.count
    need(os.path.getsize(path) == size, 'file of %d bytes, not %d', os.path.getsize(path), size)
    name = os.path.basename(path)[:127] if op['clear'] else s.name
    after = Snap(L, w)
    need(after.name == name, 'name %r after %s is written', after.name, path)
    s.name = name
    same(s, after, 'file writer')
    b = L.RKWaveformInitFromFile(path.encode())
    need(b is not None, 'cannot read back %s', path)
    t = Snap(L, b)
    try:
        same(s, t, 'file', skip=('maxDataLength', 'sens', 'gain', 'full'))
        for k, j, q, _ in t.each():
            need(q['maxDataLength'] == (MAXGATE if j == 0 else s.a[k][j]['maxDataLength']), 'file: filter %d/%d takes %d samples', k, j, q['maxDataLength'])
        gains(t, what='file')
    except BaseException:
        L.RKWaveformFree(C.c_void_p(b))
        raise
    L.RKWaveformFree(v)
    return b, t


def run_life(L, c, ctx):
    setup(L)
    folder = scratch()
    w = None
    try:
        w, s = make(L, c)
        ctx.cls(c['kind'])
        for op in c['ops']:
            w, s = step(L, w, s, op, ctx, folder)
            ctx.cls(op['op'])
        L.RKWaveformSummary(C.c_void_p(w))
    finally:
        if w is not None:
            L.RKWaveformFree(C.c_void_p(w))
        shutil.rmtree(folder, ignore_errors=True)
    return len(c['ops']) > 0 or s.count > 1


RATES = [1e6, 2.5e6, 5e6, 8e6, 10e6, 20e6, 50e6, 80e6, 125e6, 160e6]


def describe(deep):
    n = st.one_of(st.integers(1, 40), st.integers(1, 400), st.sampled_from([1, 2, 3, 64, 100, 128, 255, 256, 257, 1000, 1024] + ([4000, 16384, 20001] if deep else [])))
    unit = st.one_of(st.floats(0, 1).map(lambda v: float(round(v, 4))), st.sampled_from([0.0, 0.25, 0.5, 1.0]))
    return dict(kind=st.sampled_from(['tone', 'lfm', 'hops', 'chirps', 'tfm', 'samples', 'lfm', 'hops', 'chirps', 'impulse', 'fake'] if deep else ['tone', 'lfm', 'hops', 'chirps', 'tfm', 'samples', 'lfm', 'hops', 'chirps', 'impulse']),
                n=n, fs=st.sampled_from(RATES), fc=st.one_of(st.just(0.0), unit.map(lambda v: v - 0.5)), bw=unit, hops=st.integers(1, 11), seed=st.integers(0, 2 ** 31), name=st.text('abc 01', max_size=6))


def strat_life(deep=False):
    d = describe(deep)
    small = st.fixed_dictionaries(dict(describe(False), kind=st.sampled_from(['tone', 'lfm', 'hops', 'samples']), n=st.integers(1, 60), hops=st.integers(1, 2)))
    op = st.one_of(
        st.just(dict(op='conjugate')), st.just(dict(op='copy')), st.just(dict(op='down')),
        st.fixed_dictionaries(dict(op=st.just('decimate'), stride=st.integers(1, 9))),
        st.fixed_dictionaries(dict(op=st.just('window'), kind=st.sampled_from(WINDOWS), p=st.one_of(st.sampled_from([0.0, 0.05, 0.3, 0.5, 0.77, 1.0, -0.5]), st.floats(0.01, 0.99).map(lambda v: round(v, 3))))),
        st.fixed_dictionaries(dict(op=st.just('append'), other=small, transition=st.integers(0, 100), differ=st.sampled_from([False, False, False, True]))),
        st.fixed_dictionaries(dict(op=st.just('split'), at=st.integers(0, 10000))),
        st.fixed_dictionaries(dict(op=st.just('real'), fc=st.floats(0, 0.5).map(lambda v: round(v, 3)))),
        st.fixed_dictionaries(dict(op=st.just('file'), file=st.sampled_from(['w.rkwav', 'b/c.rkwav', 'x' * 140, 'd.e/f']), clear=st.booleans())))
    return st.fixed_dictionaries(dict(d, ops=st.lists(op, max_size=6)))


def run_arrays(L, c, ctx):
    """More sample arrays, or a longer name, than a waveform holds."""
    setup(L)
    w, s = make(L, dict(kind='samples', n=c['n'], fs=1.0, fc=0.0, bw=0.0, hops=c['count'], seed=c['seed'], name='n' * c['name']))
    need(s.count == min(22, c['count']), '%d arrays became %d', c['count'], s.count)
    L.RKWaveformFree(C.c_void_p(w))
    return c['count'] > 22


def run_damage(L, c, ctx):
    """Any bytes are refused, or read as a waveform that keeps within its samples."""
    setup(L)
    folder = scratch()
    try:
        w, s = make(L, c['wave'])
        path = os.path.join(folder, 'w.rkwav')
        need(L.RKWaveformWriteFile(C.c_void_p(w), path.encode()) == 0, 'cannot write %s', path)
        L.RKWaveformFree(C.c_void_p(w))
        b = bytearray(open(path, 'rb').read())
        whole = len(b)
        if c['cut'] is not None:
            b = b[:min(len(b), c['cut'] if c['cut'] < 700 else len(b) * (c['cut'] - 700) // 300)]
        heads, o = [512], 512
        for f in s.filters:
            heads.append(o)
            o += 64 * f + 12 * s.depth
        for where, o, v in c['flips']:
            if where == 'head':
                o %= 180
            elif where == 'anchor':
                o = heads[o % len(heads)] + o // 64 % 48
            if o < len(b):
                b[o] = v
        open(path, 'wb').write(bytes(b))
        r = L.RKWaveformInitFromFile(path.encode())
        if r is None:
            ctx.cls('refused')
            need(len(b) < whole or c['flips'], 'a good file is refused')
            return True
        ctx.cls('read')
        need(len(b) == whole or c['flips'], 'a file cut to %d of %d bytes is read', len(b), whole)
        t = Snap(L, r)
        for k, j, q, _ in t.each():
            need(int(q['origin']) + int(q['length']) <= t.depth, 'filter %d/%d has samples %d + %d of %d', k, j, q['origin'], q['length'], t.depth)
            need(q['inputOrigin'] <= MAXGATE and q['outputOrigin'] <= MAXGATE, 'filter %d/%d starts at %d, %d', k, j, q['inputOrigin'], q['outputOrigin'])
        need(t.count <= 22 and t.depth <= MAXGATE and max(t.filters) <= 8, 'shape %s', (t.count, t.depth, t.filters))
        L.RKWaveformFree(C.c_void_p(r))
        return bool(c['flips']) or c['cut'] is not None
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def strat_damage():
    wave = st.fixed_dictionaries(dict(describe(False), kind=st.sampled_from(['tone', 'hops', 'tfm', 'chirps']), n=st.integers(1, 50), fs=st.sampled_from([1e6, 5e6])))
    flip = st.tuples(st.sampled_from(['head', 'anchor', 'any']), st.integers(0, 3000), st.sampled_from([0, 1, 2, 8, 9, 22, 23, 127, 128, 255]))
    return st.fixed_dictionaries(dict(wave=wave, cut=st.one_of(st.none(), st.none(), st.integers(0, 999)), flips=st.lists(flip, max_size=4)))


def run_full(L, c, ctx):
    setup(L)
    w, s = make(L, c)
    r = L.vt_wave_write_full(C.c_void_p(w))
    need(r != 0, 'a wave file that cannot be written is reported as written')
    L.RKWaveformFree(C.c_void_p(w))
    return True


SUBS = [
    Sub('life', strat_life, run_life, 8000, 60000),
    Sub('deep', lambda: strat_life(True), run_life, 500, 5000),
    Sub('arrays', lambda: st.fixed_dictionaries(dict(count=st.one_of(st.integers(1, 24), st.integers(20, 255)), n=st.integers(1, 30), seed=st.integers(0, 1000), name=st.sampled_from([0, 1, 10, 126, 127, 128, 200]))), run_arrays, 400, 2000),
    Sub('damage', strat_damage, run_damage, 4000, 40000),
    Sub('full', lambda: st.fixed_dictionaries(dict(describe(False), kind=st.sampled_from(['tone', 'hops']))), run_full, 60, 300),
]
PROBES = {}
