"""Reading raw I/Q and waveform files: damaged, cut short, larger than the pulse, older formats."""
import ctypes, os, shutil
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from vt.rawio import ANCHOR, HEAD, PULSE, Recording, strat
from vt.num import ptr

ID = 'C11'
RULE = ('recordings cut at any byte, read into pulses of any capacity, with damaged header, waveform or pulse bytes, or written in the version 5 and 6 layouts; the reader returns the '
        'pulses in front of the damage unchanged and then stops, and never touches memory outside its buffers (ASan); non-trivial = a header was read and at least one pulse returned '
        'or a damaged header refused; distinct by case content')
ASSUMPTIONS = ['damaged waveform samples and configuration values are data like any other and are returned as they are']
V1 = np.dtype({'names': ['i', 'n', 't', 's', 'capacity', 'gateCount', 'down', 'marker', 'pw', 'sec', 'usec', 'td', 'rawaz', 'rawel', 'cfg', 'sub', 'bin', 'gs', 'el', 'az', 'vel', 'vaz'],
               'formats': ['u8', 'u8', 'u8', 'u4', 'u4', 'u4', 'u4', 'u4', 'u4', 'i8', 'i8', 'f8', 'u4', 'u4', 'u2', 'u2', 'u2', 'f4', 'f4', 'f4', 'f4', 'f4'],
               'offsets': [0, 8, 16, 24, 28, 32, 36, 40, 44, 48, 56, 64, 72, 76, 80, 82, 84, 86, 90, 94, 98, 102], 'itemsize': 106})


def one_file(L, c):
    """A recording of one file: bytes, Recording, configuration, pulses."""
    R = Recording(L, dict(c, segs=c['segs'][:1], most=100000))
    d = scratch()
    try:
        R.run(L, d)
        j, ks = R.files[0]
        with open(R.name(d, ks[0]), 'rb') as f:
            return f.read(), R, j, ks
    finally:
        shutil.rmtree(d, ignore_errors=True)


def back(L, R, blob, cap=None):
    d = scratch()
    p = os.path.join(d, 'f')
    try:
        with open(p, 'wb') as f:
            f.write(blob)
        return R.read(L, p, cap)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_cut(L, c, ctx):
    blob, R, j, ks = one_file(L, c)
    cut = int(c['cut'] * len(blob)) if c['whole'] else R.head_size(j) + int(c['cut'] * (len(blob) - R.head_size(j)))
    cap = max(16, int(R.cap * c['room']) // 16 * 16)
    r, g = back(L, R, blob[:cut], cap)
    if cut < R.head_size(j):
        need(r == -2, 'a file cut inside its header (%d of %d bytes) is read all the same: %d', cut, R.head_size(j), r)
        ctx.cls('cut in the header')
        return True
    need(r >= 0, 'a file cut behind its header (%d of %d bytes) is refused: %d', cut, R.head_size(j), r)
    R.same_header(g, j, 'cut file')
    o, whole, stop = R.head_size(j), 0, 0
    for k in ks:
        gates = int(R.H['gateCount' if c['raw'] else 'down'][k])
        if o + 192 > cut:
            break
        if gates > cap or o + 192 + R.payload(k) > cut:
            stop = 1
            break
        o += 192 + R.payload(k)
        whole += 1
    need(r == whole, 'cut at byte %d, pulses of %d gates: %d pulses returned, %d are whole and fit', cut, cap, r, whole)
    sub = Recording.__new__(Recording)
    sub.__dict__.update(R.__dict__)
    sub.x, sub.y = R.x[:, :, :cap], R.y[:, :, :cap]
    sub.same_pulses(g, r, ks, 'cut file')
    if stop:
        ctx.cls('too big' if gates > cap else 'cut in a pulse')
    return r > 0


def run_legacy(L, c, ctx):
    """Version 5 and 6 files give the same pulses."""
    v = 5 if c['five'] and not c['raw'] else 6
    R = Recording(L, dict(c, segs=c['segs'][:1], most=100000))
    j, ks = R.files[0]
    n = len(ks)
    H = np.zeros(n, V1)
    raw = H.view(np.uint8).reshape(n, 106)
    raw[:] = np.random.default_rng(c['seed'] + 1).integers(0, 256, raw.shape)
    for f in V1.names:
        if f in PULSE.names and f not in ('s', 'capacity'):
            H[f] = R.H[f][:n]
    blob = bytearray()
    if v == 6:
        b, R2, j2, ks2 = one_file(L, c)
        blob += b[:R.head_size(j)]
    else:
        blob += b'\0' * 4096
        a = R.anchors[j, 0, :int(R.heads['fcounts'][j][0])]
        a['origin'] = np.cumsum(a['length']) - a['length']       # one filter after the other
        buf = ctypes.create_string_buffer(4096)
        L.vt_v1_header(buf, 1 if c['raw'] else 2, c['ratio'], ptr(R.d), R.prefix, ptr(np.ascontiguousarray(a)), len(a), ptr(np.arange(40, dtype=np.float32)))
        blob = bytearray(buf.raw)
    blob[128:132] = np.uint32(v).tobytes()
    for q, k in enumerate(ks):
        blob += H[q:q + 1].tobytes()
        for p in range(2):
            blob += (R.x[k, p, :int(R.H['gateCount'][k])] if c['raw'] else R.y[k, p, :int(R.H['down'][k])]).tobytes()
    r, g = back(L, R, bytes(blob))
    need(r == n, 'a version %d file of %d pulses gives %d', v, n, r)
    need(g['o'][1] == v, 'version %d instead of %d', g['o'][1], v)
    if v == 6:
        R.same_header(g, j, 'version 6')
    else:
        need(g['o'][0] == 2 and g['o'][2] == c['ratio'] and g['prefix'] == R.prefix, 'version 5: data type %d, ratio %d, prefix %r', g['o'][0], g['o'][2], g['prefix'])
        f = np.zeros(44, np.float32)
        L.vt_v1_config(ptr(g['config']), ptr(f))
        want = np.concatenate([np.arange(40), [1e-3, 2e-3, 3e-6, 4e-6]]).astype(np.float32)
        need(np.array_equal(f, want), 'version 5: noise, calibrations, thresholds, PRTs, pulse widths %s, not %s', f.tolist(), want.tolist())
        need(g['head']['count'] == 1 and g['head']['fcounts'][0] == len(a), 'version 5: %d groups, %d filters', g['head']['count'], g['head']['fcounts'][0])
        for f in ('origin', 'length', 'in', 'out', 'most'):
            need(np.array_equal(g['anchors'][0, :len(a)][f], a[f]), 'version 5: filter %s', f)
    R.same_pulses(g, r, ks, 'version %d' % v)
    ctx.cls('version %d' % v)
    return True


def run_damage(L, c, ctx):
    """Damaged bytes never harm the reader; what is in front of them is still returned."""
    blob, R, j, ks = one_file(L, c)
    b = bytearray(blob)
    hs = R.head_size(j)
    first = len(b)
    for where, pos, val in c['damage']:
        a, z = {'head': (0, 4096), 'version': (128, 133), 'ratio': (260, 270), 'wave': (4096, 4608), 'wavecount': (4096, 4101), 'counts': (4096 + 153, 4096 + 175),
                'anchor': (4608, min(hs, 4608 + 64 * 8)), 'pulse': (hs, len(b)), 'gates': (hs + 32, hs + 40)}[where]
        k = a + int(pos * (z - a))
        if k < len(b):
            b[k] = val
            if b[k] != blob[k]:
                first = min(first, k)
    r, g = back(L, R, bytes(b))
    if first >= hs:
        need(r >= 0, 'header refused although only pulse bytes are damaged')
        R.same_header(g, j, 'damaged file')
        o, whole = hs, 0
        for k in ks:
            o += 192 + R.payload(k)
            if o > first:
                break
            whole += 1
        need(r >= whole, 'only %d pulses, %d are in front of the damage', r, whole)
        R.same_pulses(g, whole, ks, 'in front of the damage')
    ctx.cls('refused' if r == -2 else 'read')
    return r != 0


def run_wave(L, c, ctx):
    """Waveform files that are cut or damaged: NULL or a waveform whose filters lie inside its samples."""
    R = Recording(L, dict(c, segs=[{'cfg': c['segs'][0]['cfg'], 'n': 1, 'gates': 'tiny'}]))
    blob, R, j, ks = one_file(L, dict(c, segs=[{'cfg': c['segs'][0]['cfg'], 'n': 1, 'gates': 'tiny'}]))
    b = bytearray(blob[4096:R.head_size(j)])
    full = len(b)
    b = b[:full if c['cut'] > 0.7 else int(c['cut'] / 0.7 * full)]
    same = len(b) == full
    for where, pos, val in c['damage']:
        a, z = {'wave': (0, 512), 'wavecount': (0, 5), 'counts': (153, 175)}.get(where, (512, min(full, 512 + 64 * 8)))
        k = a + int(pos * (z - a))
        if k < len(b):
            same = same and b[k] == val
            b[k] = val
    d = scratch()
    p = os.path.join(d, 'w.rkwav')
    try:
        with open(p, 'wb') as f:
            f.write(b)
        o = np.zeros(3, np.int32)
        r = L.vt_read_wave(p.encode(), ptr(o))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if same:
        need(r == 1, 'an intact waveform file is refused')
    if len(b) < full and not c['damage']:
        need(r == 0, 'a waveform file of %d bytes is read although it should have %d', len(b), full)
    if r == 1:
        need(o[0] <= 22 and o[2] == 0, 'waveform of %d groups and depth %d: %d filters reach outside', o[0], o[1], o[2])
    ctx.cls('waveform read' if r else 'waveform refused')
    return True


def base(**k):
    return strat(False).flatmap(lambda c: st.fixed_dictionaries(dict({'_': st.just(c)}, **k)).map(lambda d: dict(d.pop('_'), **d)))


DAMAGE = st.lists(st.tuples(st.sampled_from(['head', 'version', 'ratio', 'wave', 'wavecount', 'counts', 'anchor', 'anchor', 'pulse', 'gates']), st.floats(0, 0.999), st.integers(0, 255)), min_size=0, max_size=4)
SUBS = [Sub('cut', lambda: base(cut=st.floats(0, 1), whole=st.booleans(), room=st.sampled_from([1, 1, 0.5, 2])), run_cut, 1600, 30000, hang=60),
        Sub('legacy', lambda: base(five=st.booleans()), run_legacy, 800, 12000, hang=60),
        Sub('damage', lambda: base(damage=DAMAGE), run_damage, 1600, 40000, hang=60),
        Sub('waveform', lambda: base(damage=DAMAGE, cut=st.floats(0, 1)), run_wave, 1200, 20000, hang=60)]
PROBES = {}
