"""Every configuration change makes a complete new revision; the earlier revisions stay as they were."""
import ctypes as C
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr

ID = 'C09'
RULE = ('histories of configuration changes with any keys, several per change, bad values among them, over rings of several depths, the whole ring compared with a model after every change; '
        'and concurrent writers with concurrent readers; non-trivial = a change of at least two keys, or the ring reused; distinct by case content')
ASSUMPTIONS = ['a reader uses a revision before the ring comes round to it', 'calibrations have at most eight filters']

FIELDS = ['i', 'sweepElevation', 'sweepAzimuth', 'startMarker', 'prt', 'pw', 'pulseGateCount', 'pulseGateSize', 'transitionGateCount', 'ringFilterGateCount', 'waveformId', 'noise', 'systemZCal',
          'systemDCal', 'systemPCal', 'ZCal', 'DCal', 'PCal', 'SNRThreshold', 'SQIThreshold', 'waveformName', 'waveform', 'waveformDecimate', 'userResource', 'userIntegerParameters',
          'userFloatParameters', 'vcpDefinition']
FMT = ['u8', 'f4', 'f4', 'u4', ('f4', 8), ('f4', 8), 'u4', 'f4', 'u4', 'u4', ('u4', 8), ('f4', 2), ('f4', 2), 'f4', 'f4', ('f4', (8, 2)), ('f4', 8), ('f4', 8), 'f4', 'f4', 'S128', 'u8', 'u8', 'u8',
       ('u4', 8), ('f4', 8), 'S512']
KEY = dict(Null=0, SweepElevation=1, SweepAzimuth=2, PositionMarker=3, PRT=4, PRF=5, DualPRF=6, PulseGateCount=7, PulseGateSize=8, PulseWidth=9, Waveform=10, WaveformDecimate=11, WaveformId=12,
           WaveformName=13, SystemNoise=14, SystemZCal=15, SystemDCal=16, SystemPCal=17, WaveformCalibration=18, SNRThreshold=19, SQIThreshold=20, VCPDefinition=21, RingFilterGateCount=22,
           TransitionGateCount=23, UserResource=26)
ONE = {'SweepElevation': 'sweepElevation', 'SweepAzimuth': 'sweepAzimuth', 'PulseGateSize': 'pulseGateSize', 'SystemDCal': 'systemDCal', 'SystemPCal': 'systemPCal', 'SNRThreshold': 'SNRThreshold',
       'SQIThreshold': 'SQIThreshold'}
TWO = {'SystemNoise': 'noise', 'SystemZCal': 'systemZCal'}
INT = {'PositionMarker': 'startMarker', 'PulseGateCount': 'pulseGateCount', 'RingFilterGateCount': 'ringFilterGateCount', 'TransitionGateCount': 'transitionGateCount', 'UserResource': 'userResource'}

_dtype = None


def dtype(L):
    global _dtype
    if _dtype is None:
        o = (C.c_uint32 * 64)()
        n = L.vt_config_offsets(o)
        assert n == len(FIELDS)
        _dtype = np.dtype({'names': FIELDS, 'formats': FMT, 'offsets': list(o[:n]), 'itemsize': 1024})
    return _dtype


class Calibration(C.Structure):
    _fields_ = [('uid', C.c_uint32), ('name', C.c_char * 128), ('count', C.c_uint8), ('Z', C.c_float * 16), ('D', C.c_float * 8), ('P', C.c_float * 8)]
    _pack_ = 1


f32 = st.floats(-1e4, 1e4, width=32)
pos = st.floats(1e-4, 1e4)
text = lambda n: st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=n)
change = st.one_of(
    st.tuples(st.sampled_from(sorted(ONE)), f32), st.tuples(st.sampled_from(sorted(TWO)), st.tuples(f32, f32)),
    st.tuples(st.sampled_from(sorted(INT)), st.integers(0, 2 ** 32 - 1)),
    st.tuples(st.just('PRT'), pos), st.tuples(st.just('PRF'), pos), st.tuples(st.just('DualPRF'), st.tuples(pos, pos)), st.tuples(st.just('PulseWidth'), pos),
    st.tuples(st.just('Waveform'), st.one_of(st.none(), st.tuples(st.integers(0, 3), st.integers(0, 8), text(120)))),
    st.tuples(st.just('WaveformDecimate'), st.one_of(st.none(), st.tuples(st.integers(0, 3), st.integers(0, 8), text(120)))),
    st.tuples(st.just('WaveformName'), text(127)),
    st.tuples(st.just('VCPDefinition'), st.one_of(st.none(), text(60), st.integers(0, 511).map(lambda n: 'x' * n))),
    st.tuples(st.just('WaveformCalibration'), st.one_of(st.none(), st.tuples(st.integers(0, 8), st.integers(0, 10 ** 6)))))


def strat():
    return st.fixed_dictionaries(dict(depth=st.integers(3, 25), steps=st.lists(st.lists(change, max_size=6), min_size=1, max_size=30)))


def run(L, c, ctx):
    d = dtype(L)
    n = c['depth']
    mem = C.c_void_p()
    L.RKConfigBufferAlloc.restype = C.c_size_t
    L.RKConfigWithId.restype = C.c_void_p
    need(L.RKConfigBufferAlloc(C.byref(mem), C.c_uint32(n)) == n * 1024, 'configuration ring not allocated')
    raw = np.frombuffer((C.c_uint8 * (n * 1024)).from_address(mem.value), np.uint8)
    ring = raw.view(d)
    need(not raw.any(), 'the new ring is not empty')
    # As the radar does: identifiers count up to the current slot
    ring['i'] = np.arange(n, dtype=np.uint64) - np.uint64(n)
    waves = [aligned(16384, np.uint8) for _ in range(4)]
    model = raw.copy().view(d)
    ix = C.c_uint32(0)
    keep = []
    seen = 0
    for s, step in enumerate(c['steps']):
        i = ix.value
        new = model[(i - 1) % n].copy()
        new['i'] = np.uint64((int(model[i]['i']) + n) % 2 ** 64)
        args = []
        for k, v in step:
            args.append(C.c_uint32(KEY[k]))
            if k in ONE:
                new[ONE[k]] = v
                args.append(C.c_double(v))
            elif k in TWO:
                new[TWO[k]] = v
                args += [C.c_double(x) for x in v]
            elif k in INT:
                new[INT[k]] = v
                args.append(C.c_void_p(v) if k == 'UserResource' else C.c_uint32(v))
            elif k == 'PRT':
                new['prt'][0] = v
                args.append(C.c_double(v))
            elif k == 'PRF':
                new['prt'][0] = 1.0 / v
                args.append(C.c_double(v))
            elif k == 'DualPRF':
                new['prt'][:2] = 1.0 / v[0], 1.0 / v[1]
                args += [C.c_double(x) for x in v]
            elif k == 'PulseWidth':
                new['pw'][:] = v
                args.append(C.c_double(v))
            elif k in ('Waveform', 'WaveformDecimate'):
                if v is None:
                    args.append(C.c_void_p(None))
                else:
                    # Only what the change reads: number of groups, filters of the first, and the name
                    w = waves[v[0]]
                    if not hasattr(run, 'layout'):
                        o = (C.c_uint32 * 4)()
                        L.vt_waveform_layout(o)
                        run.layout = list(o)
                    o = run.layout
                    # A waveform in use does not change: one that is in the ring already is given again
                    if not any(keep_w is w for keep_w in keep):
                        w[o[0]] = 1
                        w[o[1]] = v[1]
                        b = v[2].encode()
                        w[o[2]:o[2] + 128] = 0
                        w[o[2]:o[2] + len(b)] = np.frombuffer(b, np.uint8)
                        keep.append(w)
                    args.append(ptr(w))
                    if w[o[1]]:
                        new['waveform' if k == 'Waveform' else 'waveformDecimate'] = w.ctypes.data
                        if k == 'Waveform':
                            new['waveformName'] = w[o[2]:o[2] + 128].tobytes().split(b'\0')[0]
                    else:
                        ctx.cls('waveform without filters')
            elif k == 'WaveformName':
                new['waveformName'] = v.encode()
                b = C.create_string_buffer(v.encode())
                keep.append(b)
                args.append(b)
            elif k == 'VCPDefinition':
                if v is not None:
                    new['vcpDefinition'] = v.encode()[:504]
                    b = C.create_string_buffer(v.encode())
                    keep.append(b)
                    args.append(b)
                else:
                    args.append(C.c_void_p(None))
            else:
                if v is None:
                    m = 8
                    if new['waveform']:
                        w = [x for x in waves if x.ctypes.data == int(new['waveform'])][0]
                        m = int(w[run.layout[1]])
                    for f in ('ZCal', 'DCal', 'PCal'):
                        new[f][:m] = 0
                    args.append(C.c_void_p(None))
                else:
                    rng = np.random.default_rng(v[1])
                    z = rng.normal(0, 60, (8, 2)).astype(np.float32)
                    y = rng.normal(0, 20, (2, 8)).astype(np.float32)
                    m = v[0]
                    new['ZCal'][:m], new['DCal'][:m], new['PCal'][:m] = z[:m], y[0, :m], y[1, :m]
                    cal = Calibration(7, b'cal', m, (C.c_float * 16)(*z.ravel()), (C.c_float * 8)(*y[0]), (C.c_float * 8)(*y[1]))
                    keep.append(cal)
                    args.append(C.byref(cal))
        args.append(C.c_uint32(0))
        L.RKConfigAdvanceEllipsis(mem, C.byref(ix), C.c_uint32(n), *args)
        model[i] = new
        need(ix.value == (i + 1) % n, 'change %d: index %d after %d of %d', s, ix.value, i, n)
        for f in FIELDS:
            a, b = ring[f], model[f]
            if a.dtype.kind == 'S':
                a, b = [x.split(b'\0')[0] for x in a], [x.split(b'\0')[0] for x in b]
                bad = [q for q in range(n) if a[q] != b[q]]
                need(not bad, 'change %d %s: %s of slot %s is %s, expected %s', s, [q[0] for q in step], f, bad, a[bad[0]] if bad else 0, b[bad[0]] if bad else 0)
                continue
            if not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
                bad = [q for q in range(n) if not np.array_equal(a[q], b[q])]
                if bad:
                    need(False, 'change %d %s: %s of slot %s is %s, expected %s', s, [q[0] for q in step], f, bad, a[bad[0]], b[bad[0]])
        # Every revision that the ring still holds is found by its identifier, others are not
        ids = [int(x) for x in ring['i']]
        for q in range(n):
            got = L.RKConfigWithId(mem, C.c_uint32(n), C.c_uint64(ids[q]))
            need(got == mem.value + 1024 * q, 'change %d: identifier %d of slot %d gives %s', s, ids[q], q, None if got is None else (got - mem.value) // 1024)
        need(L.RKConfigWithId(mem, C.c_uint32(n), C.c_uint64((max(x for x in ids if x < 2 ** 63) + 1))) is None, 'change %d: an identifier that is not there was found', s)
    L.RKConfigBufferFree(mem)
    ctx.cls('ring reused' if len(c['steps']) > n else 'ring not reused')
    return any(len(x) > 1 for x in c['steps']) or len(c['steps']) > n


def run_threads(L, c, ctx):
    d = dtype(L)
    n, w, m = c['depth'], c['writers'], c['n']
    raw = aligned(n * 1024, np.uint8)
    ring = raw.view(d)
    ring['i'] = np.arange(n, dtype=np.uint64) - np.uint64(n)
    ix = C.c_uint32(0)
    reads = C.c_int(0)
    bad = L.vt_config_threads(ptr(raw), C.byref(ix), C.c_uint32(n), w, m, c['readers'], C.byref(reads))
    need(bad == 0, '%d of %d revisions read while others write are mixed', bad, reads.value)
    need(ix.value == w * m % n, 'index %d after %d changes of a ring of %d', ix.value, w * m, n)
    last = [m + 1] * (w + 1)
    for k in range(min(n, w * m)):
        s = ring[(ix.value - 1 - k) % n]
        need(int(s['i']) == w * m - 1 - k, 'revision %d has identifier %d', w * m - 1 - k, int(s['i']))
        v = int(s['sweepElevation'])
        need(v == int(s['SNRThreshold']) == int(s['ringFilterGateCount']), 'revision %d mixes %d %d %d', w * m - 1 - k, v, s['SNRThreshold'], s['ringFilterGateCount'])
        j, q = v // 100000, v % 100000
        need(1 <= j <= w and q < last[j], 'revision %d: change %d of writer %d is out of order', w * m - 1 - k, q, j)
        if last[j] <= m:
            need(q == last[j] - 1, 'change %d of writer %d is lost', last[j] - 1, j)
        last[j] = q
    ctx.cls('%d writers' % w)
    return w > 1


SUBS = [Sub('changes', strat, run, 3000, 60000),
        Sub('threads', lambda: st.fixed_dictionaries(dict(depth=st.integers(3, 100), writers=st.integers(1, 6), n=st.integers(1, 60), readers=st.integers(0, 2))), run_threads, 400, 8000, heavy=True)]
PROBES = {}
