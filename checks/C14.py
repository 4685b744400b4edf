"""Sweeps: the rays between a beginning and an end, once, complete, as products and files; rays are given back only when they are done with."""
import ctypes as C
import os, shutil, time
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from vt.num import aligned, ptr
from checks.C13 import PRO

ID = 'C14'
RULE = ('histories of rays with beginnings, ends, gaps, joined and unterminated sweeps through the sweep engine, its ring coming round, with slow writers, changes of the record flag and flushes; descriptions and releases of products; '
        'non-trivial = two or more sweeps, or four or more operations; distinct by case content')
ASSUMPTIONS = ['a sweep takes no more than half of the ray buffer', 'the ray producer is never more than 4 rays ahead of the ray gatherer', 'gate count and gate size are constant within a sweep, except where only the gates that all rays have are compared']
F = np.float32

RAY = np.dtype([('marker', 'u4'), ('config', 'u4'), ('gates', 'u4'), ('products', 'u4'), ('serial', 'u4'), ('pad', 'u4'), ('start', 'i8'), ('end', 'i8'), ('a0', 'f4'), ('a1', 'f4'), ('e0', 'f4'), ('e1', 'f4'),
                ('gateSize', 'f4'), ('pad2', 'f4')], align=True)
MIDDLE, BEGIN, END = 1, 2, 4
PPI, RHI, POINT = 1 << 5, 2 << 5, 3 << 5
READY = 8
SYMBOLS = ['Z', 'V', 'W', 'D', 'P', 'R', 'K', 'Sh', 'Sv', 'Q', 'Lh', 'Lv', 'Rxh', 'Rxv', 'Pxh', 'Pxv']
NAMES = dict(Z='Intensity', V='Radial_Velocity', W='Width', D='Differential_Reflectivity', P='PhiDP', R='RhoHV', K='KDP')


def setup(L):
    for f in ['vt_sweep_new', 'vt_sweep_record', 'vt_sweep_slot', 'vt_product_array']:
        getattr(L, f).restype = C.c_void_p
    for f in ['vt_sweep_record_name', 'vt_system_calls', 'vt_sweep_slot_symbol', 'vt_sweep_summary', 'vt_sweep_state']:
        getattr(L, f).restype = C.c_char_p
    L.vt_sweep_new.argtypes = [C.c_uint32, C.c_uint32, C.c_uint32, C.c_uint32, C.c_char_p, C.c_char_p, C.c_char_p, C.c_void_p]
    L.vt_sweep_config.argtypes = [C.c_void_p, C.c_int, C.c_uint32, C.c_float, C.c_float, C.c_void_p, C.c_char_p, C.c_char_p]
    L.vt_sweep_feed.argtypes = [C.c_void_p, C.c_void_p, C.c_int, C.c_int]
    for f in ['vt_sweep_delete', 'vt_sweep_start', 'vt_sweep_stop', 'vt_sweep_business', 'vt_sweep_flush', 'vt_sweep_index', 'vt_sweep_summary', 'vt_sweep_reserved', 'vt_sweep_state']:
        getattr(L, f).argtypes = [C.c_void_p]
    for f in ['vt_sweep_record_set', 'vt_sweep_settle', 'vt_sweep_status', 'vt_sweep_slot', 'vt_sweep_slot_flag', 'vt_sweep_slot_id', 'vt_sweep_slot_symbol', 'vt_sweep_undescribe', 'vt_sweep_vacant_slot', 'vt_product_array']:
        getattr(L, f).argtypes = [C.c_void_p, C.c_int]
    L.vt_sweep_script.argtypes = [C.c_void_p, C.c_char_p, C.c_int]
    L.vt_sweep_describe.argtypes = [C.c_void_p, C.c_char_p, C.c_uint32]
    L.vt_sweep_complete.argtypes = [C.c_void_p, C.c_int, C.c_uint64]
    L.vt_product_get.argtypes = [C.c_void_p, C.c_void_p]
    L.vt_show_color(0)


def symbols(mask):
    return [s for k, s in enumerate(SYMBOLS) if mask & (1 << (16 + k))]


# ---------------------------------------------------------------- the rays of a case
def rays_of(c):
    """-> list of segments, each a list of dicts"""
    serial, t = 0, c['t0']
    out = []
    for g in c['segs']:
        seg = []
        n = g['n']
        for k in range(n):
            m = 0 if g['lazy'] and k % g['lazy'] == 0 else MIDDLE
            if k == 0 and g['begin']:
                m = BEGIN | (m if g['beginmiddle'] else 0)
            if k == n - 1 and g['end']:
                m |= END
                if not g['endmiddle']:
                    m &= ~MIDDLE
                if g['endbegin']:
                    m |= BEGIN
            scan = c['configs'][g['config']]['scan']
            a = (g['a0'] + k) % 360.0
            seg.append(dict(marker=m | scan, config=g['firstconfig'] if k == 0 else g['config'], gates=max(1, g['gates'] - (k * 7 % 5 if g['ragged'] else 0)),
                            products=g['products'] if k % 2 == 0 or not g['less'] else g['products'] & ~g['less'], serial=serial, start=t, end=t + g['dt'],
                            a0=a, a1=(a + 1.0) % 360.0, e0=g['e0'], e1=g['e0'] + 0.25, gateSize=g['gateSize']))
            serial += 1
            t += g['dt']
        t += g['pause']
        out.append(seg)
    return out


class Model:
    """What the engine makes of the rays"""
    def __init__(self, depth):
        self.depth, self.start, self.rays, self.open, self.sweeps = depth, 0, [], False, []
        self.gaps, self.single = [], []

    def feed(self, r):
        self.rays.append(r)
        return self.take(len(self.rays) - 1)

    def take(self, j):
        m = self.rays[j]['marker']
        if m & END and self.start == j:
            self.single.append(j)
        elif m & END:
            s = list(range(self.start, j + 1))
            self.start = j
            self.open = bool(m & BEGIN)
            self.sweeps.append(s)
            return s
        elif m & BEGIN:
            self.open = True
            self.gaps += [k for k in range(self.start, j) if not self.rays[k]['marker'] & END]
            self.start = j
        return None

    def flush(self):
        """-> sweep or None"""
        if not self.open or not self.rays:
            return None
        self.rays[-1]['marker'] |= END
        return self.take(len(self.rays) - 1)

    def trim(self, s):
        n = len(s)
        if 360 < n < 380:
            if self.rays[s[1]]['marker'] & BEGIN:
                return s[1:361]
            if n > 361:
                return s[n - 361:n - 1]
            if self.rays[s[0]]['marker'] & BEGIN:
                return s[:360]
        return s


def expect(c, m, s, record):
    """the products of sweep s -> list of (symbol, filename, header, rays)"""
    R = [m.rays[k] for k in m.trim(s)]
    have = 0
    for k in s:
        have |= m.rays[k]['products']
    cfg = c['configs'][R[1]['config']]
    name = time.strftime(c['path'] + 'moment/%Y%m%d/' + c['prefix'] + '-%Y%m%d-%H%M%S', time.gmtime(R[0]['start']))
    name += '-E%.1f' % F(cfg['el']) if cfg['scan'] == PPI else '-A%.1f' % F(cfg['az']) if cfg['scan'] == RHI else '-N%03d' % len(R)
    ok = record and len(R) >= 3 and F(sum(r['marker'] & 1 for r in R)) / F(len(R)) >= F(0.8)
    return R, [x for x in symbols(c['list']) if x in symbols(have)], name, ok, cfg


def check_product(L, c, p, sym, R, cfg, where):
    v = aligned(1, PRO)
    L.vt_product_get(p, ptr(v))
    v = v[0]
    f = np.array(cfg['f'], F)
    n, g = len(R), R[0]['gates']
    got = dict(symbol=v['symbol'].decode(), rays=int(v['rays']), gates=int(v['gates']), start=int(v['start']), end=int(v['end']), ppi=int(v['ppi']), rhi=int(v['rhi']), radar=v['radarName'].decode(), waveform=v['waveformName'].decode(),
               vcp=v['vcp'].decode())
    want = dict(symbol=sym, rays=n, gates=g, start=R[0]['start'], end=R[-1]['end'], ppi=int(cfg['scan'] == PPI), rhi=int(cfg['scan'] == RHI), radar=c['radar'], waveform=cfg['waveform'], vcp=cfg['vcp'])
    need(got == want, '%s %s: header %s, expected %s', where, sym, got, want)
    if sym in NAMES:
        need(v['name'].decode() == NAMES[sym], '%s %s: name %s', where, sym, v['name'])
    d = c['desc']
    num = [('lat', d[0]), ('lon', d[1]), ('heading', F(d[2])), ('height', F(d[3])), ('wavelength', F(d[4])), ('sel', F(cfg['el'])), ('saz', F(cfg['az'])), ('gateSize', F(R[0]['gateSize'])), ('prt', f[:8]), ('pw', f[8:16]),
           ('ZCal', np.stack([f[16:24], f[24:32]], 1)), ('DCal', f[32:40]), ('PCal', f[40:48]), ('noise', f[48:50]), ('systemZCal', f[50:52]), ('systemDCal', f[52]), ('systemPCal', f[53]), ('snr', f[54]), ('sqi', f[55])]
    for k, w in num:
        need(np.array_equal(v[k], w), '%s %s: header %s is %s, expected %s', where, sym, k, v[k].tolist(), np.asarray(w).tolist())
    for k, key in enumerate(['a0', 'a1', 'e0', 'e1']):
        a = np.ctypeslib.as_array(C.cast(L.vt_product_array(p, k), C.POINTER(C.c_float)), (n,))
        need(np.array_equal(a, np.array([r[key] for r in R], F)), '%s %s: angles %d are %s', where, sym, k, a[:5].tolist())
    x = np.ctypeslib.as_array(C.cast(L.vt_product_array(p, 4), C.POINTER(C.c_float)), (n, g))
    w = (np.array([r['serial'] for r in R]) * 19.0 + SYMBOLS.index(sym))[:, None] + np.arange(g)[None, :] / 64.0
    common = np.arange(g)[None, :] < np.array([r['gates'] for r in R])[:, None]
    bad = np.argwhere((x != w.astype(F)) & common)
    need(len(bad) == 0, '%s %s: %d wrong gates of %d x %d, first ray %s, has %s, expected %s', where, sym, len(bad), n, g, bad[:1].tolist(), x[tuple(bad[0])] if len(bad) else 0, w[tuple(bad[0])] if len(bad) else 0)


def run_sweeps(L, c, ctx):
    setup(L)
    d = scratch()
    try:
        return sweeps(L, c, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sweeps(L, c, ctx, d):
    c = dict(c, path=d + '/data/' if c['datapath'] else d + '/')
    segs = rays_of(c)
    # the longest sweep decides the buffer
    m = Model(0)
    for k, seg in enumerate(segs):
        for r in seg:
            m.feed(dict(r))
        if c['segs'][k]['flush']:
            m.flush()
    longest = max([len(s) for s in m.sweeps] + [len(m.rays) - m.start] + [max(np.diff([0] + [s[0] for s in m.sweeps] + [len(m.rays)]), default=1)])
    depth = max(2 * int(longest) + 64, c['depth'])
    desc = np.array(c['desc'], float)
    s = L.vt_sweep_new(depth, 64, len(c['configs']), c['list'], c['path'][:-1].encode(), c['prefix'].encode(), c['radar'].encode(), ptr(desc))
    for k, g in enumerate(c['configs']):
        f = np.array(g['f'], F)
        L.vt_sweep_config(s, k, g['scan'] | MIDDLE, g['el'], g['az'], ptr(f), g['waveform'].encode(), g['vcp'].encode())
    script = ''
    if c['script']:
        script = d + '/handle.sh'
        open(script, 'w').close()
        L.vt_sweep_script(s, script.encode(), 0)
    L.vt_system_reset()
    commands = ''
    need(L.vt_sweep_start(s) == 0, 'the engine did not start')
    m = Model(depth)
    pend = None          # (sweep, record) in progress
    recorded = 0
    try:
        def finish():
            nonlocal pend, recorded, commands
            if pend is None:
                return
            sw, rec, k = pend
            pend = None
            L.vt_sweep_hold(0)
            need(L.vt_sweep_settle(s, int(m.open)) == 0, 'sweep %d: %d sweeps in progress, expected %d', k, L.vt_sweep_business(s), m.open)
            R, syms, name, ok, cfg = expect(c, m, sw, rec)
            files = [name + '-' + x + '.nc' for x in syms] if ok else []
            n = L.vt_sweep_record_count()
            got = [L.vt_sweep_record_name(i).decode() for i in range(recorded, n)]
            need(got == files, 'sweep %d of %d rays: files %s, expected %s', k, len(sw), got, files)
            where = 'sweep %d of %d rays' % (k, len(sw))
            for i, x in enumerate(syms):
                if ok:
                    check_product(L, c, L.vt_sweep_record(recorded + i), x, R, cfg, where)
                slot = symbols(c['list']).index(x)
                check_product(L, c, L.vt_sweep_slot(s, slot), x, R, cfg, where + ', in the buffer')
                need(L.vt_sweep_slot_flag(s, slot) == 1, '%s: flag of %s is %d', where, x, L.vt_sweep_slot_flag(s, slot))
            if ok:
                need(os.path.isdir(os.path.dirname(files[0])) if files else True, '%s: no folder for %s', where, files[:1])
                if script and files:
                    commands += script + ' ' + ' '.join(files) + '\n'
            recorded = n
            calls = L.vt_system_calls().decode()
            need(calls == commands, '%s: commands %s, expected %s', where, calls[-400:], commands[-400:])
            if ok and files:
                ctx.cls('recorded')
                ctx.cls('scan %d' % cfg['scan'])
            if len(R) != len(sw):
                ctx.cls('trimmed to 360')
            need(L.vt_sweep_index(s) == k + 1, '%s: sweep index %d, expected %d', where, L.vt_sweep_index(s), k + 1)

        def sent(sw):
            nonlocal pend
            pend = (sw, record, len(m.sweeps) - 1)

        record = c['record']
        L.vt_sweep_record_set(s, record)
        for q, seg in enumerate(segs):
            g = c['segs'][q]
            if g['toggle']:
                finish()
                record = not record
                L.vt_sweep_record_set(s, record)
            a = np.zeros(len(seg), RAY)
            for i, r in enumerate(seg):
                for key in RAY.names:
                    if not key.startswith('pad'):
                        a[i][key] = r[key]
            i = 0
            while i < len(seg):
                e = i + 1
                # up to the ray that ends a sweep
                sw = m.feed(seg[i])
                while sw is None and e < len(seg) and not seg[e]['marker'] & END:
                    sw = m.feed(seg[e])
                    e += 1
                b = np.ascontiguousarray(a[i:e])
                if sw is not None:
                    # the previous one must have been finished, its writer may have been held up to here
                    save, m.open = m.open, opened
                    finish()
                    m.open = save
                    L.vt_sweep_hold(int(g['hold']))
                else:
                    opened = m.open
                need(L.vt_sweep_feed(s, ptr(b), len(b), 1) == 0, 'the engine does not take ray %d: %s', len(m.rays) - 1, L.vt_sweep_state(s))
                if sw is not None:
                    sent(sw)
                    if not g['hold']:
                        finish()
                    else:
                        ctx.cls('held')
                opened = m.open
                i = e
            if g['flush']:
                finish()
                sw = m.flush()
                L.vt_sweep_flush(s)
                if sw is not None:
                    for _ in range(20000):
                        if not L.vt_sweep_reserved(s):
                            break
                        time.sleep(0.0005)
                    sent(sw)
                    finish()
                    ctx.cls('flushed')
                opened = m.open
        finish()
        status = None
    finally:
        L.vt_sweep_hold(0)
        L.vt_sweep_stop(s)
        status = [L.vt_sweep_status(s, k) for k in range(depth)]
        business = L.vt_sweep_business(s)
        L.vt_sweep_delete(s)
    # the rays
    n = len(m.rays)
    def st_of(k):
        return status[k % depth] if n - k <= depth else None
    shared = set(m.single) | set(m.gaps)
    alike = len({depth // len(sw) % 256 >= 6 for sw in m.sweeps}) <= 1      # sweeps of similar lengths
    for back, sw in enumerate(reversed(m.sweeps)):
        for k in sw:
            v = st_of(k)
            if v is None or k in shared:
                continue
            if back == 0 or (back == 1 and k != sw[0]):
                need(v & READY, 'ray %d of %s is given back', k, ['the latest sweep', 'the sweep before the latest'][back])
            elif back >= 5 and alike:
                ctx.cls('rays given back')
                need(v == 0, 'ray %d of sweep %d is not given back, %d sweeps later: %#x', k, len(m.sweeps) - 1 - back, back, v)
    for k in m.gaps:
        v = st_of(k)
        need(v in (None, 0), 'ray %d of no sweep is not given back: %#x', k, v)
    for k in range((m.sweeps[-1][-1] if m.sweeps else -1) + 1, n):
        v = st_of(k)
        if k not in shared:
            need(v is None or v & READY, 'ray %d of the sweep in progress is given back', k)
    need(business == 0, '%d sweeps in progress after the engine stopped', business)
    ctx.cls('wrapped' if n > depth else 'not wrapped')
    ctx.cls('%d sweeps' % min(len(m.sweeps), 8))
    return len(m.sweeps) >= 2


def seg():
    few = st.integers(1, 12)
    return st.fixed_dictionaries(dict(
        n=st.one_of(few, few, few, st.sampled_from([2, 3, 4, 30, 90, 91]), st.sampled_from([359, 360, 361, 362, 363, 370, 379, 380, 381, 400])),
        begin=st.sampled_from([True] * 5 + [False]), end=st.sampled_from([True] * 6 + [False]), endbegin=st.sampled_from([False] * 2 + [True]), beginmiddle=st.booleans(), endmiddle=st.booleans(),
        lazy=st.sampled_from([0, 0, 0, 0, 2, 4, 5, 6]), config=st.integers(0, 3), firstconfig=st.integers(0, 3), gates=st.one_of(st.integers(1, 12), st.sampled_from([1, 63, 64])), ragged=st.sampled_from([False] * 7 + [True]),
        products=st.sampled_from([0x007F0000, 0x00010000, 0x00030000, 0xFFFF0000, 0xFC7F0000, 0x007D0000, 0]), less=st.sampled_from([0, 0, 0, 0x00100000, 0x007F0000]), a0=st.integers(0, 359).map(float), e0=st.floats(-5, 90, width=32),
        gateSize=st.sampled_from([7.5, 15.0, 30.0, 250.0]), dt=st.sampled_from([0, 1, 1, 60, 3700]), pause=st.sampled_from([0, 0, 5, 86400]), hold=st.booleans(), toggle=st.sampled_from([False] * 5 + [True]),
        flush=st.sampled_from([False] * 6 + [True])))


name = st.text('abcXYZ019_', min_size=1, max_size=12)


def config():
    return st.fixed_dictionaries(dict(scan=st.sampled_from([PPI, PPI, RHI, POINT, 0]), el=st.floats(-5, 90, width=32), az=st.floats(0, 360, width=32), f=st.lists(st.floats(-1e6, 1e6, width=32), min_size=56, max_size=56, unique=True),
                                      waveform=name, vcp=st.text('pr 0:2,90;', max_size=30)))


@st.composite
def sweep_cases(draw):
    n = draw(st.sampled_from([3, 6, 10, 14]))
    return draw(st.fixed_dictionaries(dict(
        segs=st.lists(seg(), min_size=n, max_size=n), configs=st.lists(config(), min_size=4, max_size=4), list=st.sampled_from([0xFC7F0000, 0xFC7F0000, 0xFFFF0000, 0x007F0000, 0x00050000, 0x00010000]), record=st.sampled_from([True, True, True, False]),
        script=st.booleans(), prefix=st.text('PX10k', min_size=1, max_size=7), radar=name, datapath=st.booleans(), t0=st.integers(0, 2 ** 31 - 10 ** 8), depth=st.sampled_from([50, 50, 100, 300, 1000, 4000]),
        desc=st.lists(st.floats(-90, 90, width=32), min_size=5, max_size=5))))


# ---------------------------------------------------------------- products
def run_slots(L, c, ctx):
    setup(L)
    s = L.vt_sweep_new(100, 64, 2, c['list'], b'/nonexistent', b'x', b'x', ptr(np.zeros(5)))
    slots = [None] * 20
    try:
        if c['start']:
            need(L.vt_sweep_start(s) == 0, 'the engine did not start')
            for k, x in enumerate(symbols(c['list'])):
                slots[k] = x
            ctx.cls('running')
        for op, a, sym in c['ops']:
            if op == 'describe':
                r = L.vt_sweep_describe(s, sym.encode(), a)
                free = [k for k in range(20) if slots[k] is None]
                need(r == (42 + free[0] if free else 0), 'describing %s gives %d with %d slots free', sym, r, len(free))
                if free:
                    slots[free[0]] = sym
                else:
                    ctx.cls('full')
            elif op == 'release':
                k = a % 24
                r = L.vt_sweep_undescribe(s, 42 + k)
                held = k < 20 and slots[k] is not None
                need((r == 0) == held, 'releasing product %d gives %d, it is %s', 42 + k, r, 'described' if held else 'not described')
                if held:
                    slots[k] = None
            else:
                k = a % 24
                r = L.vt_sweep_vacant_slot(s, 42 + k)
                held = k < 20 and slots[k] is not None
                need(r == (k if held else -1), 'product %d: slot %d, it is %s', 42 + k, r, 'described' if held else 'not described')
                if held:
                    need(L.vt_sweep_slot_flag(s, k) & 1, 'product %d is not active', 42 + k)
                    if op == 'fill':
                        need(L.vt_sweep_complete(s, k, a) == 0, 'product %d cannot be completed', 42 + k)
                        need(L.vt_sweep_slot_flag(s, k) == 1, 'product %d: flag %d', 42 + k, L.vt_sweep_slot_flag(s, k))
            for k in range(20):
                got = (L.vt_sweep_slot_flag(s, k) & 1, L.vt_sweep_slot_id(s, k), L.vt_sweep_slot_symbol(s, k).decode())
                want = (1, 42 + k, slots[k]) if slots[k] is not None else (0, 0, '')
                need(got == want, 'slot %d: %s, expected %s', k, got, want)
    finally:
        if c['start']:
            L.vt_sweep_stop(s)
            left = [L.vt_sweep_slot_symbol(s, k).decode() for k in range(20)]
        L.vt_sweep_delete(s)
    return len(c['ops']) >= 4


ops = st.tuples(st.sampled_from(['describe'] * 4 + ['release', 'release', 'get', 'fill']), st.one_of(st.integers(0, 23), st.integers(0, 2 ** 32 - 1)), st.text('ABCxyz', min_size=1, max_size=7))


@st.composite
def slot_cases(draw):
    n = draw(st.sampled_from([3, 10, 30, 60]))
    return draw(st.fixed_dictionaries(dict(ops=st.lists(ops, min_size=n, max_size=n), start=st.booleans(), list=st.sampled_from([0xFC7F0000, 0x00010000, 0xFFFF0000, 0]))))


# ---------------------------------------------------------------- sweeps without end
def run_long(L, c, ctx):
    setup(L)
    d = scratch()
    s = L.vt_sweep_new(c['depth'], 64, 2, 0x00010000, d.encode(), b'x', b'x', ptr(np.zeros(5)))
    L.vt_sweep_start(s)
    L.vt_sweep_record_set(s, 1)
    try:
        a = np.zeros(c['n'], RAY)
        a['marker'] = MIDDLE | PPI
        a['marker'][0] |= BEGIN
        a['marker'][-1] |= END
        a['gates'], a['products'], a['serial'], a['gateSize'] = 4, 0x00010000, np.arange(c['n']), 1.0
        need(L.vt_sweep_feed(s, ptr(a), len(a), 1) == 0, 'the engine does not take the rays')
        need(L.vt_sweep_settle(s, 0) == 0, 'the sweep does not come to its end')
        need(L.vt_sweep_record_count() == 1, '%d products', L.vt_sweep_record_count())
        v = aligned(1, PRO)
        L.vt_product_get(L.vt_sweep_record(0), ptr(v))
        limit = min(1500, c['depth'])
        need(v[0]['rays'] <= limit, 'a sweep of %d rays', v[0]['rays'])
        if c['n'] <= limit and not 360 < c['n'] < 380:
            need(v[0]['rays'] == c['n'], 'a sweep of %d rays, expected %d', v[0]['rays'], c['n'])
    finally:
        L.vt_sweep_stop(s)
        L.vt_sweep_delete(s)
    shutil.rmtree(d, ignore_errors=True)
    ctx.cls('longer than the limit' if c['n'] > limit else 'within the limit')
    return c['n'] > 100


long_cases = st.fixed_dictionaries(dict(depth=st.sampled_from([200, 1000, 1600, 3200, 4000]), n=st.one_of(st.integers(150, 1700), st.sampled_from([1499, 1500, 1501, 1502]))))

SUBS = [
    Sub('sweeps', sweep_cases, run_sweeps, 1000, 8000, hang=180, replay_need=1),
    Sub('slots', slot_cases, run_slots, 1200, 12000, hang=60),
    Sub('long', lambda: long_cases, run_long, 40, 200, hang=90, replay_need=1),
]
PROBES = {}
