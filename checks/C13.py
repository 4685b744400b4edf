"""A product file holds the product it was written from, and reading it gives the product back."""
import ctypes as C
import math, os, resource, shutil, warnings
import numpy as np
from hypothesis import strategies as st
from scipy.io import netcdf_file
from vt.core import Sub, need, scratch
from vt.num import aligned, ptr

ID = 'C13'
RULE = ('products (any dimensions, scan type, texts, values with non-finite gates) written to files that are parsed with scipy and read back into fresh or used products; products that cannot be written; disks that fill up; '
        'directories of product files read as collections and sweeps; products filled from sweeps; files of any other structure; non-trivial = more than one ray and gate, or a refused write; distinct by case content')
ASSUMPTIONS = ['classic netCDF, as compiled by default', 'start times up to 2038', 'PRT of at least 10 us', 'product names are netCDF names']

PRO = np.dtype([('name', 'S128'), ('unit', 'S128'), ('colormap', 'S128'), ('symbol', 'S8'), ('radarName', 'S128'), ('waveformName', 'S128'), ('vcp', 'S512'), ('lat', 'f8'), ('lon', 'f8'), ('heading', 'f4'),
                ('height', 'f4'), ('wavelength', 'f4'), ('sel', 'f4'), ('saz', 'f4'), ('gateSize', 'f4'), ('rays', 'u4'), ('gates', 'u4'), ('ppi', 'u4'), ('rhi', 'u4'), ('start', 'i8'), ('end', 'i8'),
                ('prt', 'f4', 8), ('pw', 'f4', 8), ('noise', 'f4', 2), ('systemZCal', 'f4', 2), ('systemDCal', 'f4'), ('systemPCal', 'f4'), ('ZCal', 'f4', (8, 2)), ('DCal', 'f4', 8), ('PCal', 'f4', 8),
                ('snr', 'f4'), ('sqi', 'f4'), ('capacity', 'u4')], align=True)
F = np.float32
MISSING, FOLDED = F(-99900.0), F(-99901.0)
BASE = ['Z', 'V', 'W', 'D', 'P', 'R', 'K']
NAMES = dict(zip(BASE, ['Intensity', 'Radial_Velocity', 'Width', 'Differential_Reflectivity', 'PhiDP', 'RhoHV', 'KDP']))
MOMENTS = BASE + ['Sh', 'Sv', 'Q', 'Lh', 'Lv', 'Rxh', 'Rxv', 'Pxh', 'Pxv']
SCANS = ['ppi', 'rhi', 'point']

text = st.one_of(st.text('abcXYZ 0129_-/.%"{}', max_size=12), st.sampled_from(['', 'x' * 127, 'dBZ', 'MetersPerSecond']))
longtext = st.one_of(st.text('abc 019:;,./', max_size=30), st.sampled_from(['', 'v' * 511, 'w' * 200]))
name = st.one_of(st.sampled_from(['Intensity', 'Radial_Velocity', 'RhoHV', 'n' * 127]), st.from_regex(r'[A-Za-z][A-Za-z0-9_]{0,15}', fullmatch=True))
f32 = st.one_of(st.floats(-1e6, 1e6, width=32), st.sampled_from([0.0, -0.0, 1.0, 1e-30, 3.4e38]))


def product():
    return st.fixed_dictionaries(dict(
        rays=st.one_of(st.integers(1, 12), st.sampled_from([1, 90, 360, 361])), gates=st.one_of(st.integers(1, 12), st.sampled_from([1, 100, 101, 250])), scan=st.sampled_from(SCANS), name=name,
        texts=st.tuples(text, text, text, text), vcp=longtext, symbol=st.sampled_from(MOMENTS + ['ABCDEFG', 'u1']), lat=st.floats(-90, 90), lon=st.floats(-180, 180), floats=st.lists(f32, min_size=25, max_size=25),
        gateSize=st.floats(F(0.1), 1000, width=32), start=st.one_of(st.integers(1, 2 ** 31 - 1), st.sampled_from([1, 2 ** 31 - 1])),
        prt=st.one_of(st.floats(F(1e-5), 3, width=32), st.sampled_from([0.0, 1e-3, 0.00076923, 0.0029, 2.5, 0.7])), pw=st.one_of(st.floats(0, F(1e-3), width=32), st.sampled_from([0.0, 1e-6, 6.7e-5])), wavelength=st.floats(F(1e-4), 1, width=32),
        bad=st.sampled_from([0.0, 0.1, 0.5, 1.0]), seed=st.integers(0, 2 ** 32 - 1)))


def record(c):
    v = aligned(1, PRO)
    r = v[0]
    unit, cmap, radar, wave = [t.encode()[:127] for t in c['texts']]
    f = [F(x) for x in c['floats']]
    r['name'], r['unit'], r['colormap'], r['symbol'], r['radarName'], r['waveformName'], r['vcp'] = c['name'].encode()[:127], unit, cmap, c['symbol'].encode(), radar, wave, c['vcp'].encode()
    r['lat'], r['lon'] = c['lat'], c['lon']
    for k, n in enumerate(['heading', 'height', 'sel', 'saz', 'systemDCal', 'systemPCal', 'snr', 'sqi']):
        r[n] = f[k]
    r['noise'], r['systemZCal'] = f[8:10], f[10:12]
    r['ZCal'] = np.arange(16).reshape(8, 2)
    r['ZCal'][:2] = np.array(f[12:16]).reshape(2, 2)
    r['DCal'], r['PCal'] = np.arange(8) + 50, np.arange(8) + 90
    r['DCal'][:2], r['PCal'][:2] = f[16:18], f[18:20]
    r['prt'], r['pw'] = 0.5, 0.25
    r['prt'][0], r['pw'][0] = c['prt'], c['pw']
    r['wavelength'], r['gateSize'], r['rays'], r['gates'], r['start'], r['end'] = c['wavelength'], c['gateSize'], c['rays'], c['gates'], c['start'], c['start'] + 7
    r['ppi'], r['rhi'] = c['scan'] == 'ppi', c['scan'] == 'rhi'
    return v


def arrays(c):
    rng = np.random.default_rng(c['seed'])
    n, g = c['rays'], c['gates']
    a = np.zeros((4, n), F)
    a[0] = np.mod(rng.uniform(0, 360) + np.cumsum(rng.choice([-1, 1]) * rng.uniform(0.1, 3, n)), 360)
    a[1] = np.mod(a[0] + rng.uniform(0, 2, n), 360)
    a[2] = np.mod(rng.uniform(0, 90) + np.cumsum(rng.uniform(-1, 1, n)), 360)
    a[3] = np.mod(a[2] + rng.uniform(0, 2, n), 360)
    d = (rng.standard_normal((n, g)) * 30).astype(F)
    q = rng.random((n, g)) < c['bad']
    d[q] = rng.choice(np.array([np.nan, np.inf, -np.inf, -99900.0, -99901.0, 0.0, 3e38, 1e-40], F), q.sum())
    return a, d


class Product:
    def __init__(self, L, rays, gates):
        self.L, self.rays, self.gates = L, rays, gates
        self.p = C.c_void_p(L.vt_product_new(C.c_uint32(rays), C.c_uint32(gates)))

    def array(self, k, n):
        p = self.L.vt_product_array(self.p, k)
        return np.ctypeslib.as_array(C.cast(p, C.POINTER(C.c_float)), (n,)) if n else np.zeros(0, F)

    def get(self):
        v = aligned(1, PRO)
        self.L.vt_product_get(self.p, ptr(v))
        return v[0]

    def free(self):
        self.L.vt_product_free(self.p)


def setup(L):
    for f in ('vt_product_new', 'vt_product_array', 'vt_collection', 'vt_collection_product', 'vt_sweep_read', 'vt_sweep_ray', 'RKProductFileReaderNC'):
        getattr(L, f).restype = C.c_void_p
    L.vt_product_hash.restype = C.c_uint64
    need(L.vt_product_size() == PRO.itemsize, 'layout')


def make(L, c):
    a, d = arrays(c)
    p = Product(L, c['rays'], c['gates'])
    v = record(c)
    L.vt_product_set(p.p, ptr(v))
    for k in range(4):
        p.array(k, c['rays'])[:] = a[k]
    p.array(4, d.size)[:] = d.ravel()
    return p, v[0], a, d


def same(x, y):
    return x.tobytes() == y.tobytes()


def span(a, b):
    """Angle from b to a, positive."""
    d = (a - b).astype(F)
    return np.where(d < 0, d + F(360), d)


def parse(path, c, v, a, d, what):
    """The file, through an independent reader."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        n = netcdf_file(path, 'r', mmap=False)
    rays, gates = c['rays'], c['gates']
    first = {'ppi': 'Azimuth', 'rhi': 'Elevation', 'point': 'Beam'}[c['scan']]
    need(dict(n.dimensions) == {first: rays, 'Gate': gates}, '%s: dimensions %s', what, dict(n.dimensions))
    got = {k: np.array(x.data).astype(F) for k, x in n.variables.items()}
    key = v['name'].decode()
    need(set(got) == {'Azimuth', 'Elevation', 'Beamwidth', 'GateWidth', key}, '%s: variables %s', what, sorted(got))
    need(same(got['Azimuth'], a[0]) and same(got['Elevation'], a[2]), '%s: angles of the file differ', what)
    w = span(a[1], a[0]) if c['scan'] == 'ppi' else (span(a[3], a[2]) if c['scan'] == 'rhi' else np.zeros(rays, F))
    need(np.abs(np.mod(got['Beamwidth'] - w + 180, 360) - 180).max() < 1e-3 and got['Beamwidth'].min() >= -1e-3, '%s: beam width %s, expected %s', what, got['Beamwidth'][:5], w[:5])
    need((got['GateWidth'] == v['gateSize']).all(), '%s: gate width', what)
    want = np.where(np.isfinite(d), d, MISSING)
    need(got[key].shape == d.shape and same(got[key], want), '%s: data of the file differ', what)
    need(bytes(n.variables[key].Units) == bytes(v['unit']), '%s: units', what)
    at = n._attributes
    t = lambda k: at[k] if isinstance(at[k], bytes) else bytes(at[k])
    for k, x in (('TypeName', v['name']), ('DataType', b'RadialSet'), ('ScanType', {'ppi': b'PPI', 'rhi': b'RHI', 'point': b'Unknown'}[c['scan']]), ('Unit-value', v['unit']), ('ColorMap-value', v['colormap']),
                 ('radarName-value', v['radarName']), ('Waveform', v['waveformName']), ('RadarKit-VCP-Definition', v['vcp'])):
        need(t(k) == bytes(x), '%s: %s is %r, expected %r', what, k, t(k), bytes(x))
    with np.errstate(all='ignore'):
        va = F(0.25) * v['wavelength'] / v['prt'][0]
        prf = int(np.rint(np.floor(F(1) / v['prt'][0] + F(0.5)))) if v['prt'][0] > 0 else 0
    for k, x in (('LatitudeDouble', v['lat']), ('LongitudeDouble', v['lon']), ('Latitude', F(v['lat'])), ('Longitude', F(v['lon'])), ('Heading', v['heading']), ('Height', v['height']), ('Time', v['start']),
                 ('FractionalTime', 0), ('Wavelength-value', v['wavelength']), ('Elevation', v['sel'] if c['scan'] == 'ppi' else MISSING), ('Azimuth', v['saz'] if c['scan'] == 'rhi' else MISSING),
                 ('GateSize', v['gateSize']), ('RangeToFirstGate', 0), ('MissingData', MISSING), ('RangeFolded', FOLDED), ('NoiseH-ADU', v['noise'][0]), ('NoiseV-ADU', v['noise'][1]),
                 ('SystemZCalH-dB', v['systemZCal'][0]), ('SystemZCalV-dB', v['systemZCal'][1]), ('SystemDCal-dB', v['systemDCal']), ('SystemPCal-Radians', v['systemPCal']),
                 ('ZCalH1-dB', v['ZCal'][0][0]), ('ZCalV1-dB', v['ZCal'][1][0]), ('ZCalH2-dB', v['ZCal'][0][1]), ('ZCalV2-dB', v['ZCal'][1][1]), ('DCal1-dB', v['DCal'][0]), ('DCal2-dB', v['DCal'][1]),
                 ('PCal1-Radians', v['PCal'][0]), ('PCal2-Radians', v['PCal'][1]), ('SNRThreshold-dB', v['snr']), ('SQIThreshold-dB', v['sqi'])):
        need(float(at[k]) == float(x), '%s: %s is %s, expected %s', what, k, at[k], x)
    need(abs(int(at['PRF-value']) - prf) <= (1 if abs((1.0 / float(v['prt'][0]) if prf else 0.3) % 1 - 0.5) < 0.02 else 0), '%s: PRF %s, expected %s', what, at['PRF-value'], prf)
    for k, x in (('Nyquist_Vel-value', va), ('PulseWidth-value', float(v['pw'][0]) * 1e6), ('MaximumRange-value', 1e-3 * float(v['gateSize']) * gates)):
        x = float(x)
        if math.isfinite(x):
            need(abs(float(at[k]) - x) <= 1e-5 * abs(x), '%s: %s is %s, expected %s', what, k, at[k], x)
    for k, x in (('Wavelength-unit', b'Meters'), ('PRF-unit', b'Hertz'), ('PulseWidth-unit', b'MicroSeconds'), ('MaximumRange-unit', b'KiloMeters'), ('Nyquist_Vel-unit', b'MetersPerSecond')):
        need(t(k) == x, '%s: %s is %r', what, k, t(k))
    n.close()
    return int(at['PRF-value'])


def compare(g, c, v, prf, symbol, what):
    """Header of a product that was read back."""
    for k in ('name', 'unit', 'colormap', 'radarName', 'waveformName', 'vcp'):
        need(bytes(g[k]).split(b'\0')[0] == bytes(v[k]), '%s: %s is %r, written %r', what, k, bytes(g[k]), bytes(v[k]))
    need(bytes(g['symbol']).split(b'\0')[0] == symbol, '%s: symbol %r', what, bytes(g['symbol']))
    for k in ('rays', 'gates', 'ppi', 'rhi', 'start', 'lat', 'lon', 'heading', 'height', 'wavelength', 'gateSize', 'systemDCal', 'systemPCal', 'snr', 'sqi'):
        need(g[k] == v[k], '%s: %s is %s, written %s', what, k, g[k], v[k])
    need(c['scan'] != 'ppi' or g['sel'] == v['sel'], '%s: elevation', what)
    need(c['scan'] != 'rhi' or g['saz'] == v['saz'], '%s: azimuth', what)
    for k in ('noise', 'systemZCal'):
        need((g[k] == v[k]).all(), '%s: %s is %s, written %s', what, k, g[k], v[k])
    for k in ('ZCal', 'DCal', 'PCal'):
        need((g[k][:2] == v[k][:2]).all(), '%s: %s is %s, written %s', what, k, g[k][:2], v[k][:2])
    need(abs(float(g['prt'][0]) - (1.0 / prf if prf else 1e-3)) <= 1e-6 / (prf or 1000), '%s: prt %s, PRF %d', what, g['prt'][0], prf)
    need(abs(float(g['pw'][0]) - float(v['pw'][0])) <= 1e-5 * float(v['pw'][0]), '%s: pw %s, written %s', what, g['pw'][0], v['pw'][0])


def nan(d):
    return np.where(np.isfinite(d) & (d != MISSING) & (d != FOLDED), d, F(np.nan))


def content(p, n, g, a, d, what):
    need(same(p.array(0, n).copy(), a[0]) and same(p.array(2, n).copy(), a[2]), '%s: angles differ', what)
    x, y = p.array(4, n * g).reshape(n, g), nan(d)
    q = (x == y) | np.isnan(x) & np.isnan(y)
    if not q.all():
        need(False, '%s: data differ at %s: %s, written %s', what, tuple(np.argwhere(~q)[0]), x[~q][0], y[~q][0])


def run(L, c, ctx):
    setup(L)
    D = scratch()
    used = None
    try:
        big = max(p['rays'] for p in c['products']), max(p['gates'] for p in c['products'])
        for k, pc in enumerate(c['products']):
            p, v, a, d = make(L, pc)
            path = os.path.join(D, 'XX-20200102-030405-E1.%d-%s.nc' % (k, pc['symbol']))
            what = 'product %d' % k
            before = L.vt_product_hash(p.p), [p.array(j, pc['rays']).tobytes() for j in range(4)], p.array(4, d.size).tobytes()
            r = L.RKProductFileWriterNC(p.p, path.encode())
            need(r == 0, '%s: not written (%d)', what, r)
            need(before == (L.vt_product_hash(p.p), [p.array(j, pc['rays']).tobytes() for j in range(4)], p.array(4, d.size).tobytes()), '%s: changed by writing it', what)
            p.free()
            prf = parse(path, pc, v, a, d, what)
            rays, gates = C.c_uint32(77), C.c_uint32(77)
            L.RKProductDimensionsFromFile(path.encode(), C.byref(rays), C.byref(gates))
            need((rays.value, gates.value) == (pc['rays'], pc['gates']), '%s: dimensions %s', what, (rays.value, gates.value))
            if c['fresh']:
                q = L.RKProductFileReaderNC(path.encode(), C.c_bool(c['show']))
                need(q, '%s: not read', what)
                g = Product.__new__(Product)
                g.L, g.p = L, C.c_void_p(q)
            else:
                if used is None:
                    used = Product(L, *big)
                    for j in range(4):
                        used.array(j, big[0])[:] = 5
                    used.array(4, big[0] * big[1])[:] = 5
                else:
                    h = aligned(1, PRO)
                    L.vt_product_get(used.p, ptr(h))
                    h['rays'], h['gates'] = big
                    L.vt_product_set(used.p, ptr(h))
                g = used
                L.RKProductReadFileIntoBuffer(g.p, path.encode(), C.c_bool(c['show']))
            compare(g.get(), pc, v, prf, pc['symbol'].encode(), what)
            content(g, pc['rays'], pc['gates'], a, d, what)
            if c['fresh']:
                g.free()
            ctx.cls(pc['scan'])
    finally:
        if used is not None:
            used.free()
        shutil.rmtree(D, ignore_errors=True)
    ctx.cls('fresh product' if c['fresh'] else 'used product')
    return any(p['rays'] > 1 and p['gates'] > 1 for p in c['products'])


def strat():
    return st.fixed_dictionaries(dict(products=st.lists(product(), min_size=1, max_size=3), fresh=st.booleans(), show=st.booleans()))


# ---------------------------------------------------------------- products that cannot be written
def run_refused(L, c, ctx):
    setup(L)
    D = scratch()
    try:
        p, v, a, d = make(L, c['product'])
        path = os.path.join(D, 'f.nc')
        h = aligned(1, PRO)
        L.vt_product_get(p.p, ptr(h))
        why = c['why']
        if why == 'name':
            h['name'] = b''
        elif why == 'rays':
            h['rays'] = 0
        elif why == 'gates':
            h['gates'] = 0
        elif why == 'time':
            h['start'] = 0
        elif why == 'gate size':
            h['gateSize'] = 0
        elif why == 'bad name':
            h['name'] = c['bad'].encode()
        elif why == 'folder':
            path = os.path.join(D, 'none', 'f.nc')
        elif why == 'directory':
            os.mkdir(path)
        L.vt_product_set(p.p, ptr(h))
        data = p.array(4, d.size).tobytes()
        if why == 'full':
            need(L.RKProductFileWriterNC(p.p, path.encode()) == 0, 'not written')
            size = os.path.getsize(path)
            os.unlink(path)
            limit = min(size, int(c['part'] * (size + 1)))
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                r = L.RKProductFileWriterNC(p.p, path.encode())
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            need((r == 0) == (limit >= size), 'returned %d with room for %d of %d bytes', r, limit, size)
            ctx.cls('room for all' if r == 0 else 'full disk')
        else:
            r = L.RKProductFileWriterNC(p.p, path.encode())
            need(r != 0, '%s: returned 0', why)
            if why in ('name', 'rays', 'gates', 'time', 'gate size', 'folder'):
                need(not os.path.exists(path), '%s: there is a file', why)
            ctx.cls(why)
        need(p.array(4, d.size).tobytes() == data, '%s: data changed', why)
        p.free()
    finally:
        shutil.rmtree(D, ignore_errors=True)
    return True


def strat_refused():
    return st.fixed_dictionaries(dict(product=product(), why=st.sampled_from(['name', 'rays', 'gates', 'time', 'gate size', 'bad name', 'folder', 'directory', 'full', 'full', 'full']),
                                      bad=st.sampled_from(['Azimuth', 'Beamwidth', 'a/b', 'x ', 'GateWidth']), part=st.floats(0, 1)))


# ---------------------------------------------------------------- the files of a sweep
def run_files(L, c, ctx):
    setup(L)
    D = scratch()
    here = os.getcwd()
    try:
        sub = os.path.join(D, c['folder']) if c['folder'] else D
        os.makedirs(sub, exist_ok=True)
        base = dict(c['product'])
        stem = 'PX-20201231-235959-%s' % c['part']
        made, sweep = {}, {}
        for k, s in enumerate(c['symbols']):
            pc = dict(base, symbol=s, seed=base['seed'] + k, name=NAMES.get(s, 'Other_' + s))
            if c['odd'] == k and s in NAMES:
                pc['name'] = 'Something_Else'
            p, v, a, d = make(L, pc)
            f = os.path.join(sub, '%s-%s.nc' % (stem, s))
            need(L.RKProductFileWriterNC(p.p, f.encode()) == 0, 'not written')
            p.free()
            made[s] = (pc, v, a, d)
            if s in NAMES:
                sweep[s] = made[s]
        pc = dict(base, symbol='Z', name='Intensity', seed=1)
        for o in c['others']:
            p = make(L, pc)[0]
            L.RKProductFileWriterNC(p.p, os.path.join(sub, o).encode())
            p.free()
        os.chdir(D)
        first = '%s-%s.nc' % (stem, c['symbols'][c['first'] % len(c['symbols'])])
        root = {'absolute': D + '/', 'relative': '', 'dot': './'}[c['path']]
        f = root + (c['folder'] + '/' if c['folder'] else '') + first
        # Collection
        n = C.c_int()
        col = L.vt_collection(f.encode(), C.byref(n))
        need(n.value == len(made), 'collection of %s, %d files', n.value, len(made))
        got = []
        for k in range(n.value):
            g = Product.__new__(Product)
            g.L, g.p = L, C.c_void_p(L.vt_collection_product(C.c_void_p(col), k))
            h = g.get()
            s = bytes(h['symbol']).split(b'\0')[0].decode()
            need(s in made, 'symbol %r in the collection', s)
            got.append(s)
            pc, v, a, d = made[s]
            prf = int(np.floor(F(1) / v['prt'][0] + F(0.5))) if v['prt'][0] > 0 else 0
            compare(h, pc, v, prf, s.encode(), 'collection ' + s)
            content(g, pc['rays'], pc['gates'], a, d, 'collection ' + s)
        need(sorted(got) == sorted(made), 'collection %s of the files %s', got, sorted(made))
        m = 0
        while m < 7 and BASE[m] in made:
            m += 1
        need(got[:m] == BASE[:m], 'collection in the order %s', got)
        L.RKProductCollectionFree(C.c_void_p(col))
        # Sweep
        u, x, rn = aligned(4, np.uint32), aligned(9, np.float64), C.create_string_buffer(136)
        s = L.vt_sweep_read(f.encode(), ptr(u), ptr(x), rn)
        need(bool(s) == bool(sweep), 'sweep %s of the files %s', bool(s), sorted(made))
        if s:
            s = C.c_void_p(s)
            lead = [k for k in BASE if k in sweep][0]
            pc, v, a, d = sweep[lead]
            have = [k for k in BASE if k in sweep and sweep[k][0]['name'] == NAMES[k]]
            rays, gates = pc['rays'], pc['gates']
            bits = sum(1 << 16 + BASE.index(k) for k in have)
            need((u[0], u[1]) == (rays, gates) and u[2] == bits, 'sweep of %d x %d, products %x, expected %d x %d, %x', u[0], u[1], u[2], rays, gates, bits)
            need(u[3] & 0x60 == {'ppi': 0x20, 'rhi': 0x40, 'point': 0}[pc['scan']], 'scan type %x', u[3])
            prf = int(np.floor(F(1) / v['prt'][0] + F(0.5))) if v['prt'][0] > 0 else 0
            need(abs(x[1] - 1.0 / (prf or 1000)) < 1e-6 / (prf or 1000), 'prt %s', x[1])
            need(x[0] == v['gateSize'] and rn.value == bytes(v['radarName']) and (x[5], x[6]) == (v['lat'], v['lon']) and (x[7], x[8]) == (v['heading'], v['height']), 'sweep header')
            need(pc['scan'] != 'ppi' or x[3] == v['sel'], 'sweep elevation')
            need(pc['scan'] != 'rhi' or x[4] == v['saz'], 'sweep azimuth')
            h, w = aligned(3, F), aligned(3, np.uint32)
            for k in have:
                want = nan(sweep[k][3])
                for j in range(rays):
                    q = L.vt_sweep_ray(s, j, BASE.index(k), ptr(h), ptr(w))
                    y = np.ctypeslib.as_array(C.cast(q, C.POINTER(C.c_float)), (gates,))
                    need(((y == want[j]) | np.isnan(y) & np.isnan(want[j])).all(), '%s of ray %d differs', k, j)
                    need(h[0] == a[0][j] and h[1] == a[2][j] and h[2] == v['gateSize'], 'header of ray %d: %s', j, h)
                    need(w[0] & 8 and w[1] == gates and w[2] == bits, 'ray %d: %s', j, w)
            L.vt_sweep_free(s)
            ctx.cls('sweep of %d' % len(have))
    finally:
        os.chdir(here)
        shutil.rmtree(D, ignore_errors=True)
    ctx.cls('collection of %d' % min(8, len(made)))
    return len(made) > 1


def strat_files():
    stem = 'PX-20201231-235959-'
    return st.fixed_dictionaries(dict(product=product(), symbols=st.one_of(st.just(BASE), st.permutations(BASE).map(list), st.lists(st.sampled_from(MOMENTS), unique=True, min_size=1, max_size=16)), first=st.integers(0, 15),
                                      odd=st.sampled_from([-1, -1, -1, 0, 1, 3]), part=st.sampled_from(['E1.0', 'E12.0', 'A359.9', 'N001']), folder=st.sampled_from(['', '20201231', 'a.nc.d/b', 'x-y', 'v1.2']),
                                      others=st.lists(st.sampled_from(['PX-20201231-235958-E1.0-Z.nc', 'OPX-20201231-235959-E1.0-Z.nc', 'PX-20201231-235959-E2.0-Z.nc', 'PX-20201231-235959-E12.09-Z.nc', 'PX-20201231-235959-N001.txt', 'readme']),
                                                      unique=True, max_size=4),
                                      path=st.sampled_from(['absolute', 'relative', 'dot'])))


# ---------------------------------------------------------------- products from sweeps
def run_sweep(L, c, ctx):
    setup(L)
    p = Product(L, 1500, c['initial'])
    cap = 1500 * c['initial']
    held = None
    for k, pc in enumerate(c['products']):
        v = record(dict(pc))
        v[0]['end'] = pc['start'] + 3
        a, d = arrays(pc)
        s = pc['symbol']
        idx = MOMENTS.index(s) if s in MOMENTS else -1
        h = aligned(1, PRO)
        L.vt_product_get(p.p, ptr(h))
        h['symbol'], h['name'], h['unit'] = s.encode(), b'mine', b'u'
        L.vt_product_set(p.p, ptr(h))
        need(L.vt_product_from_sweep(p.p, ptr(v), a.ctypes.data_as(C.c_void_p), np.ascontiguousarray(d).ctypes.data_as(C.c_void_p), idx) == 0, 'returned an error')
        g = p.get()
        for f in PRO.names:
            if f in ('name', 'unit', 'colormap', 'symbol', 'capacity'):
                continue
            need(np.asarray(g[f]).tobytes() == np.asarray(v[0][f]).tobytes(), '%s of product %d is %s, the sweep has %s', f, k, g[f], v[0][f])
        need(bytes(g['name']) == b'mine' and bytes(g['symbol']) == s.encode(), 'description changed')
        need(g['capacity'] >= pc['rays'] * pc['gates'] and g['capacity'] >= cap, 'capacity %d', g['capacity'])
        cap = int(g['capacity'])
        n = pc['rays']
        for j in range(4):
            need(same(p.array(j, n).copy(), a[j]), 'angles %d of product %d', j, k)
        x = p.array(4, d.size).copy()
        if idx >= 0:
            need(same(x, d.ravel()), 'data of product %d (%s) differ', k, s)
            ctx.cls(s)
        p.array(4, cap)[:] = 3  # all of the capacity is there
    p.free()
    return any(pc['rays'] > 1 and pc['gates'] > 1 for pc in c['products'])


def strat_sweep():
    return st.fixed_dictionaries(dict(products=st.lists(product(), min_size=1, max_size=4), initial=st.sampled_from([1, 10])))


# ---------------------------------------------------------------- files of any structure
ATT = ['TypeName', 'Unit-value', 'ColorMap-value', 'ScanType', 'radarName-value', 'Waveform', 'RadarKit-VCP-Definition', 'LatitudeDouble', 'Latitude', 'LongitudeDouble', 'Longitude', 'Heading', 'Height', 'Elevation',
       'Azimuth', 'GateSize', 'Time', 'Wavelength-value', 'PRF-value', 'Nyquist_Vel-value', 'PulseWidth-value', 'PulseWidth-unit', 'NoiseH-ADU', 'SystemZCalH-dB', 'ZCalH1-dB', 'SNRThreshold-dB']
LIMIT = dict(name=127, unit=127, colormap=127, radarName=127, waveformName=127, vcp=511)


def run_any(L, c, ctx):
    setup(L)
    D = scratch()
    try:
        f = os.path.join(D, 'XX-20200101-000000-E1.0-%s.nc' % c['symbol'])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            n = netcdf_file(f, 'w')
            dims = {}
            for k, size in c['dims']:
                if k not in dims:
                    n.createDimension(k, size)
                    dims[k] = size
            texts = {}
            for k, t, x in c['atts']:
                if t == 'c':
                    v = b'q' * x if k != 'TypeName' or x > 200 else b'Intensity'
                    texts[k] = v
                elif t == 'd':
                    v = np.float64(x)
                elif t == 'a':
                    v = np.arange(x, dtype=np.float32) if x else np.float32(0)
                elif t == 'f':
                    v = np.float32(x)
                else:
                    v = np.int32(x)
                if k not in n._attributes:
                    setattr(n, k, v)
            for k, t, ds in c['vars']:
                ds = [j for j in ds if j in dims]
                if math.prod([int(dims[j]) for j in ds]) > 40000 or k in n.variables:
                    continue
                w = n.createVariable(k, t, tuple(ds))
                if ds:
                    w[:] = np.zeros([dims[j] for j in ds], t) + 7
            n.close()
        if c['cut'] < 1:
            os.truncate(f, int(c['cut'] * os.path.getsize(f)))
        rays, gates = C.c_uint32(0), C.c_uint32(0)
        L.RKProductDimensionsFromFile(f.encode(), C.byref(rays), C.byref(gates))
        # A file may be of up to 4 GB; leave those alone
        if rays.value * gates.value <= 10000000 or rays.value * gates.value > 2 ** 31:
            q = L.RKProductFileReaderNC(f.encode(), C.c_bool(False))
            if q:
                g = Product.__new__(Product)
                g.L, g.p = L, C.c_void_p(q)
                h = g.get()
                need((h['rays'], h['gates']) == (rays.value, gates.value), 'dimensions %d %d, %d %d', h['rays'], h['gates'], rays.value, gates.value)
                g.free()
                ctx.cls('read' if rays.value else 'nothing to read')
            else:
                ctx.cls('refused')
        g = Product(L, 20, 20)
        L.RKProductReadFileIntoBuffer(g.p, f.encode(), C.c_bool(False))
        h = g.get()
        need(h['rays'] <= 20 and h['rays'] * h['gates'] <= 400, 'product of 400 gates holds %d x %d', h['rays'], h['gates'])
        g.array(4, 400)[:] = 1
        g.free()
        u, x, rn = aligned(4, np.uint32), aligned(9, np.float64), C.create_string_buffer(136)
        if not (rays.value <= 1500 and rays.value * gates.value > 300000):
            s = L.vt_sweep_read(f.encode(), ptr(u), ptr(x), rn)
            if s:
                ctx.cls('sweep read')
                L.vt_sweep_free(C.c_void_p(s))
        n = C.c_int()
        if rays.value * gates.value <= 10000000:
            col = L.vt_collection(f.encode(), C.byref(n))
            if col:
                L.RKProductCollectionFree(C.c_void_p(col))
    finally:
        shutil.rmtree(D, ignore_errors=True)
    return True


def strat_any():
    dim = st.tuples(st.sampled_from(['Azimuth', 'azimuth', 'Elevation', 'Beam', 'Gate', 'Gate', 'gate', 'x', 'y']), st.one_of(st.integers(1, 30), st.sampled_from([1, 2 ** 31 - 1, 262144, 300000, 1501, 5000, 65536])))
    att = st.tuples(st.sampled_from(ATT), st.sampled_from('cccdfia'), st.one_of(st.integers(0, 20), st.sampled_from([0, 1, 127, 128, 129, 511, 512, 513, 3000])))
    var = st.tuples(st.sampled_from(['Azimuth', 'Elevation', 'GateWidth', 'Beamwidth', 'Intensity', 'Intensity', 'gatewidth']), st.sampled_from(['f4', 'f4', 'f8', 'i2', 'i4', 'i1']),
                    st.lists(st.sampled_from(['Azimuth', 'Gate', 'Elevation', 'Beam', 'x', 'y', 'gate', 'azimuth']), unique=True, max_size=4))
    return st.fixed_dictionaries(dict(symbol=st.sampled_from(['Z', 'V', 'K', 'ABCDEFG', 'ABCDEFGHIJKLM', '']), dims=st.lists(dim, min_size=1, max_size=4), atts=st.lists(att, max_size=12), vars=st.lists(var, max_size=5),
                                      cut=st.sampled_from([1, 1, 1, 0, 0.3, 0.7, 0.95])))


SUBS = [Sub('files', strat, run, 1500, 20000, hang=60), Sub('refused', strat_refused, run_refused, 500, 5000, hang=60), Sub('sweeps', strat_files, run_files, 500, 4000, hang=60),
        Sub('from sweeps', strat_sweep, run_sweep, 800, 8000, hang=60), Sub('any file', strat_any, run_any, 2000, 20000, hang=60)]
PROBES = {}
