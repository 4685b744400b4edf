"""Raw I/Q recordings: generation, the recorder run, the model of its files and the reader."""
import ctypes, glob, os, time
import numpy as np
from hypothesis import strategies as st
from vt.core import Fail, need, scratch
from vt.num import aligned, ptr

PULSE = np.dtype({'names': ['i', 'n', 't', 's', 'capacity', 'gateCount', 'down', 'pw', 'marker', 'sec', 'usec', 'td', 'rawaz', 'rawel', 'cfg', 'sub', 'pos', 'gs', 'el', 'az', 'vel', 'vaz'],
                  'formats': ['u8', 'u8', 'u8', 'u4', 'u4', 'u4', 'u4', 'u4', 'u4', 'i8', 'i8', 'f8', 'u4', 'u4', 'u2', 'u2', 'u4', 'f4', 'f4', 'f4', 'f4', 'f4'],
                  'offsets': [0, 8, 16, 24, 28, 32, 36, 40, 44, 48, 56, 64, 72, 76, 80, 82, 84, 88, 92, 96, 100, 104], 'itemsize': 192})
KEPT = ['i', 'n', 't', 'gateCount', 'pw', 'marker', 'sec', 'usec', 'td', 'rawaz', 'rawel', 'gs', 'el', 'az', 'vel', 'vaz']
HEAD = np.dtype({'names': ['count', 'depth', 'type', 'name', 'fc', 'fs', 'fcounts'], 'formats': ['u1', 'u4', 'u4', 'S128', 'f8', 'f8', ('u1', 22)],
                 'offsets': [0, 1, 5, 9, 137, 145, 153], 'itemsize': 512})
ANCHOR = np.dtype({'names': ['name', 'origin', 'length', 'in', 'out', 'most', 'f'], 'formats': ['u4'] * 6 + [('f4', 6)], 'offsets': [0, 4, 8, 12, 16, 20, 24], 'itemsize': 64})


def sizes(L):
    s = np.zeros(7, np.int32)
    L.vt_rawio_sizes(ptr(s))
    return s


def strat(events=True):
    seg = st.fixed_dictionaries({'cfg': st.integers(0, 3), 'n': st.one_of(st.integers(1, 8), st.integers(1, 60)), 'gates': st.sampled_from(['full', 'const', 'vary', 'tiny'])})
    ev = st.tuples(st.integers(0, 120), st.integers(1, 4)) if events else st.nothing()
    return st.fixed_dictionaries({
        'cap': st.sampled_from([16, 16, 48, 160, 1024]), 'raw': st.booleans(), 'depth': st.sampled_from([12, 30, 100]), 'ratio': st.sampled_from([1, 2, 4]),
        'cache': st.one_of(st.sampled_from([256, 4096, 4097, 5000, 65536, 1 << 20]), st.integers(64, 20000)), 'most': st.sampled_from([2, 7, 25, 1000, 1000, 100000]),
        'segs': st.lists(seg, min_size=1, max_size=5), 'events': st.lists(ev, max_size=4) if events else st.just([]), 'record': st.sampled_from([True, True, False]) if events else st.just(True),
        'low': st.sampled_from([False] * 5 + [True]) if events else st.just(False), 'nf': st.integers(1, 4), 'groups': st.sampled_from([1, 1, 2, 5, 22]), 'wd': st.integers(1, 90),
        'seed': st.integers(0, 2 ** 32)})


class Recording:
    """Everything a case describes, generated."""
    def __init__(self, L, c):
        rng = np.random.default_rng(c['seed'])
        s = sizes(L)
        assert s[0] == PULSE.itemsize and s[2] == HEAD.itemsize and s[3] == ANCHOR.itemsize and s[5] == 22 and s[6] == 8, s
        self.c, self.cap = c, c['cap']
        self.nc = 4
        self.confsize = int(s[1])
        conf = rng.integers(0, 256, (4, self.confsize)).astype(np.uint8)
        ids = rng.integers(1004, 9000, 4)
        if c['low']:
            ids[rng.integers(0, 4)] = rng.integers(0, 1004)
        conf[:, :8] = ids.astype(np.uint64).view(np.uint8).reshape(4, 8)
        self.conf, self.ids = conf, ids
        self.heads = np.zeros(4, HEAD)
        self.anchors = np.zeros((4, 22, 8), ANCHOR)
        offs, parts, iparts = [], [], []
        o = 0
        for k in range(4):
            h = self.heads[k]
            groups = max(1, int(c['groups'] * rng.choice([1, 1, 0.5])))
            depth = int(rng.integers(1, c['wd'] + 1))
            h['count'], h['depth'], h['type'] = groups, depth, rng.integers(0, 1 << 16)
            h['name'] = bytes(rng.integers(97, 123, int(rng.choice([1, 5, 30, 127]))).astype(np.uint8))
            h['fc'], h['fs'] = rng.normal(0, 1e6), rng.uniform(1, 1e8)
            for g in range(groups):
                nf = int(rng.integers(1, c['nf'] + 1))
                h['fcounts'][g] = nf
                a = self.anchors[k, g, :nf]
                a['name'] = rng.integers(0, 99, nf)
                a['origin'] = rng.integers(0, depth, nf)
                a['length'] = rng.integers(1, depth + 1, nf)
                a['origin'] = np.minimum(a['origin'], depth - a['length'])
                for f in ('in', 'out', 'most'):
                    a[f] = rng.integers(0, 5000, nf)
                a['f'] = rng.normal(0, 10, (nf, 6))
            self.heads[k:k + 1] = h
            offs.append(o)
            parts.append(rng.standard_normal((groups * depth, 2)).astype(np.float32))
            iparts.append(rng.integers(-32768, 32768, (groups * depth, 2)).astype(np.int16))
            o += groups * depth
        self.offs = np.array(offs, np.uint32)
        self.samples, self.isamples = np.concatenate(parts), np.concatenate(iparts)
        cfg, gates = [], []
        for q, g in enumerate(c['segs']):
            const = int(rng.integers(1, self.cap + 1))
            for _ in range(g['n']):
                cfg.append(g['cfg'])
                gates.append({'full': self.cap, 'const': const, 'vary': int(rng.integers(0, self.cap + 1)), 'tiny': int(rng.integers(1, 4))}[g['gates']])
        n = self.n = len(cfg)
        self.cfg = np.array(cfg)
        H = self.H = np.zeros(n, PULSE)
        raw = H.view(np.uint8).reshape(n, 192)
        raw[:] = rng.integers(0, 256, raw.shape)
        H['cfg'] = cfg
        H['gateCount'] = gates
        H['down'] = np.maximum(np.array(gates) // c['ratio'], 0)
        t = int(rng.integers(1, 2 ** 31 - 10)) * 1000000 + int(rng.integers(0, 1000000)) + np.cumsum(rng.integers(1100, int(rng.choice([1500, 40000, 2000000])), n))
        self.t = t
        H['sec'], H['usec'] = t // 1000000, t % 1000000
        H['td'] = t * 1e-6
        for f in ('gs', 'el', 'az', 'vel', 'vaz'):
            H[f] = rng.normal(0, 100, n)
        self.x = rng.integers(-32768, 32768, (n, 2, self.cap, 2)).astype(np.int16)
        self.y = rng.standard_normal((n, 2, self.cap, 2)).astype(np.float32)
        self.d = np.array([rng.uniform(-90, 90), rng.uniform(-180, 180), rng.uniform(0, 360), rng.uniform(0, 3000), rng.uniform(0.01, 0.2)])
        self.prefix = bytes(rng.integers(65, 91, int(rng.choice([1, 4, 7]))).astype(np.uint8))
        self.late = (rng.random(n) < 0.05).astype(np.uint8)
        # events, and which files they give
        ev = np.zeros(n, np.uint8)
        want = {}
        for k, kind in c['events']:
            if k < n:
                want[k] = kind
        j, m, last, rec, cur = -1, 0, c['record'], c['record'], None
        self.files = []
        fresh = True
        for k in range(n):
            kind = want.get(k, 0)
            if kind in (3, 4) and (k == 0 or fresh):
                kind -= 2
            ev[k] = kind
            if kind in (1, 2):
                ev[k] |= 8
            if kind:
                rec = kind in (1, 3)
            fresh = False
            if j != cfg[k] or m >= c['most'] or rec != last:
                j, m = cfg[k], 0
                fresh = True
                cur = None
                if rec and ids[j] > 1003:
                    cur = []
                    self.files.append((j, cur))
            if rec and cur is not None:
                cur.append(k)
            last = rec
            m += 1
        self.ev = ev

    def run(self, L, path, left=-1):
        c = self.c
        u = np.array([self.cap, c['depth'], 1 if c['raw'] else 2, c['cache'], c['most'], self.nc, self.n, int(c['record']), c['ratio']], np.uint32)
        r = L.vt_record(path.encode(), self.prefix, ptr(u), ptr(self.d), ptr(self.conf), ptr(self.heads), ptr(self.anchors), ptr(self.samples), ptr(self.isamples),
                        ptr(self.offs), ptr(self.H), ptr(self.x), ptr(self.y), ptr(self.ev), ptr(self.late), ctypes.c_int64(left))
        need(r == 0, 'recorder: %s', {1001: 'did not start', 1002: 'stopped taking pulses'}.get(r, r))

    def name(self, path, k):
        s = int(self.t[k]) // 1000000
        g = time.gmtime(s)
        return os.path.join(path, 'iq', time.strftime('%Y%m%d', g), '%s-%s.%03d.%s' % (self.prefix.decode(), time.strftime('%Y%m%d-%H%M%S', g), int(self.t[k]) % 1000000 // 1000, 'rkr' if self.c['raw'] else 'rkc'))

    def payload(self, k):
        return int(self.H['gateCount'][k]) * 4 * 2 if self.c['raw'] else int(self.H['down'][k]) * 8 * 2

    def head_size(self, j):
        h = self.heads[j]
        return 4096 + 512 + sum(int(h['fcounts'][g]) * 64 + int(h['depth']) * 12 for g in range(h['count']))

    def read(self, L, name, cap=None, most=None):
        cap = cap or self.cap
        most = self.n + 3 if most is None else most
        o = np.zeros(4, np.uint32)
        d = np.zeros(5)
        config = np.zeros(self.confsize, np.uint8)
        head = np.zeros(1, HEAD)
        anchors = np.zeros((22, 8), ANCHOR)
        wm = len(self.samples)
        s, i = np.zeros((wm, 2), np.float32), np.zeros((wm, 2), np.int16)
        h = np.zeros(most, PULSE)
        x, y, z = np.zeros((most, 2, cap, 2), np.int16), np.zeros((most, 2, cap, 2), np.float32), np.zeros((most, 2, 2, cap), np.float32)
        prefix = ctypes.create_string_buffer(256)
        r = L.vt_read_raw(name.encode(), cap, most, ptr(o), ptr(d), ptr(config), ptr(head), ptr(anchors), ptr(s), ptr(i), wm, ptr(h), ptr(x), ptr(y), ptr(z), prefix)
        return r, dict(o=o, d=d, config=config, head=head[0], anchors=anchors, s=s, i=i, h=h, x=x, y=y, z=z, prefix=prefix.value)

    def same_header(self, g, j, what):
        c = self.c
        need(g['o'][0] == (1 if c['raw'] else 2) and g['o'][2] == c['ratio'] and g['prefix'] == self.prefix, '%s: data type %d, ratio %d, prefix %r', what, g['o'][0], g['o'][2], g['prefix'])
        dd = self.d.copy()
        dd[2:] = dd[2:].astype(np.float32)
        need(np.array_equal(g['d'], dd), '%s: location, heading, height, wavelength %s, not %s', what, g['d'].tolist(), dd.tolist())
        a, b = g['config'].copy(), self.conf[j].copy()
        # the two waveform references are addresses
        w = (a != b).nonzero()[0]
        need(len(w) == 0 or w[-1] - w[0] < 16, '%s: the configuration differs at bytes %s', what, w.tolist())
        h = self.heads[j]
        for f in ('count', 'depth', 'type', 'name', 'fc', 'fs'):
            need(g['head'][f] == h[f], '%s: waveform %s is %r, not %r', what, f, g['head'][f], h[f])
        need(np.array_equal(g['head']['fcounts'][:h['count']], h['fcounts'][:h['count']]), '%s: filter counts', what)
        n = int(h['count']) * int(h['depth'])
        o = int(self.offs[j])
        need(np.array_equal(g['s'][:n], self.samples[o:o + n]) and np.array_equal(g['i'][:n], self.isamples[o:o + n]), '%s: waveform samples', what)
        for q in range(h['count']):
            nf = h['fcounts'][q]
            a, b = g['anchors'][q, :nf].copy(), self.anchors[j, q, :nf].copy()
            a['most'][0] = b['most'][0] = 0      # the reader opens up the first filter
            a['f'][:, 1:4] = b['f'][:, 1:4] = 0  # and works the gains out from the samples
            need(all(np.array_equal(a[f], b[f]) for f in ANCHOR.names), '%s: filter anchors of group %d: %s, not %s', what, q, a.tolist(), b.tolist())

    def same_pulses(self, g, r, ks, what):
        for q, k in enumerate(ks[:r]):
            a, b = g['h'][q], self.H[k]
            for f in KEPT + ([] if self.c['raw'] else ['down']):
                need(a[f] == b[f], '%s: pulse %d (record %d): %s is %r, not %r', what, k, q, f, a[f], b[f])
            if self.c['raw']:
                m = int(b['gateCount'])
                need(np.array_equal(g['x'][q, :, :m], self.x[k, :, :m]), '%s: samples of pulse %d', what, k)
            else:
                m = int(b['down'])
                need(np.array_equal(g['y'][q, :, :m], self.y[k, :, :m]), '%s: samples of pulse %d', what, k)
                need(np.array_equal(g['z'][q, :, 0, :m], self.y[k, :, :m, 0]) and np.array_equal(g['z'][q, :, 1, :m], self.y[k, :, :m, 1]), '%s: split samples of pulse %d', what, k)
