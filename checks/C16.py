"""The steer engine does the sweeps it is told to, in order, and nothing else."""
import ctypes as C
import math
import re
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from checks.C27 import Buf, setup

ID = 'C16'
RULE = 'histories of up to 8 commands at any time with a simulated pedestal (20-200 positions a second, up to two positions of delay, any start), and texts of commands, complete or not; non-trivial = a sweep was completed, or a list was made or a text refused; distinct by case content'
ASSUMPTIONS = ['pedestal: accelerates at 60 degrees per second squared or more, shows an action in its velocity before the next one is due, reports its position and velocity truly', 'azimuths 0-360, elevations -2-182, rates 1-30 degrees per second; sectors and RHI with a rate in the direction of their end and at least 2 degrees wide', 'commands do not come in the middle of a call to RKSteerEngineGetAction']
PPI, RHI, SEC, PT = 2, 1, 3, 4
AS, AP, AC = 1 << 8, 1 << 9, 1 << 10
ES, EP, EC = 1 << 24, 1 << 25, 1 << 26
SCAN, VCP = 1 << 28, 1 << 29
FLAG = {PPI: AS | EP, SEC: AS | EP, RHI: AP | ES, PT: AP | EP}
DONE = {PPI: AC, SEC: AC, RHI: EC, PT: AC | EC}
f32 = np.float32
MAX = 256


def num(x):
    return ('%.2f' % x).rstrip('0').rstrip('.')


# ---- What a command means. Scans are (mode, el start, el end, el slew, az start, az end, az slew)

def scan(mode, e0, e1, a0, a1, rate):
    return tuple(float(f32(v)) for v in (mode, e0, e1, rate, a0, a1, rate))


def ppi_set(p):
    els, az, rate = p
    return [scan(PPI, e, e, az or 0, az or 0, 18 if rate is None else rate) for e in els]


def rhi_set(p):
    (e0, e1), azs, rate = p
    r = 18 if rate is None else rate
    return [scan(RHI, *((e1, e0) if k % 2 else (e0, e1)), az, 0, -r if k % 2 else r) for k, az in enumerate(azs)]


def ppi_text(p):
    els, az, rate = p
    return ','.join(map(num, els)) + ('' if az is None else ' ' + num(az) + ('' if rate is None else ' ' + num(rate)))


def rhi_text(p):
    (e0, e1), azs, rate = p
    return num(e0) + ',' + num(e1) + ' ' + ','.join(map(num, azs)) + ('' if rate is None else ' ' + num(rate))


def part(p):
    """Text and scans of a component of a volume."""
    kind, q = p
    if kind == 'pp':
        return 'pp ' + ppi_text(q), ppi_set(q)
    if kind == 'rr':
        return 'rr ' + rhi_text(q), rhi_set(q)
    e, a, rate = q
    e1, a1 = e[-1], a[-1]
    t = kind + ' ' + ','.join(map(num, e)) + ' ' + ','.join(map(num, a)) + ('' if rate is None else ' ' + num(rate))
    return t, [scan({'p': PPI, 'r': RHI, 's': SEC}[kind], e[0], e1, a[0], a1, 18 if rate is None else rate)]


def meaning(op):
    """(text, how, scans). how: '' lineup, 'o', 'i', 'point', 'home', 'start', 'stop', 'next', 'status', 'bad'"""
    k = op[0]
    if k == 'pp':
        return op[1] + 'pp ' + ppi_text(op[2]), op[1], ppi_set(op[2])
    if k == 'rr':
        return op[1] + 'rr ' + rhi_text(op[2]), op[1], rhi_set(op[2])
    if k == 'vol':
        parts = [part(p) for p in op[2]]
        return op[1] + 'vol ' + '/'.join(t for t, _ in parts), op[1], [s for _, q in parts for s in q]
    if k == 'point':
        e, a = op[1]
        return 'point %s %s' % (num(e), num(a)), 'point', [scan(PT, e, e, a, a, math.nan)]
    if k == 'home':
        return 'home', 'home', None
    return op[1], k, None


class Model:
    def __init__(self, heading):
        self.bat, self.deck, self.hole = [], [], []
        self.i, self.active, self.repeat = 0, False, True
        self.heading = heading

    def next_hitter(self):
        self.bat, self.deck, self.i, self.active = self.deck, list(self.hole), 0, True

    def do(self, how, scans):
        """False = refused"""
        if how == 'status':
            return True
        if how == 'bad':
            return False
        if how == 'start':
            self.i, self.active, self.repeat = 0, True, True
        elif how == 'stop':
            self.active = False
        elif how == 'next':
            self.next_hitter()
            if not self.bat:
                self.active = False
        else:
            if how == 'home':
                scans = [scan(PT, 0, 0, self.heading, self.heading, math.nan)]
            if len(scans) > MAX:
                return False
            self.repeat = how not in ('point',)
            if how in ('point', 'home'):
                self.hole, self.deck, self.bat = [], scans, []
            elif how == 'o':
                self.deck = scans
            else:
                self.hole, self.deck = list(scans), list(scans)
                if how == 'i':
                    self.bat = []
            self.active = True
            if not self.bat:
                self.next_hitter()
        return True

    def complete(self):
        self.i += 1
        if self.i < len(self.bat):
            return
        self.i = 0
        if self.repeat:
            self.next_hitter()
            self.active = bool(self.bat)
        else:
            if len(self.bat) == 1 and self.bat[0][0] == PT:
                self.bat, self.deck, self.hole = [], [], []
            self.active = False

    def scan(self):
        return self.bat[self.i] if self.active and self.bat else None


def q(lo, hi):
    return st.one_of(st.integers(math.ceil(lo), int(hi)).map(float), st.floats(lo, hi).map(lambda x: round(x, 2)))


class Hand:
    """The engine and what is known about it."""
    def __init__(self, L, c):
        L.vt_steer.restype = C.c_void_p
        L.vt_steer_status.restype = C.c_char_p
        self.L = L
        self.heading = float(f32(c['heading']))
        toc = c['toc'] or math.ceil(0.05 * c['rate'])
        self.latency = min(c['latency'], toc - 1)
        self.s = C.c_void_p(L.vt_steer(C.c_double(c['rate']), C.c_double(c['acc']), self.latency, C.c_double(c['el']), C.c_double(c['az']), C.c_float(self.heading), toc, c['point'], c['verbose']))
        self.m = Model(self.heading)

    def lists(self):
        out = []
        for k in range(3):
            b = np.zeros(7 * MAX, f32)
            n = self.L.vt_steer_list(self.s, k, b.ctypes.data_as(C.c_void_p))
            need(0 <= n <= MAX, 'list %d has %d scans', k, n)
            out.append([tuple(float(x) for x in b[7 * j:7 * j + 7]) for j in range(n)])
        return out

    def command(self, text, null=False):
        t = Buf.text(self.L, text if isinstance(text, bytes) else text.encode())
        r = Buf(self.L, 4096, b'\xa5' * 4096)
        try:
            k = self.L.vt_steer_command(self.s, t.p, None if null else r.p)
            a = C.string_at(r.p, 4096)
        finally:
            t.free()
            r.free()
        if null:
            return k, None
        need(b'\0' in a, 'the answer to %r has no end', text)
        return k, a[:a.index(b'\0')]

    def order(self, op, null=False):
        """Issues a command and checks what becomes of it."""
        text, how, scans = meaning(op)
        before = self.lists(), self.L.vt_steer_state(self.s)
        ok = self.m.do(how, scans)
        k, a = self.command(text, null)
        if ok:
            need(k == 0 and (a is None or a.startswith(b'ACK') and a.endswith(b'\r\n')), '%r returns %d and says %r', text[:80], k, a and a[:80])
        else:
            need(k != 0 and (a is None or a.startswith(b'NAK') and a.endswith(b'\r\n')), '%r returns %d and says %r, though it cannot be understood', text[:80], k, a and a[:80])
            need(same((self.lists(), self.L.vt_steer_state(self.s)), before), '%r is refused but changes the scans from %r to %r', text[:80], before, self.lists())
        m = self.m
        now = self.lists()
        for have, want, name in zip(now, (m.bat, m.deck, m.hole), ('at bat', 'on deck', 'in the hole')):
            need(same(have, want), 'after %r the scans %s are %r, should be %r', text[:80], name, have[:6], want[:6])
        state = self.L.vt_steer_state(self.s)
        need(bool(state & 1) == m.active and bool(state & 2) == (m.repeat and how not in ('home',) or how == 'home'), 'after %r the state is %d, should be active %d repeat %d', text[:80], state, m.active, m.repeat)
        if how == 'status' and a is not None:
            self.summary(a.decode())
        return ok

    def summary(self, a):
        m = self.m
        for n, key in ((len(m.bat), 'sweepCount'), (len(m.deck), 'onDeckCount'), (len(m.hole), 'inTheHoleCount')):
            x = re.search(key + r'\D*?= *\D*?(\d+)', re.sub('\x1b\\[[0-9;]*m', '', a))
            need(x and int(x.group(1)) == n, 'the summary says %r, %s should be %d', a[-300:], key, n)
        name = {PPI: 'PPI', RHI: 'RHI', SEC: 'SEC', PT: 'SPT'}
        lines = [re.sub('\x1b\\[[0-9;]*m', '', x) for x in a.split('\n')]
        rows = [re.match(r'(PINCH|LINEUP|) *(\d+) : (\w+) ', x) for x in lines]
        for tag, scans in (('', m.bat), ('PINCH', m.deck), ('LINEUP', m.hole)):
            have = [(int(x.group(2)), x.group(3)) for x in rows if x and x.group(1) == tag]
            want = [(k, name[s[0]]) for k, s in enumerate(scans)]
            need(have == want[:len(have)], 'the summary lists %r, not %r', have, want)
            if tag == '' and len(scans) <= 12:
                need(len(have) == len(want), 'the summary lists %d of %d scans', len(have), len(want))
                for x, s in zip([x for x, r in zip(lines, rows) if r and r.group(1) == ''], scans):
                    v = [float(y) for y in re.findall(r'[-+]?\d+\.\d', x)]
                    w = {PPI: (s[1], s[5], s[6]), RHI: (s[4], s[1], s[2], s[3]), SEC: (s[1], s[4], s[5], s[6]), PT: (s[1], s[4])}[s[0]]
                    need(len(re.findall(r'\d\.\d', x)) == len(w) and all(any(abs(abs(p) - abs(z)) < 0.051 for p in v) for z in w), 'the summary says %r of %r', x, s)

    def free(self):
        self.L.vt_steer_free(self.s)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


# ---- Texts

def text_strat():
    big = st.sampled_from([1, 2, 3, 30, 60])
    pset = st.tuples(big.flatmap(lambda n: st.lists(q(-2, 90), min_size=1, max_size=n)).filter(lambda x: len(','.join(map(num, x))) < 255), st.one_of(st.none(), q(0, 360)), st.one_of(st.none(), q(-30, 30))).map(lambda p: (p[0], p[1], p[2] if p[1] is not None else None))
    rset = st.tuples(st.tuples(q(-2, 182), q(-2, 182)), big.flatmap(lambda n: st.lists(q(0, 360), min_size=1, max_size=n)).filter(lambda x: len(','.join(map(num, x))) < 255), st.one_of(st.none(), q(-30, 30)))
    one = st.tuples(st.lists(q(-2, 182), min_size=1, max_size=2), st.lists(q(0, 360), min_size=1, max_size=2), st.one_of(st.none(), q(-30, 30)))
    comp = st.one_of(st.tuples(st.just('pp'), pset), st.tuples(st.just('rr'), rset), st.tuples(st.sampled_from('prs'), one))
    comps = st.one_of(st.lists(comp, min_size=1, max_size=6), st.integers(250, 262).flatmap(lambda n: comp.map(lambda p: [('p', ([1.0 + n % 7], [2.0], None))] * n + [p])), comp.map(lambda p: [p] * 5))
    bad = st.one_of(st.sampled_from(['', ' ', '\n', 'pp', 'ipp', 'opp ', 'rr', 'rr 1', 'rr 1 2', 'irr 1,2', 'orr x,y 3', 'pp x', 'pp 1,x', 'ipp 1,2,x 0 18', 'rr 0,20 10,x 5', 'vol', 'vol ', 'ivol', 'ovol ///', 'vol p', 'vol p 1', 'vol x 1 2 3',
                                    'vol q 1 2', 'vol p 1 2 3/', 'point', 'point 1', 'hello', 'pp1', 'PP 1', 'stopp', 'volume p 1 2 3', 'nextt', 'h', 'vol p x 2 3', 'vol p 1 x 3', 'ivol p 1 2 3/p', 'vol p 1 2 3/ppp 1 2', 'vol pp', 'vol p 1 2 3/rr 1 2', 'x' * 3000,
                                    'pp ' + '1,' * 127 + '1', 'rr 0,20 ' + '9,' * 200 + '1', 'vol ' + 'p 1 2/' * 300 + 'p 3 4', 'ivol ' + '/'.join(['pp ' + ','.join(['2'] * 100)] * 3), 'vol p 1 2 3/' + 'y' * 500 + ' 1 2']),
                    st.text('abxyz', min_size=1, max_size=12).map(lambda s: 'z' + s)).filter(lambda s: s != 'vol p 1 2 3/').map(lambda s: ('bad', s))
    how = st.sampled_from(['', '', 'i', 'o'])
    op = st.one_of(st.tuples(st.just('pp'), how, pset), st.tuples(st.just('rr'), how, rset), st.tuples(st.just('vol'), how, comps), st.tuples(st.just('vol'), how, comps), st.tuples(st.just('point'), st.tuples(q(-2, 182), q(0, 360))), st.just(('home',)),
                   st.sampled_from([('start', 'start'), ('start', 'go'), ('start', 'run'), ('stop', 'stop'), ('stop', 'end'), ('next', 'next'), ('status', 'summ'), ('status', 'status'), ('status', 'state'), ('status', 'stat x')]), bad, bad)
    return st.fixed_dictionaries(dict(ops=st.lists(st.tuples(op, st.booleans()), min_size=1, max_size=12), heading=q(0, 360), rate=st.just(100.0), acc=st.just(100.0), latency=st.just(0), el=st.just(0.0), az=st.just(0.0), toc=st.just(0), point=st.just(0), verbose=st.integers(0, 2)))


def lists_strat():
    """Many small changes to what is at bat, on deck and in the hole."""
    el = st.lists(st.integers(1, 90).map(float), min_size=1, max_size=5)
    how = st.sampled_from(['', 'i', 'o', 'o', 'o'])
    op = st.one_of(st.tuples(st.just('pp'), how, el.map(lambda e: (e, 0.0, 18.0))), st.tuples(st.just('pp'), how, el.map(lambda e: (e, 0.0, 18.0))), st.tuples(st.just('rr'), how, el.map(lambda e: ((0.0, 20.0), e, 10.0))),
                   st.just(('next', 'next')), st.just(('next', 'next')), st.just(('next', 'next')), st.sampled_from([('start', 'go'), ('stop', 'stop'), ('home',)]))
    return st.fixed_dictionaries(dict(ops=st.lists(st.tuples(op, st.just(False)), min_size=4, max_size=30), heading=st.just(0.0), rate=st.just(100.0), acc=st.just(100.0), latency=st.just(0), el=st.just(0.0), az=st.just(0.0), toc=st.just(0), point=st.just(0), verbose=st.just(0)))


def run_text(L, c, ctx):
    setup(L)
    h = Hand(L, c)
    try:
        made = refused = 0
        for op, null in c['ops']:
            if h.order(op, null):
                made += 1
            else:
                refused += 1
            h.order(('status', 'status'))
        if made and refused:
            ctx.cls('some refused')
        if any(len(x) > 100 for x in h.lists()):
            ctx.cls('long')
        return any(o[0][0] in ('pp', 'rr', 'vol', 'bad') for o in c['ops'])
    finally:
        h.free()


def junk_strat():
    word = st.one_of(st.sampled_from(['pp', 'ipp', 'opp', 'rr', 'irr', 'orr', 'vol', 'ivol', 'ovol', 'point', 'home', 'start', 'stop', 'next', 'stat', 'p', 'r', 's', 'b', '/', ',', ' ', '\t', '1,2', '3', '-', '.', '1e38', '-1e38', '0', 'x' * 300, '1,' * 150, '9' * 50, 'p 1 2/' * 100, '%s%n', '1.5,2,3 4']),
                     st.binary(max_size=8).map(lambda b: b.replace(b'\0', b'').decode('latin1')))
    return st.fixed_dictionaries(dict(ops=st.lists(st.tuples(st.sampled_from(['pp', 'ipp', 'opp', 'rr', 'irr', 'orr', 'vol', 'ivol', 'ovol', 'point', '', '']), st.lists(word, max_size=12), st.sampled_from([' ', ' ', '']), st.integers(0, 3)), min_size=1, max_size=8),
                                      heading=st.just(0.0), rate=st.just(100.0), acc=st.just(100.0), latency=st.just(0), el=st.just(0.0), az=st.just(0.0), toc=st.just(0), point=st.just(0), verbose=st.just(0)))


def run_junk(L, c, ctx):
    setup(L)
    h = Hand(L, c)
    try:
        taken = False
        out = np.zeros((3, 12))
        for first, words, sep, n in c['ops']:
            text = (first + ' ' + sep.join(words)).encode('latin1').replace(b'\0', b'')[:4000]
            if re.search(rb'(?i)nan|inf', text):
                continue
            before = h.lists(), L.vt_steer_state(h.s)
            k, a = h.command(text)
            need((k == 0) == a.startswith(b'ACK') and (k != 0) == a.startswith(b'NAK'), '%r returns %d and says %r', text, k, a[:60])
            if k:
                need(same((h.lists(), L.vt_steer_state(h.s)), before), '%r is refused but changes the scans', text)
                ctx.cls('refused')
            else:
                taken = True
            if n:
                need(L.vt_steer_run(h.s, n, out.ctypes.data_as(C.c_void_p)) == 0, 'an action that makes no sense')
            h.command(b'status')
            if len(L.vt_steer_status(h.s)) >= 256:
                need(False, 'status string too long')
        return taken
    finally:
        h.free()


# ---- With a pedestal

def fly_strat():
    rate = st.one_of(st.integers(1, 30).map(float), st.integers(10, 30).map(float))
    el, az = q(-2, 90), st.one_of(q(0, 359.9), st.sampled_from([0.0, 0.01, 359.99, 180.0]))
    pset = st.tuples(st.lists(el, min_size=1, max_size=4), az, st.tuples(rate, st.sampled_from([1, 1, 1, -1])).map(lambda r: r[0] * r[1]))
    rset = st.tuples(st.tuples(q(-2, 182), q(2, 60)).map(lambda p: (p[0], p[0] + p[1]) if p[0] + p[1] <= 182 else (p[0] - p[1], p[0])), st.lists(az, min_size=1, max_size=3), rate)

    def sector(p):
        a, w, e, r, back = p
        b = round((a + (-w if back else w)) % 360, 2)
        return ('s', ([e], [a, b], -r if back else r))
    comp = st.one_of(st.tuples(st.just('pp'), pset), st.tuples(st.just('rr'), rset), st.tuples(az, q(2, 170), q(-2, 182), rate, st.booleans()).map(sector),
                     st.tuples(az, q(2, 170), q(-2, 182), rate, st.booleans()).map(sector), pset.map(lambda p: ('p', ([p[0][0]], [p[1]], p[2]))),
                     rset.map(lambda p: ('r', (list(p[0]), [p[1][0]], p[2]))))
    how = st.sampled_from(['', '', 'i', 'o'])
    bad = st.sampled_from(['ipp', 'ivol p 1', 'irr 1 2 3', 'hello', '', 'vol p 1 2 3/x', 'point 3', 'ovol /', 'opp 3,x']).map(lambda s: ('bad', s))
    op = st.one_of(st.tuples(st.just('pp'), how, pset), st.tuples(st.just('rr'), how, rset), st.tuples(st.just('vol'), how, st.lists(comp, min_size=1, max_size=4)), st.tuples(st.just('vol'), how, st.lists(comp, min_size=1, max_size=4)),
                   st.tuples(st.just('point'), st.tuples(q(-2, 182), az)), st.just(('home',)), st.sampled_from([('start', 'go'), ('stop', 'stop'), ('stop', 'stop'), ('next', 'next'), ('status', 'status')]), bad)
    # How long to wait before the next one: some positions, seconds, or sweeps
    wait = st.one_of(st.tuples(st.just('positions'), st.integers(0, 8)), st.tuples(st.just('seconds'), st.integers(1, 20)), st.tuples(st.just('sweeps'), st.integers(1, 6)), st.tuples(st.just('sweeps'), st.integers(1, 6)))
    return st.fixed_dictionaries(dict(ops=st.lists(st.tuples(op, wait), min_size=1, max_size=8), heading=q(0, 359.9), rate=st.sampled_from([20.0, 50.0, 100.0, 200.0]), acc=st.sampled_from([60.0, 100.0, 300.0]), latency=st.sampled_from([0, 0, 1, 2]), el=q(-2, 182), az=az,
                                      toc=st.sampled_from([0, 0, 1, 2]), point=st.sampled_from([0, 0, 1]), verbose=st.just(0)))


TOL = 0.4


def away(a, b):
    return abs(math.remainder(a - b, 360.0))


def crossed(x, y, e):
    """From x to y, by less than 10 degrees, over e."""
    d = math.remainder(y - x, 360.0)
    f = math.remainder(e - x, 360.0)
    return min(0, d) - 2e-3 <= f <= max(0, d) + 2e-3


class Watch:
    def __init__(self, h, c):
        self.h, self.c = h, c
        self.f = c['rate']
        self.prev = None
        self.since = 0           # positions since the scan began or a command came
        self.idle = 0
        self.done = 0
        self.kinds = set()
        self.track = []          # elevation and azimuth while the scan collects
        self.reset = True
        self.still = 0

    def limit(self, s):
        r = max(abs(s[6]), 0.9) if s[0] != PT else 1
        return int(self.f * (60 + (3 * 360 / r if s[0] in (PPI, SEC) else 200 / r)) + 700)

    def run(self, n, sweeps=0):
        L, h = self.h.L, self.h
        end = self.done + sweeps
        while n > 0 or (sweeps and self.done < end and h.m.scan()):
            k = min(n, 400) if not sweeps else 400
            out = np.zeros((k, 12))
            # One at a time around the end, so that no more than necessary is done
            bad = L.vt_steer_run(h.s, k, out.ctypes.data_as(C.c_void_p))
            need(bad == 0, '%d actions make no sense', bad)
            for row in out:
                self.one(row)
            n -= k

    def one(self, o):
        m = self.h.m
        el, az, vel, vaz, flag, sel, saz, m0, v0, m1, v1, t = o
        flag = int(flag)
        s = m.scan()
        self.since += 1
        if s is None:
            need(flag == 0, 'at %.2f s the flag is 0x%x without a scan', t, flag)
            self.idle += 1
            if self.idle > 1:
                need(m0 == 0 and m1 == 0, 'at %.2f s an action %d %d is taken without a scan', t, int(m0), int(m1))
            # By now it stands still
            if self.idle > 30.0 / self.c['acc'] * self.f * 1.5 + 2 + self.h.latency + 2:
                need(vel == 0 and vaz == 0, 'at %.2f s the pedestal moves at %.2f %.2f without a scan', t, vel, vaz)
                self.still += 1
            self.prev = o
            self.track = []
            return
        self.idle = 0
        need(flag & VCP and flag & FLAG[s[0]] == FLAG[s[0]] and not flag & (AS | AP | ES | EP) & ~FLAG[s[0]], 'at %.2f s the flag is 0x%x during %r', t, flag, s)
        need(f32(sel) == f32(s[1]) and f32(saz) == f32(s[4]), 'at %.2f s the sweep is at %.2f %.2f, should be %r (scan %d)', t, sel, saz, s, m.i)
        need(self.since <= self.limit(s), 'at %.2f s there is no end of %r since %.1f s   el %.2f @ %.2f   az %.2f @ %.2f', t, s, self.since / self.f, el, vel, az, vaz)
        over = flag & (AC | EC)
        need(over in (0, DONE[s[0]]), 'at %.2f s the flag is 0x%x during %r', t, flag, s)
        if flag & SCAN and s[0] != PPI:
            self.track.append((el, az, vel, vaz))
        if not over:
            self.prev = o
            return
        p = self.prev
        need(p is not None or s[0] == PT, 'a sweep of one position')
        if s[0] == PPI:
            need(crossed(p[1], az, s[5]), 'at %.2f s the PPI %r ends at %.2f after %.2f', t, s, az, p[1])
            need(abs(el - s[1]) < TOL and abs(vel) < 0.3 and abs(vaz - s[6]) < 0.3, 'at %.2f s the PPI %r ends at el %.2f @ %.2f, az @ %.2f', t, s, el, vel, vaz)
        elif s[0] in (SEC, RHI):
            j = 0 if s[0] == RHI else 1          # the axis that sweeps
            x, y = (el, az) if j == 0 else (az, el)
            start, stop, r, hold = (s[1], s[2], s[3], s[4]) if j == 0 else (s[4], s[5], s[6], s[1])
            need(crossed(p[j], x, stop), 'at %.2f s %r ends at %.2f after %.2f', t, s, x, p[j])
            need(len(self.track) > 0, 'at %.2f s %r ends without any data', t, s)
            width = math.remainder(stop - start, 360.0) if j else stop - start
            v0 = self.track[0][2 + j]
            margin = TOL + abs(r) / self.f + 0.3 * self.h.latency
            if v0 * r < 0:                       # it still has to turn around
                margin += v0 * v0 / 2 / self.c['acc'] + abs(v0) * (self.h.latency + 1) / self.f
            for e, a, ve, va in self.track:
                u, w = (e, a) if j == 0 else (a, e)
                need(away(w, hold) < TOL + 0.2, 'at %.2f s %r takes data at el %.2f az %.2f', t, s, e, a)
                d = math.remainder(u - start, 360.0) if j else u - start
                d = d if width > 0 else -d
                need(-margin <= d <= abs(width) + margin, 'at %.2f s %r takes data at el %.2f az %.2f', t, s, e, a)
            first = self.track[0][j]
            need(away(first, start) < margin, 'at %.2f s %r begins at %.2f', t, s, first)
            for (e0, a0, _, _), (e1, a1, _, _) in zip(self.track, self.track[1:]):
                d = math.remainder((a1 - a0) if j else (e1 - e0), 360)
                need(abs(d) <= (abs(r) + 3.1) / self.f + 1e-3, 'at %.2f s %r skips from %.2f %.2f to %.2f %.2f', t, s, e0, a0, e1, a1)
        else:
            need(abs(el - s[1]) < TOL and away(az, s[4]) < TOL, 'at %.2f s %r ends at %.2f %.2f', t, s, el, az)
        self.kinds.add(s[0])
        m.complete()
        self.done += 1
        self.since = 0
        self.track = []
        self.prev = o


def run_fly(L, c, ctx):
    setup(L)
    h = Hand(L, c)
    try:
        w = Watch(h, c)
        w.run(3)
        for op, (unit, n) in c['ops']:
            before = h.m.scan(), h.m.i, list(h.m.bat), h.m.active
            refused = not h.order(op)
            # A scan that was not touched goes on
            if not (refused or op[0] == 'status' or (before[3] and before[1] == h.m.i and h.m.bat == before[2] and op[0] in ('pp', 'rr', 'vol') and op[1] != 'i')):
                w.since = 0
                w.track = []
            if op[0] in ('stop', 'next') or h.m.scan() is None and before[0] is not None:
                w.idle = 0
            if unit == 'sweeps':
                w.run(0, n)
                if h.m.scan() is None:
                    w.run(int(1.5 * c['rate']))
            else:
                w.run(n if unit == 'positions' else int(n * c['rate']))
        w.run(0, 2)
        h.order(('stop', 'stop'))
        w.idle = 0
        w.run(int(2 * c['rate']) + 20)
        need(w.still > 0, 'never at rest')
        for k in w.kinds:
            ctx.cls({PPI: 'PPI', RHI: 'RHI', SEC: 'sector', PT: 'point'}[k])
        if w.done > 5:
            ctx.cls('many sweeps')
        return w.done > 0
    finally:
        h.free()


SUBS = [Sub('texts of commands', text_strat, run_text, 1000, 10000), Sub('lists of sweeps', lists_strat, run_text, 700, 10000), Sub('any text', junk_strat, run_junk, 1500, 40000), Sub('with a pedestal', fly_strat, run_fly, 500, 6000, hang=120)]
PROBES = {}
