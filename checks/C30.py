"""What the clients of a command center receive: whole packets, every ray and health and sweep of what they asked for, once, in order and true to the radar."""
import ctypes as C
import json
import math
import struct
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from checks.C27 import setup as text_setup

ID = 'C30'
RULE = 'sessions of up to 60 steps: up to three clients that subscribe, send commands and poll while rays, sweeps, pulses, health and status come in; the stream thread racing the commands of the client; products that clients contribute, well-formed or not; non-trivial = at least one data packet was checked; distinct by case content'
ASSUMPTIONS = ['a client is served before the ring of rays laps it', 'the text streams 5 to 7 are plain terminal output and have no packets to check', 'the A-scope mode 2 composite is not claimed']

BEACON, TEXT, PULSE, HEALTH, CONTROLS, RESPONSE, DESC, STATUS, RAY, SWEEP, SWEEPRAY = 1, 2, 3, 5, 6, 7, 8, 9, 109, 113, 114
DISPLAY = 'zvwdprkst'
FLOAT = 'ZVWDPRKST'
SWEEPS = 'YUXCOQJABH'
DEPTHS = dict(health=8, status=8, pulse=128)


def api(L):
    if getattr(L, 'vt_cc_ready', 0):
        return
    text_setup(L)
    V, I, D = C.c_void_p, C.c_int, C.c_double
    L.vt_cc_new.restype = L.vt_cc_desc.restype = L.vt_cc_product.restype = V
    L.vt_cc_new.argtypes = [C.c_uint32] * 6 + [I] * 4
    L.vt_cc_ray.argtypes = [V, I, C.c_float, C.c_uint32, I]
    L.vt_cc_sweep.argtypes = [V, I]
    L.vt_cc_health.argtypes = L.vt_cc_line.argtypes = [V, C.c_char_p]
    L.vt_cc_status.argtypes = L.vt_cc_free.argtypes = L.vt_cc_desc.argtypes = [V]
    L.vt_cc_pulse.argtypes = [V, I, I, I, C.c_float]
    L.vt_cc_open.argtypes = L.vt_cc_poll.argtypes = L.vt_cc_state.argtypes = L.vt_cc_close.argtypes = [V, I]
    L.vt_cc_command.argtypes = [V, I, C.c_char_p]
    L.vt_cc_write.argtypes = [V, I, C.c_char_p, C.c_size_t]
    L.vt_cc_read.argtypes = [V, I, V]
    L.vt_cc_read.restype = L.vt_cc_size.restype = C.c_size_t
    L.vt_cc_race.argtypes = [V, I, I, I, C.POINTER(C.c_char_p), I]
    L.vt_cc_u8.restype = C.c_uint8
    L.vt_cc_f32.restype = C.c_float
    for f in ('v1', 'v2', 'sw', 'ph'):
        getattr(L, 'vt_cc_' + f).argtypes = [C.c_char_p, C.POINTER(D)]
    L.vt_cc_radars.argtypes = [V, C.POINTER(I), I, C.POINTER(I)]
    L.vt_cc_products_new.restype = V
    L.vt_cc_products_free.argtypes = [V]
    L.vt_cc_unread.argtypes = [V, I]
    L.vt_cc_product.argtypes = [I, C.POINTER(D)]
    L.vt_cc_config.argtypes = [V, C.c_int64]
    L.SIZE = [L.vt_cc_size(k) for k in range(7)]
    L.vt_cc_ready = 1


def u8(i, p, g):
    return ((i * 31 + p * 17 + g * 7 + (g >> 3)) & 255).astype(np.uint8)


def f32(i, p, g):
    return (np.float32(i % 4096) * np.float32(512) + np.float32(p * 16) + (g % 2048).astype(np.float32) * np.float32(0.0625)).astype(np.float32)


def header(L, f, b):
    o = (C.c_double * 32)()
    getattr(L, 'vt_cc_' + f)(b, o)
    return list(o)


def ray_header(i, gates, size, lst, ratio):
    r = np.float32(size)
    return [i, i * 3, gates // ratio, float(np.float32(r * np.float32(ratio))), 1 + i % 90, 32, i % 5, 0.5 * (i % 9), 1.5 * (i % 7), i % 360, (i + 1) % 360, 0.25 * (i % 11), 0.25 * (i % 13),
            1700000000 + i, i % 1000, 1700000001 + i, i % 999, 1700000000.0 + i, 1700000001.0 + i, i % 10, lst, 0]


NAMES = 'i n gateCount gateSizeMeters pulseCount marker configSubIndex sweepElevation sweepAzimuth startAzimuth endAzimuth startElevation endElevation startTime startTime.usec endTime endTime.usec startTimeDouble endTimeDouble fftOrder baseProductList configIndex'.split()


class Radar:
    """What the radar has produced"""
    def __init__(self, L, c):
        self.L, self.c = L, c
        self.gates, self.size, self.list, self.pulses, self.lines, self.healths, self.stats, self.sweeps = [], [], [], [], [], [], 0, []
        self.depth = max(64, 6 * c['cores'] + 32)
        self.ratio = max(c['capacity'] // c['ratio'] // 500, 1)
        self.down = max(c['capacity'] // 1000, 1)
        self.now = 1000.0
        self.marked = 0
        self.p = L.vt_cc_new(c['capacity'], c['ratio'], self.depth, DEPTHS['health'], DEPTHS['status'], DEPTHS['pulse'], c['cores'], c['pulseCores'], c['groups'], c['width'])
        self.clock()

    def clock(self):
        C.c_int.in_dll(self.L, 'vt_time_fixed').value = 1
        C.c_double.in_dll(self.L, 'vt_time_value').value = self.now

    def cap(self):
        return -(-(self.c['capacity'] // self.c['ratio']) // 16) * 16

    def ray(self, frac, size, lst, lag):
        g = max(1, int(self.cap() * frac))
        self.gates.append(g)
        self.size.append(size)
        self.list.append(lst)
        lag = min(lag, 2 * self.c['cores'] - 1)
        self.L.vt_cc_ray(self.p, g, size, lst, lag)
        self.marked = max(self.marked, len(self.gates) - lag)

    def free(self):
        self.L.vt_cc_free(self.p)
        C.c_int.in_dll(self.L, 'vt_time_fixed').value = 0


class Client:
    def __init__(self, R, k):
        self.R, self.k, self.L = R, k, R.L
        self.alive, self.streams, self.auth, self.controls, self.mode = True, '', 0, 0, 0
        self.rest, self.checked, self.quiet, self.last = b'', 0, R.now, R.now
        self.expect, self.texts = [], []
        self.open = True
        self.reset()
        self.iq_time, self.iq_last = -1e9, None
        need(self.L.vt_cc_open(R.p, k) == 0, 'client %d was not accepted', k)

    def reset(self):
        """A new subscription"""
        R = self.R
        self.next = None            # the next ray
        self.start = max(0, len(R.gates) - 2 * R.c['cores'] - 1)
        self.health = None
        self.health_start = max(0, len(R.healths) - 1)
        self.status = None
        self.status_start = max(0, R.stats - 1)
        self.line = None
        self.line_start = max(0, len(R.lines) - 1)
        self.sweep = len(R.sweeps)
        self.since = len(R.gates)
        self.polls = 0
        self.iq_wave = None
        self.ray_end, self.ray_ok, self.health_end, self.status_end = None, False, -1, -1

    def packets(self):
        n = self.L.vt_cc_read(self.R.p, self.k, None)
        b = C.create_string_buffer(n + 1)
        self.L.vt_cc_read(self.R.p, self.k, b)
        b, at, out = b.raw[:n], 0, []
        while at < n:
            need(at + 16 <= n, 'client %d: %d bytes are left after the last packet', self.k, n - at)
            t, sub, size, raw = struct.unpack_from('<HHII', b, at)
            need(t in (BEACON, TEXT, PULSE, HEALTH, CONTROLS, RESPONSE, DESC, STATUS, RAY, SWEEP, SWEEPRAY), 'client %d: packet of type %d and %d bytes at byte %d of %d', self.k, t, size, at, n)
            need(at + 16 + size <= n, 'client %d: packet of type %d has %d of its %d bytes', self.k, t, n - at - 16, size)
            out.append((t, b[at + 16:at + 16 + size]))
            at += 16 + size
        return out

    def handle(self, t, b):
        R, L, k = self.R, self.L, self.k
        S, sizes = self.streams, L.SIZE
        if t == BEACON:
            need(b == b'', 'client %d: a beacon of %d bytes', k, len(b))
        elif t == RESPONSE:
            need(self.expect, 'client %d: unexpected response %r', k, b[:80])
            self.expect.pop(0)(b)
        elif t == DESC:
            need(self.expect and self.expect[0] == 'desc', 'client %d: unexpected radar description', k)
            self.expect.pop(0)
            need(b == C.string_at(L.vt_cc_desc(R.p), sizes[4]), 'client %d: the radar description is not that of the radar', k)
            self.checked += 1
        elif t == CONTROLS:
            need(self.auth, 'client %d: controls without authentication', k)
            self.controls += 1
            need(self.controls <= self.auth, 'client %d: controls came %d times', k, self.controls)
            j = json.loads(b.decode('latin1').strip())
            need(j['Radars'] == ['mock'] and [(x['Label'], x['Command']) for x in j['Controls']] == [('Go %d' % i, 't g%d' % i) for i in range(3)], 'client %d: controls %r', k, b[:200])
        elif t == RAY:
            self.on_ray(b)
        elif t == SWEEP:
            self.on_sweep(b)
        elif t == SWEEPRAY:
            self.on_sweep_ray(b)
        elif t == HEALTH:
            need('h' in S, 'client %d: health was not asked for', k)
            for s in b.decode('latin1').rstrip('\r\n\0').split('\n'):
                if self.health is None:
                    at = [i for i in range(self.health_start, len(R.healths)) if R.healths[i] == s]
                    need(at, 'client %d: health %r is not one since number %d', k, s[:60], self.health_start)
                    self.health = at[0]
                need(self.health < len(R.healths) and R.healths[self.health] == s, 'client %d: health %r is not number %d', k, s[:60], self.health)
                self.health += 1
                self.checked += 1
        elif t == STATUS:
            need('!' in S, 'client %d: status was not asked for', k)
            i = struct.unpack_from('<Q', b)[0]
            if self.status is None:
                need(i >= self.status_start, 'client %d: status %d is older than the subscription (%d)', k, i, self.status_start)
                self.status = i
            need(i == self.status and i < R.stats, 'client %d: status %d instead of %d of %d', k, i, self.status, R.stats)
            need(len(b) == sizes[5] and b[16:48] == bytes([(i * 7 + 1) & 255]) * 32, 'client %d: status %d is changed', k, i)
            self.status += 1
            self.checked += 1
        elif t == TEXT:
            need('2' in S, 'client %d: text was not asked for', k)
            for s in b.decode('latin1').rstrip('\r\n\0').split('\n'):
                if self.line is None and s == '' and self.line_start == 0:
                    # Nothing was written there yet
                    continue
                if self.line is None:
                    at = [i for i in range(self.line_start, len(R.lines)) if R.lines[i] == s]
                    need(at, 'client %d: line %r is not one since %d', k, s[:60], self.line_start)
                    self.line = at[0]
                need(self.line < len(R.lines) and R.lines[self.line] == s, 'client %d: line %r is not number %d', k, s[:60], self.line)
                self.line += 1
                self.checked += 1
        elif t == PULSE:
            self.on_pulse(b)

    def on_ray(self, b):
        R, L, k = self.R, self.L, self.k
        prods = [FLOAT.index(s) for s in self.streams if s in FLOAT]
        shift = 16
        if not prods:
            prods, shift = [DISPLAY.index(s) for s in self.streams if s in DISPLAY], 0
        prods = sorted(set(prods))
        need(prods, 'client %d: rays were not asked for', k)
        need(len(b) >= L.SIZE[0], 'client %d: ray packet of %d bytes', k, len(b))
        h = header(L, 'v1', b)
        i = int(h[0])
        if self.next is None:
            need(i >= self.start, 'client %d: ray %d is older than the subscription (%d)', k, i, self.start)
            self.next = i
        need(i == self.next, 'client %d: ray %d instead of %d', k, i, self.next)
        need(i < R.marked, 'client %d: ray %d is sent before it is complete (%d are)', k, i, R.marked)
        want = ray_header(i, R.gates[i], R.size[i], sum(1 << (p + shift) for p in prods), R.ratio)
        for n, x, y in zip(NAMES, h, want):
            need(x == y, 'client %d: ray %d with %s = %g instead of %g', k, i, n, x, y)
        m = R.gates[i] // R.ratio
        g = np.arange(m) * R.ratio
        data = b''.join((f32 if shift else u8)(i, p, g).tobytes() for p in prods)
        got = b[L.SIZE[0]:]
        if got != data:
            need(len(got) == len(data), 'client %d: ray %d with %d bytes instead of %d (%d gates, products %s)', k, i, len(got), len(data), m, prods)
            at = next(x for x in range(len(data)) if got[x] != data[x]) // (4 if shift else 1)
            need(False, 'client %d: ray %d, product %d (of %s) differs from gate %d on', k, i, prods[at // m], prods, at % m)
        self.next += 1
        self.checked += 1

    def on_sweep(self, b):
        R, L, k = self.R, self.L, self.k
        want = sorted({SWEEPS.index(s) for s in self.streams if s in SWEEPS})
        need(want, 'client %d: sweeps were not asked for', k)
        self.end_sweep()
        need(len(b) == L.SIZE[2], 'client %d: sweep header of %d bytes', k, len(b))
        h = header(L, 'sw', b)
        while True:
            need(self.sweep < len(R.sweeps), 'client %d: a sweep too many', k)
            s = R.sweeps[self.sweep]
            self.sweep += 1
            have = [p for p in want if s[2] >> (p + 16) & 1]
            if have:
                break
        need([h[0], h[1], h[2], h[3]] == [s[1], R.gates[s[0]], sum(1 << (p + 16) for p in have), float(np.float32(R.size[s[0]]))],
             'client %d: sweep header %s for %d rays of %d gates with products %s', k, h[:4], s[1], R.gates[s[0]], have)
        self.sw = [s[0], s[0] + s[1], have]
        self.checked += 1

    def on_sweep_ray(self, b):
        R, L, k = self.R, self.L, self.k
        need(self.sw, 'client %d: ray of no sweep', k)
        i, end, have = self.sw
        h = header(L, 'v2', b)
        want = ray_header(i, R.gates[i], R.size[i], sum(1 << (p + 16) for p in have), 1)
        for n, x, y in zip(NAMES, h, want):
            need(x == y, 'client %d: ray %d of a sweep with %s = %g instead of %g', k, i, n, x, y)
        g = np.arange(R.gates[i])
        data = b''.join(f32(i, p, g).tobytes() for p in have)
        need(b[L.SIZE[1]:] == data, 'client %d: ray %d of a sweep with %d bytes (%d expected) of other data', k, i, len(b) - L.SIZE[1], len(data))
        self.sw = [i + 1, end, have] if i + 1 < end else None

    def end_sweep(self):
        need(not self.sw, 'client %d: a sweep ends before ray %s', self.k, self.sw)

    def on_pulse(self, b):
        R, L, k, c = self.R, self.L, self.k, self.R.c
        need('i' in self.streams, 'client %d: pulses were not asked for', k)
        need(len(b) >= L.SIZE[3], 'client %d: pulse packet of %d bytes', k, len(b))
        h = header(L, 'ph', b)
        i, m = int(h[0]), int(h[1])
        need(R.now - self.iq_time >= 0.0499, 'client %d: pulses %.3f s apart', k, R.now - self.iq_time)
        need(0 <= i < len(R.pulses), 'client %d: pulse %d of %d', k, i, len(R.pulses))
        need(i >= len(R.pulses) - 2 * c['pulseCores'] - c['groups'] - 1, 'client %d: pulse %d is not a recent one of %d', k, i, len(R.pulses))
        if self.iq_wave is not None:
            need(i % c['groups'] == (self.iq_wave + 1) % c['groups'], 'client %d: waveform %d follows %d of %d', k, i % c['groups'], self.iq_wave, c['groups'])
        self.iq_wave = i % c['groups']
        gates, down, width, size = R.pulses[i]
        need(len(b) == L.SIZE[3] + 8 * m, 'client %d: pulse of %d bytes with %d gates', k, len(b), m)
        x = np.frombuffer(b[L.SIZE[3]:], np.int16).reshape(2, m, 2).astype(int)
        q = np.arange(2)[:, None]
        if self.mode == 0:
            need(m == min(4096, width + 10, gates), 'client %d: pulse with %d samples (%d gates, width %d)', k, m, gates, width)
            need(h[2] == np.float32(size), 'client %d: gate size %g', k, h[2])
            g = np.arange(m)[None, :]
            want = np.stack([(i * 13 + q * 5 + g * 3), (i * 7 + q * 11 - g)], -1).astype(np.int16)
            need((x == want).all(), 'client %d: the samples of pulse %d are not those of the pulse', k, i)
        elif self.mode == 1:
            need(m == min(4096, down // R.down), 'client %d: pulse with %d samples of %d, every %d-th', k, m, down, R.down)
            need(abs(h[2] / (size * R.down * c['ratio']) - 1) < 1e-5, 'client %d: gate size %g', k, h[2])
            g = (np.arange(m) * R.down)[None, :]
            y = np.stack([(i * 131 + q * 50 + g * 3) % 20000 - 10000, (i * 77 + q * 11 + g * 5) % 20000 - 10000], -1) / math.sqrt(c['width'])
            need((abs(x - y) <= 1.01).all(), 'client %d: the samples of pulse %d are not every %d-th of the pulse', k, i, R.down)
        self.iq_time = R.now
        self.checked += 1

    def poll(self):
        R, L = self.R, self.L
        n = len(R.gates)
        L.vt_cc_poll(R.p, self.k)
        got = self.packets()
        for t, b in got:
            self.handle(t, b)
        self.end_sweep()
        need(not self.expect, 'client %d: %d responses are missing', self.k, len(self.expect))
        if self.iq_time != R.now and R.now - self.iq_time > 0.0499:
            self.iq_wave = None
        if got:
            self.quiet = R.now
        need(R.now - self.quiet < 1.0, 'client %d: nothing for %.2f s, not even a beacon', self.k, R.now - self.quiet)
        # Nothing is held back: all but the latest rounds
        if any(s in DISPLAY + FLOAT for s in self.streams):
            end = n - 2 * R.c['cores']
            if self.polls and end > 0:
                first = max(self.ray_end, 0) if self.ray_end is not None else 0
                if self.next is None:
                    need(end - first <= 0 or not self.ray_ok, 'client %d: no ray of %d to %d', self.k, first, end)
                else:
                    need(self.next >= end, 'client %d: rays are sent up to %d of %d', self.k, self.next, end)
            if self.polls == 0 or not self.ray_ok:
                self.ray_end, self.ray_ok = end, end >= 0
        if 'h' in self.streams:
            need(len(got) > 99 or self.health is None or self.health >= len(R.healths) - 1, 'client %d: health up to %s of %d', self.k, self.health, len(R.healths))
            if self.health_end >= 0 and self.health is None:
                need(len(R.healths) - 1 <= self.health_end, 'client %d: no health of %d since %d', self.k, len(R.healths), self.health_end)
            if self.health_end < 0:
                self.health_end = len(R.healths) - 1
        if '!' in self.streams:
            need(self.status is None or self.status >= R.stats - 1, 'client %d: status up to %s of %d', self.k, self.status, R.stats)
            if self.status_end >= 0 and self.status is None:
                need(R.stats - 1 <= self.status_end, 'client %d: no status of %d since %d', self.k, R.stats, self.status_end)
            if self.status_end < 0:
                self.status_end = R.stats - 1
        self.polls += 1
        self.since = n

    sw = None

    def command(self, parts, sep):
        """What comes back is known beforehand"""
        R, L, k = self.R, self.L, self.k
        def says(what):
            def f(b):
                need(what(b.decode('latin1')), 'client %d: response %r', k, b[:120])
            return f
        live = True
        for p in parts:
            if not live:
                break
            if p[0] == 's':
                self.new = p[1:].strip()
            if p == 'x':
                self.mode = (self.mode + 1) % 3
                self.expect.append(says(lambda s, m=self.mode: s.startswith('ACK. AScope mode to %d' % m)))
            elif p == 'i':
                self.expect.append('desc')
            elif p[0] == 'a':
                self.auth += 1
            elif p == 'q':
                self.expect.append(says(lambda s: s.startswith('Bye.')))
                self.alive = False
            elif p[0] == 's':
                bits = 0
                for s in self.new:
                    bits |= {**{s: 1 << (16 + i) for i, s in enumerate(DISPLAY)}, **{s: 1 << (32 + i) for i, s in enumerate(FLOAT)}, **{s: 1 << (48 + i) for i, s in enumerate(SWEEPS)},
                             'h': 1 << 5, '!': 1 << 7, 'i': 1 << 8, '2': 3}.get(s, 0)
                self.streams = self.new
                self.reset()
                self.expect.append(says(lambda s, m=bits: s.startswith('{"type": "init"') and '"streams": 0x%x,' % m in s))
        L.vt_cc_command(R.p, k, sep.join(parts).encode())
        for t, b in self.packets():
            need(t in (RESPONSE, DESC), 'client %d: packet of type %d in response to a command', k, t)
            self.handle(t, b)
            self.quiet = R.now
        need(not self.expect, 'client %d: %d responses are missing', k, len(self.expect))
        need(bool(L.vt_cc_state(R.p, k)) == self.alive, 'client %d: %s', k, 'still there after q' if not self.alive else 'is gone')


def session():
    letters = st.one_of(st.lists(st.sampled_from(DISPLAY), min_size=1, max_size=9, unique=True), st.lists(st.sampled_from(FLOAT), min_size=1, max_size=9, unique=True),
                        st.lists(st.sampled_from(SWEEPS), min_size=1, max_size=10, unique=True), st.lists(st.sampled_from('h!i2'), min_size=1, max_size=4, unique=True),
                        st.lists(st.sampled_from(DISPLAY + FLOAT + SWEEPS + 'h!i2'), max_size=12, unique=True)).map(''.join)
    k = st.integers(0, 2)
    sub = st.tuples(st.just('sub'), k, letters)
    cmd = st.tuples(st.just('cmd'), k, st.lists(st.one_of(st.sampled_from(['x', 'i', 'a me secret', 'ping', 'a u', 'ping']), letters.map(lambda s: 's ' + s)), min_size=1, max_size=4), st.sampled_from([';', '; ', ';  \t']))
    ray = st.tuples(st.just('ray'), st.one_of(st.integers(1, 4), st.integers(5, 40)), st.sampled_from([1.0, 1.0, 0.5, 0.93, 0.1]), st.sampled_from([30.0, 15.5, 250.0]), st.sampled_from([0x03ff03ff, 0x03ff0000, 0x003f003f, 0x010f0000]), st.integers(0, 12))
    poll = st.tuples(st.just('poll'), st.integers(0, 4))
    step = st.one_of(sub, cmd, ray, ray, ray, poll, poll, poll, st.tuples(st.just('dt'), st.sampled_from([0.01, 0.05, 0.09, 0.3, 0.9, 1.2])), st.tuples(st.just('sweep'), st.integers(2, 20)),
                     st.tuples(st.just('health'), st.integers(0, 3)), st.tuples(st.just('status')), st.tuples(st.just('line'), st.integers(1, 3)),
                     st.tuples(st.just('pulse'), st.integers(1, 30), st.integers(0, 200), st.sampled_from([1.0, 1.0, 0.5, 0.05])), st.tuples(st.just('close'), k), st.tuples(st.just('quit'), k))
    return st.fixed_dictionaries(dict(capacity=st.sampled_from([512, 1024, 2048, 4096, 16384]), ratio=st.sampled_from([1, 1, 2, 4, 8]), cores=st.integers(1, 6), pulseCores=st.integers(1, 4), groups=st.integers(1, 4),
                                      width=st.sampled_from([4, 50, 300, 1000, 5000]), first=letters, steps=st.lists(step, min_size=12, max_size=60)))


def run_session(L, c, ctx):
    api(L)
    c = dict(c, width=min(c['width'], c['capacity']))
    R = Radar(L, c)
    try:
        return play(L, R, c, ctx)
    finally:
        R.free()


def play(L, R, c, ctx):
    live = {}
    checked = 0

    def client(k):
        if k not in live:
            live[k] = Client(R, k)
        return live[k]

    def close(k):
        nonlocal checked
        checked += live[k].checked
        L.vt_cc_close(R.p, k)
        del live[k]

    def tick():
        for x in list(live.values()):
            if x.alive:
                x.poll()

    client(0).command(['s ' + c['first']], ';')
    room = R.depth - 2 * c['cores'] - 4
    for s in list(c['steps']):
        o = s[0]
        if o == 'ray':
            for _ in range(s[1]):
                if any(len(R.gates) - x.since >= room for x in live.values()):
                    tick()
                R.ray(s[2], s[3], s[4], s[5])
        elif o == 'poll':
            if s[1] in live:
                live[s[1]].poll()
            elif s[1] > 2:
                tick()
        elif o == 'sub':
            client(s[1]).command(['s ' + s[2]], ';')
        elif o == 'cmd':
            client(s[1]).command(s[2], s[3])
        elif o == 'quit':
            if s[1] in live:
                live[s[1]].command(['ping', 'q'], ';')
                close(s[1])
        elif o == 'close':
            if s[1] in live:
                close(s[1])
        elif o == 'dt':
            R.now = round(R.now + s[1], 3)
            R.clock()
            tick()
        elif o == 'sweep':
            n = min(s[1], len(R.gates), room)
            same = [i for i in range(len(R.gates) - n, len(R.gates)) if R.gates[i] == R.gates[-1] and R.size[i] == R.size[-1]] if n else []
            n = 0
            while n < len(same) and same[-1 - n] == len(R.gates) - 1 - n:
                n += 1
            if n >= 2:
                a = len(R.gates) - n
                lst = 0
                for i in range(a, a + n):
                    lst |= R.list[i]
                R.sweeps.append((a, n, lst))
                L.vt_cc_sweep(R.p, n)
                tick()
        elif o == 'health':
            t = '{"n":%d%s}' % (len(R.healths), [',"Go":true', '', ',"x":"%s"' % ('y' * 300), ',"big":"%s"' % ('z' * 3500)][s[1]])
            R.healths.append(t)
            L.vt_cc_health(R.p, t.encode())
            if len(R.healths) % 3 == 0:
                tick()
        elif o == 'status':
            R.stats += 1
            L.vt_cc_status(R.p)
            if R.stats % 3 == 0:
                tick()
        elif o == 'line':
            for _ in range(s[1]):
                R.lines.append('line %d' % len(R.lines))
                L.vt_cc_line(R.p, R.lines[-1].encode())
            R.now = round(R.now + 0.1, 3)
            R.clock()
            tick()
        elif o == 'pulse':
            for _ in range(s[1]):
                g = max(1, int(c['capacity'] * s[3]))
                p = (g, max(1, g // c['ratio']), min(c['width'], g), 7.5)
                R.pulses.append(p)
                L.vt_cc_pulse(R.p, *p)
            R.now = round(R.now + 0.06, 3)
            R.clock()
            tick()
    for _ in range(3):
        R.now = round(R.now + 0.5, 3)
        R.clock()
        tick()
    for x in live.values():
        need(not x.auth or x.controls, 'client %d: no controls after the authentication', x.k)
        need(x.line is None or x.line >= len(R.lines) - 1 or '2' not in x.streams, 'client %d: lines up to %s of %d', x.k, x.line, len(R.lines))
        if any(s in SWEEPS for s in x.streams):
            left = [s for s in R.sweeps[x.sweep:] if any(s[2] >> (16 + SWEEPS.index(q)) & 1 for q in x.streams if q in SWEEPS)]
            need(not left, 'client %d: %d sweeps never came', x.k, len(left))
    for k in list(live):
        close(k)
    ctx.cls('%d clients' % min(3, len({s[1] for s in c['steps'] if s[0] in ('sub', 'cmd')} | {0})))
    return checked


def strat_race():
    letters = st.one_of(st.lists(st.sampled_from(DISPLAY), min_size=1, max_size=9, unique=True), st.lists(st.sampled_from(FLOAT), min_size=1, max_size=9, unique=True)).map(''.join)
    return st.fixed_dictionaries(dict(capacity=st.sampled_from([64, 256, 2048]), ratio=st.just(1), cores=st.integers(1, 3), pulseCores=st.just(1), groups=st.just(1), width=st.just(10), first=letters,
                                      sweeps=st.lists(st.sampled_from(SWEEPS), max_size=10, unique=True).map(''.join), health=st.booleans(), polls=st.integers(5, 40), jitter=st.sampled_from([10, 50, 200]),
                                      commands=st.lists(st.sampled_from(['x', 'i', 'i', 'ping', 'x;i', 'c']), min_size=1, max_size=4)))


def run_race(L, c, ctx):
    """The packets of the stream and the responses to the commands come from two threads and share the socket"""
    api(L)
    R = Radar(L, c)
    try:
        x = Client(R, 0)
        x.command(['s ' + c['first'] + c['sweeps'] + ('h' if c['health'] else '')], ';')
        n = L.vt_cc_race(R.p, 0, c['polls'], c['jitter'], (C.c_char_p * len(c['commands']))(*[s.encode() for s in c['commands']]), len(c['commands']))
        for i in range(c['polls']):
            R.gates.append(R.cap())
            R.size.append(30.0)
            R.list.append(0x03ff0000)
            if i % 3 == 2:
                R.healths.append('{"a":1}')
            if i % 9 == 8:
                R.sweeps.append((i - 3, 4, 0x03ff0000))
        R.marked = len(R.gates)
        for i in range(n):
            for p in c['commands'][i % len(c['commands'])].split(';'):
                if p == 'i':
                    x.expect.append('desc')
                elif p != 'ping':
                    x.expect.append(lambda b, s={'x': b'ACK. AScope', 'c': b'ACK. Buffer'}[p]: need(b.startswith(s), 'response %r instead of %r', b[:60], s))
        L.vt_cc_poll(R.p, 0)
        for t, b in x.packets():
            x.handle(t, b)
        x.end_sweep()
        need(not x.expect, '%d responses are missing', len(x.expect))
        need(x.next is None or x.next >= c['polls'] - 2 * c['cores'], 'rays are sent up to %s of %d', x.next, c['polls'])
        need(x.next is not None or c['polls'] <= 2 * c['cores'] + 1, 'no rays of %d', c['polls'])
        ctx.cls('%d+ commands' % (n // 10 * 10))
        return n > 3 and x.checked
    finally:
        R.free()


GOOD = '{"key":%d, "name":"Product %d", "symbol":"%s", "b":%d, "w":2, "unit":"dB", "colormap":"Z", "minimumValue":0}'
BAD = ['{"key":%d}', '{"name":"x", "symbol":"y", "b":1, "w":1, "n":%d}', '{"key":%d, "name":"x", "b":1, "w":1}', '{"key":%d, "name":"x", "symbol":"y", "b":1}', '{"key":%d, "name":"x", "symbol":"y", "w":1}', ' %d', '{"key":%d, "name', '{{{{"key":%d']


def strat_products():
    reg = st.tuples(st.just('reg'), st.integers(0, 1), st.sampled_from(['Y', 'sym', 'longsym', 'muchlonger', 'U1']), st.integers(0, 9))
    bad = st.tuples(st.just('bad'), st.integers(0, 1), st.integers(0, len(BAD) - 1))
    how = st.sampled_from(['good'] * 6 + ['short', 'long', 'full', 'pid', 'config', 'nopid', 'noconfig', 'junk', 'empty', 'gone'])
    sweep = st.tuples(st.just('sweep'), st.integers(2, 12), st.integers(1, 120), st.lists(how, min_size=6, max_size=6))
    return st.fixed_dictionaries(dict(capacity=st.just(128), ratio=st.just(1), cores=st.just(1), pulseCores=st.just(1), groups=st.just(1), width=st.just(10), depth=st.integers(1, 4), gates=st.integers(1, 2),
                                      steps=st.lists(st.one_of(reg, reg, bad, sweep, sweep, sweep, st.tuples(st.just('leave'), st.integers(0, 1))), min_size=3, max_size=14)))


def run_products(L, c, ctx):
    """Clients that return a product for each sweep they receive"""
    api(L)
    R = Radar(L, c)
    B = L.vt_cc_products_new(c['depth'], c['gates'])
    live, pids, config, done = {}, {}, 100, 0
    try:
        for s in c['steps']:
            if s[0] in ('reg', 'bad') and s[1] not in live:
                live[s[1]] = Client(R, s[1])
                live[s[1]].command(['s Y'], ';')
                pids[s[1]] = []
            if s[0] == 'reg':
                k, full, got = s[1], sum(map(len, pids.values())) >= c['depth'], []
                live[k].expect.append(lambda b: got.append(b.decode('latin1')))
                live[k].command(['u ' + GOOD % (s[3], s[3], s[2], s[3])], ';')
                if full:
                    need(got[0].startswith('NAK'), 'response %r though %d products are there already', got[0], c['depth'])
                else:
                    need(got[0].startswith('ACK. {'), 'response %r to a product', got[0])
                    j = json.loads(got[0][5:])
                    need((j['key'], j['symbol']) == (s[3], s[2][:7]), 'response %r to product %d, %s', got[0], s[3], s[2])
                    need(j['pid'] not in sum(pids.values(), []), 'product %d is given twice', j['pid'])
                    pids[k].append(j['pid'])
            elif s[0] == 'bad':
                got = []
                live[s[1]].expect.append(lambda b: got.append(b))
                live[s[1]].command(['u ' + BAD[s[2]] % 1], ';')
                need(got[0].startswith(b'NAK'), 'response %r to %r', got[0], BAD[s[2]])
            elif s[0] == 'leave' and s[1] in live:
                L.vt_cc_close(R.p, s[1])
                del live[s[1]], pids[s[1]]
            elif s[0] == 'sweep':
                n, gates = s[1], s[2]
                for _ in range(n):
                    R.gates.append(gates)
                    R.size.append(30.0)
                    R.list.append(0x03ff0000)
                    L.vt_cc_ray(R.p, gates, 30.0, 0x03ff0000, 0)
                R.marked = len(R.gates)
                config += 1
                L.vt_cc_config(R.p, config)
                R.sweeps.append((R.marked - n, n, 0x03ff0000))
                L.vt_cc_sweep(R.p, n)
                how = iter(s[3])
                for k, x in live.items():
                    want, ok = {}, True
                    for p in pids[k]:
                        w = next(how)
                        y = np.random.default_rng(config * 100 + p).standard_normal(n * gates).astype(np.float32)
                        head = '{"productId":%d, "configId":%d}' % (p + (w == 'pid'), config + (w == 'config'))
                        head = {'nopid': '{"configId":%d}' % config, 'noconfig': '{"productId":%d}' % p, 'junk': '\x01{]]]' * 9, 'empty': ''}.get(w, head)
                        body = {'short': y[:-1].tobytes(), 'long': y.tobytes() + b'\1' * 4, 'full': y.tobytes() + b'\1' * 80000}.get(w, y.tobytes())
                        if w == 'gone':
                            # What follows comes to nothing too
                            ok = False
                            break
                        b = head.encode('latin1')
                        if L.vt_cc_write(R.p, k, struct.pack('<HHIII', 1, 0, len(b), 0, 0) + b + struct.pack('<HHIII', 1, 0, len(body), 0, 0) + body, 32 + len(b) + len(body)):
                            ctx.exclude('more than the socket holds')
                            return False
                        if w == 'good':
                            want[p] = y
                        ctx.cls(w)
                    x.poll()
                    if ok:
                        left = L.vt_cc_unread(R.p, k)
                        need(left == 0, 'client %d: %d bytes of its products are left', k, left)
                    for p, y in want.items():
                        o = (C.c_double * 8)()
                        a = L.vt_cc_product(p, o)
                        need(a, 'product %d is not there', p)
                        need((o[0], o[1], o[2]) == (n, gates, config), 'product %d has %d rays of %d gates of sweep %d instead of %d of %d of %d', p, o[0], o[1], o[2], n, gates, config)
                        z = np.frombuffer(C.string_at(a, 4 * n * gates), np.float32)
                        need((z == y).all(), 'product %d is not what the client sent', p)
                        done += 1
            need(L.vt_cc_actives() == sum(map(len, pids.values())), '%d products instead of %d', L.vt_cc_actives(), sum(map(len, pids.values())))
        for k in list(live):
            L.vt_cc_close(R.p, k)
        need(L.vt_cc_actives() == 0, '%d products of clients that left', L.vt_cc_actives())
        return done
    finally:
        R.free()
        L.vt_cc_products_free(B)


LADDER = [233, 243, 51, 39, 21, 46, 28, 34, 226, 220, 208, 196, 124, 88, 201, 93]


def strat_art():
    step = st.one_of(st.tuples(st.just('ray'), st.integers(1, 20), st.floats(0.01, 1).map(lambda v: round(v, 2)), st.integers(0, 3)), st.tuples(st.just('poll')), st.tuples(st.just('poll')), st.tuples(st.just('size')))
    return st.fixed_dictionaries(dict(capacity=st.sampled_from([64, 128, 512, 2048]), ratio=st.just(1), cores=st.integers(1, 4), pulseCores=st.just(1), groups=st.just(1), width=st.just(10), steps=st.lists(step, min_size=4, max_size=20)))


def run_art(L, c, ctx):
    """Each ray is a line of the text display of reflectivity"""
    import re
    api(L)
    R = Radar(L, c)
    try:
        x = Client(R, 0)
        x.expect.append(lambda b: None)
        L.vt_cc_command(R.p, 0, b's 6')
        x.packets()
        following, stride, cols, sizes, lines, since, moved = None, None, 100, [(60, 1)], 0, 0, False
        for s in c['steps'] + [('poll',), ('ray', 3, 1.0, 0), ('poll',)]:
            if s[0] == 'ray':
                for _ in range(min(s[1], R.depth - 2 * c['cores'] - 2 - (len(R.gates) - since))):
                    R.ray(s[2], 30.0, 0x03ff03ff, s[3])
                continue
            if s[0] == 'size':
                L.vt_cc_command(R.p, 0, b's x')
                x.packets()
                moved = True
                continue
            R.now = round(R.now + 0.1, 3)
            R.clock()
            L.vt_cc_poll(R.p, 0)
            n = L.vt_cc_read(R.p, 0, None)
            b = C.create_string_buffer(n + 1)
            L.vt_cc_read(R.p, 0, b)
            since = len(R.gates)
            text = b.raw[:n].decode('latin1')
            if text and text[0] == '\x01' and len(text) == 16:
                # a beacon
                continue
            for line in text.split('\n')[:-1]:
                m = re.match(r'(\d{4}) ([ 0-9.]{5}) ([ 0-9.]{6}) ', line)
                need(m, 'line %r', line[:80])
                i = int(m.group(1))
                if following is None or moved:
                    need(i < R.marked, 'line of ray %d of %d', i, R.marked)
                    following, stride, moved = i, None, False
                need(i == following, 'line of ray %d instead of %d', i, following)
                need((float(m.group(2)), float(m.group(3))) == (round(0.25 * (i % 11) + 1e-9, 2), i % 360), 'ray %d at %s %s', i, m.group(2), m.group(3))
                cells, now = [], None
                for e in re.finditer(r'\x1b\[48;5;(\d+)m| |\x1b\[0?m|\x1b\[[0-9;]*m|.', line[m.end():].rstrip('\r')):
                    if e.group(1):
                        now = int(e.group(1))
                    elif e.group(0) == ' ':
                        cells.append(now)
                g = R.gates[i]
                fits = [q for q in ([stride] if stride else range(1, max(2, g) + 1)) if cells == [LADDER[min(max(int(u) - 54, 0) // 10, 15)] for u in u8(i, 0, np.arange(g // q) * q)[:len(cells)]] and (g // q == len(cells) or len(cells) in (60, 100))]
                need(fits, 'ray %d of %d gates is drawn with %d cells %s', i, g, len(cells), cells[:12])
                following += 1
                lines += 1
            need(following is None or moved or following >= R.marked - 1, 'lines up to %s of %d', following, R.marked)
        ctx.cls('%d+ lines' % (lines // 10 * 10))
        return lines
    finally:
        R.free()


def strat_radars():
    return st.lists(st.tuples(st.booleans(), st.integers(0, 9)), min_size=1, max_size=14).map(lambda s: dict(steps=s))


def run_radars(L, c, ctx):
    """Radars come and go; a client of one that went stays without"""
    api(L)
    R = Radar(L, dict(capacity=64, ratio=1, cores=1, pulseCores=1, groups=1, width=10))
    try:
        x = Client(R, 0)
        x.command(['s zh'], ';')
        has, ops, model, gone = [9], [], [], False
        for add, k in c['steps']:
            k = 9 if k == 8 else k
            if add == (k in has):
                continue
            ops.append(k if add else k + 10)
            if add:
                has = (has + [k])[:4]
            else:
                has.remove(k)
                gone |= k == 9
            model += [len(has)] + has + [0 if gone else 1, -1, -1, -1]
        out = (C.c_int * 400)()
        n = L.vt_cc_radars(R.p, (C.c_int * (len(ops) + 1))(*ops), len(ops), out)
        need(list(out[:n]) == model, 'radars %s instead of %s after %s', list(out[:n]), model, ops)
        R.ray(1.0, 30.0, 0x03ff03ff, 0)
        L.vt_cc_poll(R.p, 0)
        L.vt_cc_command(R.p, 0, b'ping')
        L.vt_cc_command(R.p, 0, b'i')
        x.expect.append((lambda b: need(b.startswith(b'NAK'), 'response %r without a radar', b[:60])) if gone else 'desc')
        for t, b in x.packets():
            x.handle(t, b)
        need(not x.expect, 'no response, %s', 'without a radar' if gone else 'with one')
        return len(ops) > 1
    finally:
        R.free()


SUBS = [Sub('art', strat_art, run_art, 150, 4000, hang=60, heavy=True),
        Sub('radars', strat_radars, run_radars, 150, 4000, hang=60),
        Sub('products', strat_products, run_products, 250, 8000, hang=120, heavy=True),
        Sub('race', strat_race, run_race, 120, 3000, hang=120, heavy=True),
        Sub('clients', session, run_session, 500, 20000, heavy=True)]
