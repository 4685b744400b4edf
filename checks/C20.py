"""Messages of the websocket client arrive whole, once and in order, however the stream is split or joined."""
import base64, ctypes as C, hashlib, socket, struct, threading, time
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need

ID = 'C20'
RULE = ('scripts of server frames (text, binary, ping, pong, close; 0..1 MB, masked or not), client messages and pauses, over real loopback connections whose byte stream is cut at generated places, with the '
        'handshake response in pieces and joined with the first frames; bad handshakes; non-trivial = at least two frames, one of them cut or joined; distinct by case content')
ASSUMPTIONS = ['messages come in single frames', 'payload buffers stay as they are until sent', 'frames fit the 1 MB buffer of the client unless the case is about one that does not', 'plain connections only']
GUID = b'258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
TEXT, BINARY, CLOSE, PING, PONG = 1, 2, 8, 9, 10

size = st.one_of(st.integers(0, 300), st.sampled_from([0, 1, 124, 125, 126, 127, 65535, 65536]), st.integers(0, 5000), st.integers(60000, 70000))
frame = st.tuples(st.sampled_from([TEXT, BINARY, BINARY, PING, PONG]), size, st.booleans())
action = st.one_of(frame.map(lambda f: ['s'] + list(f)), frame.map(lambda f: ['s'] + list(f)), size.map(lambda n: ['c', max(1, n)]), st.integers(0, 3).map(lambda n: ['w', n]))


def strat():
    return st.fixed_dictionaries(dict(
        actions=st.lists(action, min_size=1, max_size=14), onopen=st.lists(st.integers(1, 400), max_size=3), cuts=st.lists(st.tuples(st.floats(0, 1), st.integers(0, 2)), max_size=12),
        small=st.sampled_from([0, 0, 1, 3]), joined=st.integers(0, 3), order=st.permutations([0, 1, 2, 3]), case=st.sampled_from(['plain', 'lower', 'upper']), hcuts=st.lists(st.floats(0, 1), max_size=3),
        big=st.sampled_from([0, 0, 0, 0, 0, 0, 900000, 1048566]), bigc=st.sampled_from([0, 0, 0, 0, 0, 300000, 1048561]), end=st.sampled_from(['close', 'closecode', 'tcp', 'stop']), ping=st.sampled_from([0.0, 0.0, 0.004]),
        seed=st.integers(0, 2 ** 32 - 1)))


def encode(op, payload, mask=None):
    b = bytes([0x80 | op])
    m = 0x80 if mask is not None else 0
    n = len(payload)
    if n < 126:
        b += bytes([m | n])
    elif n < 65536:
        b += bytes([m | 126]) + struct.pack('>H', n)
    else:
        b += bytes([m | 127]) + struct.pack('>Q', n)
    if mask is not None:
        k = np.frombuffer((mask * (n // 4 + 1))[:n], np.uint8)
        return b + mask + (np.frombuffer(payload, np.uint8) ^ k).tobytes()
    return b + payload


class Peer:
    """The server side: sends what it is told, parses what comes."""
    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(4)
        self.s.settimeout(10)
        self.port = self.s.getsockname()[1]
        self.buf, self.frames, self.error, self.eof = b'', [], None, False

    def request(self):
        self.c, _ = self.s.accept()
        self.c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.c.settimeout(10)
        b = b''
        while b'\r\n\r\n' not in b:
            x = self.c.recv(4096)
            if not x:
                raise OSError('no request')
            b += x
        return b

    def response(self, req, order, case, digest=None, upgrade='websocket', connection='Upgrade'):
        key = [l.split(b':', 1)[1].strip() for l in req.split(b'\r\n') if l.lower().startswith(b'sec-websocket-key')][0]
        d = digest or base64.b64encode(hashlib.sha1(key + GUID).digest()).decode()
        lines = ['Upgrade: ' + upgrade, 'Connection: ' + connection, 'Sec-WebSocket-Accept: ' + d, 'Server: daphne']
        if case == 'lower':
            lines = [l.split(':')[0].lower() + ':' + l.split(':', 1)[1] for l in lines]
        elif case == 'upper':
            lines = [l.split(':')[0].upper() + ':' + l.split(':', 1)[1] for l in lines]
        return ('HTTP/1.1 101 Switching Protocols\r\n' + '\r\n'.join(lines[k] for k in order) + '\r\n\r\n').encode()

    def reader(self):
        try:
            while True:
                x = self.c.recv(1 << 18)
                if not x:
                    self.eof = True
                    break
                self.buf += x
                while self.parse():
                    pass
        except OSError as e:
            self.eof = True
        if self.error is None and self.buf and not self.cut_ok:
            self.error = 'an incomplete frame of %d bytes at the end' % len(self.buf)

    cut_ok = False

    def parse(self):
        b = self.buf
        if self.error or len(b) < 2:
            return False
        n, o = b[1] & 127, 2
        if not b[1] & 128:
            self.error = 'a frame of the client without mask'
            return False
        if b[0] & 0x70 or not b[0] & 0x80:
            self.error = 'first byte of a frame of the client is %02x' % b[0]
            return False
        if n == 126:
            if len(b) < 4:
                return False
            n, o = struct.unpack('>H', b[2:4])[0], 4
            if n < 126:
                self.error = 'length %d is not in its shortest form' % n
        elif n == 127:
            if len(b) < 10:
                return False
            n, o = struct.unpack('>Q', b[2:10])[0], 10
            if n < 65536:
                self.error = 'length %d is not in its shortest form' % n
        if len(b) < o + 4 + n:
            return False
        k = np.frombuffer((b[o:o + 4] * (n // 4 + 1))[:n], np.uint8)
        self.frames.append((b[0] & 15, (np.frombuffer(b[o + 4:o + 4 + n], np.uint8) ^ k).tobytes()))
        self.buf = b[o + 4 + n:]
        return True

    def send(self, data, cuts, wait):
        o = 0
        for c, w in sorted(cuts) + [(len(data), 0)]:
            if c > o:
                self.c.sendall(data[o:c])
                o = c
            if w:
                time.sleep(0.0006 * w)

    def close(self):
        for x in (getattr(self, 'c', None), self.s):
            try:
                x and x.close()
            except OSError:
                pass


def wait(cond, limit=8.0):
    t = time.time()
    while not cond():
        if time.time() - t > limit:
            return False
        time.sleep(0.0003)
    return True


def api(L):
    L.vt_ws_new.restype = C.c_void_p
    L.vt_ws_log.restype = C.c_size_t
    L.vt_ws_text.restype = C.c_char_p


def messages(L, w):
    n = L.vt_ws_log(w, None, C.c_size_t(0))
    b = C.create_string_buffer(n + 1)
    L.vt_ws_log(w, b, C.c_size_t(n))
    raw, o, out = b.raw[:n], 0, []
    while o < n:
        m = struct.unpack('<Q', raw[o:o + 8])[0]
        out.append(raw[o + 8:o + 8 + m])
        o += 8 + m
    return out


def show(b):
    return '%d bytes %s' % (len(b), b[:12].hex())


def run(L, c, ctx):
    api(L)
    rng = np.random.default_rng(c['seed'])
    p = Peer()
    w = C.c_void_p(L.vt_ws_new(b'http://127.0.0.1:%d' % p.port if c['seed'] & 1 else b'127.0.0.1:%d' % p.port, b'/ws/radar/x/', C.c_float(c['ping']), C.c_int(int(rng.choice([200, 1000, 5000])))))
    need(w.value, 'no client')
    keep, started = [], False
    try:
        sent, queued = [], []
        for n in c['onopen']:
            b = C.create_string_buffer(rng.integers(1, 255, n, dtype=np.uint8).tobytes(), n)
            keep.append(b)
            L.vt_ws_onopen(w, b, C.c_size_t(n))
            sent.append(b.raw)
        # The whole stream from the server, with the client's sends in between
        parts, inbound, pings = [[]], [], []
        acts = list(c['actions'])
        if c['big']:
            acts.insert(int(rng.integers(0, len(acts) + 1)), ['s', BINARY, c['big'], False])
        if c['bigc']:
            acts.insert(int(rng.integers(0, len(acts) + 1)), ['c', c['bigc']])
        for a in acts:
            if a[0] == 's':
                op, n, masked = a[1:]
                if op in (PING, PONG):
                    n = min(n, 125)
                body = rng.integers(1 if op in (PING, PONG) else 0, 256, n, dtype=np.uint8).tobytes()
                if op in (TEXT, BINARY):
                    inbound.append(body)
                elif op == PING:
                    pings.append(body)
                m = rng.integers(0, 256, 4, dtype=np.uint8).tobytes() if masked and n < 1000000 else None
                parts[-1].append(encode(op, body, m))
            else:
                parts.append(a)
                parts.append([])
        L.vt_ws_start(w)
        started = True
        req = p.request()
        need(req.startswith(b'GET /ws/radar/x/ HTTP/1.1\r\n') and b'Host: 127.0.0.1' in req and b'Sec-WebSocket-Version: 13' in req, 'request %r', req[:200])
        rsp = p.response(req, c['order'], c['case'])
        head = b''.join(parts[0][:c['joined']])
        parts[0] = parts[0][c['joined']:]
        first = rsp + head
        t = threading.Thread(target=p.reader, daemon=True)
        t.start()
        p.send(first, [(int(x * len(rsp)), 1) for x in c['hcuts']] + [(len(rsp) + int(x * len(head)), k) for x, k in c['cuts'][:2] if head], 1)
        need(wait(lambda: L.vt_ws_get(w, 6) == 1 or p.eof), 'the connection did not open')
        need(not p.eof or L.vt_ws_get(w, 0), 'a good handshake was refused')
        k = 0
        for part in parts:
            if part and part[0] == 'c':
                b = C.create_string_buffer(rng.integers(0, 256, part[1], dtype=np.uint8).tobytes(), part[1])
                keep.append(b)
                sent.append(b.raw)
                need(L.vt_ws_send(w, b, C.c_size_t(part[1])) == 0, 'message of %d bytes not taken', part[1])
            elif part and part[0] == 'w':
                time.sleep(0.0005 * part[1])
            elif part:
                data = b''.join(part)
                if c['small'] and len(data) < 600:
                    cuts = [(i, 1 if len(data) < 40 else 0) for i in range(0, len(data), c['small'])]
                else:
                    cuts = [(int(x * len(data)), v) for x, v in c['cuts']]
                p.send(data, cuts, 1)
        done = lambda: L.vt_ws_get(w, 2) >= len(inbound) and sum(f[0] == BINARY for f in p.frames) >= len(sent) and sum(f[0] == PONG for f in p.frames) >= len(pings)
        wait(lambda: done() or p.error or p.eof)
        got = messages(L, w)
        for i, (x, y) in enumerate(zip(got, inbound)):
            need(x == y, 'message %d from the server is %s, expected %s', i, show(x), show(y))
        need(len(got) == len(inbound), '%d messages from the server, expected %d', len(got), len(inbound))
        need(not p.error, '%s', p.error)
        out = [f[1] for f in p.frames if f[0] == BINARY]
        for i, (x, y) in enumerate(zip(out, sent)):
            need(x == y, 'message %d from the client is %s, expected %s', i, show(x), show(y))
        need(len(out) == len(sent), '%d messages from the client, expected %d', len(out), len(sent))
        pongs = [f[1] for f in p.frames if f[0] == PONG]
        need(pongs == pings, 'pongs %s for pings %s', [x.hex() for x in pongs], [x.hex() for x in pings])
        need(all(f[0] in (BINARY, PONG, PING) for f in p.frames), 'frames %s', [f[0] for f in p.frames])
        need(c['ping'] or not any(f[0] == PING for f in p.frames), 'a ping before its time')
        need(L.vt_ws_get(w, 3) == 0, 'payload not terminated')
        need(L.vt_ws_get(w, 0) == 1 and L.vt_ws_get(w, 1) == 0 and not p.eof, 'opened %d times, closed %d times before the end', L.vt_ws_get(w, 0), L.vt_ws_get(w, 1))
        if c['end'] == 'close':
            p.c.sendall(encode(CLOSE, b''))
        elif c['end'] == 'closecode':
            p.c.sendall(encode(CLOSE, struct.pack('>H', 1000) + b'bye'))
        elif c['end'] == 'tcp':
            p.cut_ok = True
            p.c.shutdown(socket.SHUT_WR)
        if c['end'] != 'stop':
            need(wait(lambda: L.vt_ws_get(w, 1) >= 1), 'the client did not close after %s', c['end'])
            need(wait(lambda: p.eof), 'the connection of the client is still open after %s', c['end'])
        p.s.close()
        L.vt_ws_stop(w)
        started = False
        need(L.vt_ws_get(w, 1) == 1, 'closed %d times', L.vt_ws_get(w, 1))
        need(L.vt_ws_get(w, 2) == len(inbound), 'more messages at the end')
    finally:
        p.cut_ok = True
        p.close()
        if started:
            L.vt_ws_stop(w)
        L.vt_ws_free(w)
    for op in {f[0] for f in p.frames}:
        ctx.cls({BINARY: 'client messages', PONG: 'pongs', PING: 'pings'}[op])
    ctx.cls('end ' + c['end'])
    if c['joined'] and head:
        ctx.cls('frames joined with the handshake')
    return len(inbound) + len(pings) + len(sent) > 1


def run_bad(L, c, ctx):
    """No connection without a proper handshake, and a frame too large ends the connection; the client can be stopped at any time."""
    api(L)
    rng = np.random.default_rng(c['seed'])
    p = Peer()
    w = C.c_void_p(L.vt_ws_new(b'127.0.0.1:%d' % p.port, b'/', C.c_float(0), C.c_int(500)))
    kind = c['kind']
    try:
        L.vt_ws_start(w)
        req = p.request()
        ok = p.response(req, [0, 1, 2, 3], 'plain')
        t = threading.Thread(target=p.reader, daemon=True)
        t.start()
        data = {'digest': p.response(req, [0, 1, 2, 3], 'plain', digest='AAAAAAAAAAAAAAAAAAAAAAAAAAA='), 'upgrade': p.response(req, [0, 1, 2, 3], 'plain', upgrade='h2c'),
                'connection': p.response(req, [0, 1, 2, 3], 'plain', connection='close'), 'plain': b'HTTP/1.1 400 Bad Request\r\n\r\n', 'cut': ok[:int(c['part'] * (len(ok) - 1))], 'empty': b'',
                'long': b'HTTP/1.1 101 x\r\nUpgrade: ' + b'w' * int(1 + c['part'] * 3000) + b'\r\nConnection: ' + b'u' * 100 + b'\r\nSec-WebSocket-Accept: ' + b'x' * 300 + b'\r\n\r\n',
                'noise': rng.integers(0, 256, int(c['part'] * 5000), dtype=np.uint8).tobytes(), 'endless': b'x' * (1 << 20) + b'y' * int(c['part'] * 100), 'silent': b'',
                'large': ok + bytes([0x82, 127]) + struct.pack('>Q', [1 << 20, (1 << 20) + 1, 1 << 32, (1 << 63) + 5, (1 << 64) - 1][c['seed'] % 5]) + b'z' * int(c['part'] * 100000),
                'reserved': ok + bytes([0x80 | int(rng.choice([3, 4, 5, 6, 7, 11, 12, 13, 14, 15])), 3]) + b'abc' + encode(TEXT, b'good')}[kind]
        try:
            p.send(data, [(int(x * len(data)), 1) for x in c['cuts']], 1)
            if kind not in ('silent', 'reserved', 'large'):
                p.c.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        if kind == 'reserved':
            need(wait(lambda: L.vt_ws_get(w, 2) == 1), 'the message after a frame of an unknown kind did not come')
            need(messages(L, w) == [b'good'], 'messages %s after a frame of an unknown kind', messages(L, w))
        elif kind == 'large':
            need(wait(lambda: L.vt_ws_get(w, 1) == 1), 'a frame larger than the buffer did not end the connection')
            need(L.vt_ws_get(w, 2) == 0, 'a frame larger than the buffer gave a message')
        else:
            if kind == 'silent':
                time.sleep(0.003)
            else:
                need(wait(lambda: p.eof or L.vt_ws_get(w, 0)), 'the client holds on to a connection with a bad handshake (%s)', kind)
            need(L.vt_ws_get(w, 0) == 0 and L.vt_ws_get(w, 6) == 0 and L.vt_ws_get(w, 2) == 0, 'a bad handshake (%s) was accepted', kind)
    finally:
        p.close()
        L.vt_ws_stop(w)
        L.vt_ws_free(w)
    ctx.cls(kind)
    return True


def run_queue(L, c, ctx):
    """The queue keeps what it holds; hosts and ports are taken from the address."""
    api(L)
    host = c['host']
    url = (c['scheme'] + host + (':%d' % c['port'] if c['port'] else '')).encode()
    w = C.c_void_p(L.vt_ws_new(url, c['path'].encode(), C.c_float(0), C.c_int(500)))
    need(w.value, 'no client for %r', url)
    want = (host[:79] or 'localhost', c['port'] or (443 if c['scheme'] == 'https://' else 80), c['scheme'] == 'https://' or c['port'] == 443, c['path'][:79] or '/')
    got = (L.vt_ws_text(w, 0).decode(), L.vt_ws_get(w, 4), bool(L.vt_ws_get(w, 5)), L.vt_ws_text(w, 1).decode())
    need(got == want, '%r %r gives %s, expected %s', url, c['path'], got, want)
    n, b = c['n'], C.create_string_buffer(b'x')
    taken = sum(L.vt_ws_send(w, b, C.c_size_t(1)) == 0 for _ in range(n))
    need(taken == min(n, 999) and L.vt_ws_get(w, 9) == taken, '%d of %d messages taken, %d in the queue', taken, n, L.vt_ws_get(w, 9))
    L.vt_ws_free(w)
    return True


bad = lambda: st.fixed_dictionaries(dict(kind=st.sampled_from(['digest', 'upgrade', 'connection', 'plain', 'cut', 'cut', 'empty', 'long', 'noise', 'endless', 'silent', 'large', 'reserved']), part=st.floats(0, 1),
                                         cuts=st.lists(st.floats(0, 1), max_size=3), seed=st.integers(0, 2 ** 32 - 1)))
queue = lambda: st.fixed_dictionaries(dict(scheme=st.sampled_from(['', 'http://', 'https://']), host=st.one_of(st.from_regex('[a-z0-9.-]{1,30}', fullmatch=True), st.just('h' * 100)), port=st.sampled_from([0, 0, 1, 80, 443, 8000, 65535]),
                                           path=st.one_of(st.from_regex('(/[a-z]{1,9}){0,5}', fullmatch=True), st.just('/' + 'p' * 200)), n=st.one_of(st.integers(0, 20), st.integers(990, 2100))))
SUBS = [Sub('frames', strat, run, 1600, 30000, hang=40), Sub('handshake', bad, run_bad, 500, 10000, hang=40), Sub('queue', queue, run_queue, 300, 5000)]
PROBES = {}
