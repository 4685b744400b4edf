"""The socket server and client move commands and packets whole, once and in order."""
import ctypes as C, os, random, socket, struct, threading, time
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need

ID = 'C21'
RULE = ('real loopback connections and socket pairs: command scripts of 1-3 clients against a server that answers and streams at the same time, packet and line streams against a client in its three formats, both with the '
        'byte stream cut at generated places and connections dropped in the middle, sends that take only part of what they get; non-trivial = at least two messages one of which was cut or joined; distinct by case content')
ASSUMPTIONS = ['a client of the server stays connected until its commands were answered', 'a packet arrives within the timeout of the receiver', 'packets do not exceed 16 MB', 'command lines have no NUL byte']
NEWLINE, CONSTANT, HEADER = 0, 1, 2
EOL = b'\r\n'


def wait(cond, limit=8.0):
    t = time.time()
    while not cond():
        if time.time() - t > limit:
            return False
        time.sleep(0.0003)
    return True


def api(L):
    L.vt_srv_new.restype = C.c_void_p
    L.vt_srv_new.argtypes = [C.c_int] * 6 + [C.c_uint32, C.c_char_p]
    for f in ('vt_srv_state', 'vt_srv_free'):
        getattr(L, f).argtypes = [C.c_void_p]
    L.vt_srv_get.argtypes = [C.c_void_p, C.c_int]
    L.vt_srv_log.restype = C.c_size_t
    L.vt_srv_log.argtypes = [C.c_void_p, C.c_void_p]
    L.vt_cli_log.restype = C.c_size_t
    L.vt_cli_log.argtypes = [C.c_void_p, C.c_void_p]
    L.vt_cli_new.restype = C.c_void_p
    L.vt_cli_new.argtypes = [C.c_int] * 8
    L.vt_cli_get.argtypes = [C.c_void_p, C.c_int]
    L.vt_cli_free.argtypes = [C.c_void_p]
    L.vt_op_new.restype = C.c_void_p
    L.vt_op_new.argtypes = [C.c_int, C.c_int]
    L.vt_op_free.argtypes = [C.c_void_p]
    L.vt_op_receive.restype = C.c_long
    L.vt_op_receive.argtypes = [C.c_void_p, C.c_void_p, C.c_void_p]
    L.vt_net_send.restype = C.c_long
    L.vt_net_send.argtypes = [C.c_void_p, C.c_int, C.c_int, C.c_void_p, C.c_void_p]
    L.vt_send_set.argtypes = [C.c_void_p, C.c_int]
    L.vt_net_fill.argtypes = [C.c_void_p, C.c_size_t, C.c_uint32]


def fill(L, n, x):
    b = (C.c_uint8 * (n + 1))()
    L.vt_net_fill(C.addressof(b), n, x & 0xffffffff)
    return bytes(b)[:n]


def blob(f, h, *a):
    n = f(h, None)
    b = (C.c_uint8 * (n + 1))()
    f(h, C.addressof(b))
    return bytes(b)[:n]


def cutsend(s, data, cuts, unit=0.0006):
    """Sends data in pieces; cuts are (fraction, wait)."""
    o = 0
    for c, w in sorted((int(f * len(data)), w) for f, w in cuts) + [(len(data), 0)]:
        if c > o:
            s.sendall(data[o:c])
            o = c
        if w:
            time.sleep(unit * w)


cutlist = st.lists(st.tuples(st.floats(0, 1), st.integers(0, 3)), max_size=12)

# ------------------------------------------------------------------ sends that take only part
S_SIZES = st.one_of(st.integers(0, 40), st.integers(0, 3000), st.sampled_from([0, 1, 16, 4096]))


def send_strat():
    step = st.one_of(st.integers(1, 50), st.integers(1, 50), st.integers(1, 1500), st.just(0), st.just(-1))
    return st.fixed_dictionaries(dict(op=st.booleans(), sizes=st.lists(S_SIZES, min_size=1, max_size=20), plan=st.lists(step, max_size=60), error=st.sampled_from([False, False, False, True]), seed=st.integers(0, 2 ** 31)))


def run_send(L, case, ctx):
    api(L)
    rng = np.random.default_rng(case['seed'])
    data = [rng.integers(0, 256, n, dtype=np.uint8).tobytes() for n in case['sizes']]
    # no more than two refusals in a row: longer ones may run into the timeout
    plan, zero = [], 0
    for p in case['plan']:
        zero = zero + 1 if p <= 0 else 0
        if zero > 2:
            continue
        plan.append(p)
    if case['error']:
        while plan and plan[-1] <= 0:
            plan.pop()
        plan.append(-2)
    a, b = socket.socketpair()
    h = L.vt_op_new(a.fileno(), 5) if case['op'] else None
    arr = (C.c_int * max(1, len(plan)))(*plan)
    bufs = [(C.c_char * (len(d) + 1)).from_buffer_copy(d + b'\0') for d in data]
    P = (C.c_void_p * len(data))(*[C.addressof(x) for x in bufs])
    M = (C.c_size_t * len(data))(*[len(d) for d in data])
    L.vt_send_set(arr, len(plan))
    got = bytearray()

    def reader():
        while True:
            x = b.recv(1 << 16)
            if not x:
                break
            got.extend(x)
    t = threading.Thread(target=reader, daemon=True)
    t.start()
    r = L.vt_net_send(h, a.fileno(), len(data), C.addressof(P), C.addressof(M))
    used = L.vt_send_used()
    L.vt_send_set(arr, 0)
    a.shutdown(socket.SHUT_WR)
    t.join(10)
    a.close()
    b.close()
    if h:
        L.vt_op_free(h)
    whole = b''.join(data)
    reached = case['error'] and used >= len(plan)
    if reached:
        need(r < 0, 'a failed send returned %d', r)
        need(whole.startswith(bytes(got)), 'what was sent before the failure is not the beginning of the payloads')
        n = sum(p for p in plan if p > 0)
        ctx.cls('send failed')
    else:
        need(r == len(whole), 'sending %d bytes in %d payloads returned %d', len(whole), len(data), r)
        need(bytes(got) == whole, 'the %d bytes received differ from the %d bytes of the payloads from byte %d on', len(got), len(whole), next((i for i, (x, y) in enumerate(zip(got, whole)) if x != y), min(len(got), len(whole))))
    ctx.cls('op' if case['op'] else 'network')
    if len(data) > 10:
        ctx.cls('more than 10 payloads')
    ctx.cls('partial sends', sum(1 for p in plan[:used] if p > 0))
    return used > 0 and len(plan) > 1 and len(whole) > 1


# ------------------------------------------------------------------ user payloads
def payload_strat():
    return st.fixed_dictionaries(dict(sizes=st.lists(st.one_of(st.integers(0, 30), st.integers(0, 70000)), min_size=1, max_size=5), cuts=cutlist, close=st.sampled_from([None, None, None, 0.3, 0.8]),
                                      small=st.sampled_from([0, 0, 1, 2, 5]), nonblock=st.booleans(), seed=st.integers(0, 2 ** 31)))


def run_payload(L, case, ctx):
    api(L)
    rng = np.random.default_rng(case['seed'])
    packets = []
    for k, n in enumerate(case['sizes']):
        d = rng.integers(0, 256, n, dtype=np.uint8).tobytes()
        packets.append((struct.pack('<HHII4x', 3 + k, 7 * k, n, n + 1), d))
    stream = b''.join(h + d for h, d in packets)
    limit = len(stream) if case['close'] is None else int(case['close'] * len(stream))
    a, b = socket.socketpair()
    if case['nonblock']:
        b.setblocking(False)
    h = L.vt_op_new(b.fileno(), 100)
    cuts = [(f, w) for f, w in case['cuts']]
    L_div = C.c_int.in_dll(L, 'vt_usleep_divide')
    L_div.value = 40

    def sender():
        o = 0
        s = stream[:limit]
        if case['small']:
            for k in range(0, min(len(s), 48), case['small']):
                a.sendall(s[k:min(k + case['small'], 48)])
                time.sleep(0.0002)
            s = s[48:]
        try:
            cutsend(a, s, cuts)
            a.shutdown(socket.SHUT_WR)
        except OSError:
            pass
    t = threading.Thread(target=sender, daemon=True)
    t.start()
    out = (C.c_uint8 * (max(case['sizes']) + 64))()
    de = (C.c_uint8 * 16)()
    o = 0
    err = None
    for k, (hd, d) in enumerate(packets):
        C.memset(out, 0xa5, C.sizeof(out))
        r = L.vt_op_receive(h, C.addressof(out), C.addressof(de))
        o += 16 + len(d)
        if o > limit:
            if r >= 0:
                err = 'packet %d was reported received (%d) although the connection ended within it' % (k, r)
            ctx.cls('cut short')
            break
        if bytes(de)[:12] != hd[:12]:
            err = 'delimiter %d differs' % k
        elif len(d) and r != len(d):
            err = 'payload %d of %d bytes returned %d' % (k, len(d), r)
        elif bytes(out)[:len(d)] != d:
            err = 'payload %d of %d bytes differs' % (k, len(d))
        elif any(x != 0xa5 for x in bytes(out)[len(d) + 1:]):
            err = 'bytes after payload %d were overwritten' % k
        if err:
            break
    a.close()
    t.join(5)
    b.close()
    L.vt_op_free(h)
    L_div.value = 1
    need(err is None, '%s', err)
    if case['small']:
        ctx.cls('delimiter in pieces')
    return len(packets) > 1 and (bool(case['small']) or any(0 < f < 1 for f, w in cuts))


# ------------------------------------------------------------------ commands to the server
word = st.text(alphabet='abcdefghijklmnop0123456789:.,{}" -', min_size=1, max_size=30)
line = st.one_of(word, word, word, st.just(''), st.tuples(word, st.integers(1, 40)).map(lambda a: a[0] * a[1]), st.integers(500, 515).map(lambda n: 'q' * n), st.integers(1000, 1600).map(lambda n: 'z' * n))


def server_strat():
    client = st.fixed_dictionaries(dict(lines=st.lists(st.tuples(line, st.sampled_from(['\n', '\r\n', ' \r\n'])), min_size=1, max_size=24), cuts=cutlist, rcvbuf=st.sampled_from([0, 0, 4096]), slow=st.sampled_from([0, 0, 0, 1]),
                                        end=st.sampled_from(['close', 'close', 'bye', 'shut', 'stop'])))
    return st.fixed_dictionaries(dict(clients=st.lists(client, min_size=1, max_size=3), delay=st.sampled_from([0, 0, 0, 300, 2000]), stream=st.sampled_from([0, 0, 20, 40]), reply=st.sampled_from([1, 1, 2, 3]),
                                      short=st.lists(st.integers(1, 400), max_size=60), seed=st.integers(1, 2 ** 31)))


def port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


def pieces(text):
    """The commands a line makes: 510 characters at most, trailing blanks removed."""
    out = []
    while len(text) > 510:
        out.append(text[:510])
        text = text[510:]
    out.append(text)
    return out


def expect(lines):
    out = []
    for t, e in lines:
        for x in pieces(t + e):
            # as RKStripTail: blanks and line ends at the tail, the first character stays
            y = x.rstrip(' \t\r\n')
            out.append(y)
    return out


class Reader:
    def __init__(self, p, c):
        self.s = socket.socket()
        if c['rcvbuf']:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, c['rcvbuf'])
        self.s.settimeout(15)
        self.s.connect(('127.0.0.1', p))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf, self.eof, self.slow = bytearray(), False, c['slow']
        self.packets = []
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        o = 0
        try:
            while True:
                x = self.s.recv(3000 if self.slow else 1 << 18)
                if not x:
                    break
                self.buf.extend(x)
                while len(self.buf) - o >= 16:
                    ty, su, n, m = struct.unpack('<HHII', self.buf[o:o + 12])
                    if n > 400000:
                        self.packets.append(('bad', su, n, b''))
                        o = len(self.buf)
                        break
                    if len(self.buf) - o < 16 + n:
                        break
                    self.packets.append((ty, su, n, bytes(self.buf[o + 16:o + 16 + n])))
                    o += 16 + n
                if self.slow:
                    time.sleep(0.0002)
        except OSError:
            pass
        self.left = len(self.buf) - o
        self.eof = True


def run_server(L, case, ctx):
    api(L)
    p = port()
    h = L.vt_srv_new(p, 16, case['delay'], case['stream'], case['reply'], 0, case['seed'], b'vt')
    if not L.vt_srv_state(h):
        L.vt_srv_free(h)
        ctx.cls('port taken')
        return False
    sh = (C.c_int * max(1, len(case['short'])))(*case['short'])
    L.vt_send_set(sh, len(case['short']))
    cl = case['clients']
    rs, tx = [], []
    err = None
    try:
        for k, c in enumerate(cl):
            rs.append(Reader(p, c))
            if not wait(lambda: L.vt_srv_get(h, 2) == k + 1):
                err = 'client %d was not welcomed' % k
        for k, c in enumerate(cl):
            data = ''.join(t + e for t, e in c['lines']).encode()

            def go(s=rs[k].s, data=data, c=c):
                try:
                    cutsend(s, data, c['cuts'])
                    if c['end'] == 'shut' and not case['delay']:
                        pass
                except OSError:
                    pass
            t = threading.Thread(target=go, daemon=True)
            t.start()
            tx.append(t)
        for t in tx:
            t.join(20)
        exp = [expect(c['lines']) for c in cl]
        total = sum(len(e) for e in exp)
        nstream = case['stream']
        if not err and not wait(lambda: L.vt_srv_get(h, 0) >= total, 12):
            err = 'only %d of %d commands were handled' % (L.vt_srv_get(h, 0), total)
        want = [len(e) + nstream for e in exp]
        if not err and not wait(lambda: all(len(r.packets) >= w for r, w in zip(rs, want)), 12):
            err = 'packets missing: %s of %s' % ([len(r.packets) for r in rs], want)
        # the ends of the connections
        ended = 0
        for k, c in enumerate(cl):
            if c['end'] == 'bye':
                rs[k].s.sendall(b'bye\r\n')
                ended += 1
            elif c['end'] == 'close' or c['end'] == 'shut':
                rs[k].s.shutdown(socket.SHUT_WR)
                ended += 1
        for k, c in enumerate(cl):
            if not err and c['end'] != 'stop' and not wait(lambda: rs[k].eof, 6):
                err = 'the server did not close the connection of client %d (%s)' % (k, c['end'])
        if not err and not wait(lambda: L.vt_srv_get(h, 1) >= ended, 4):
            err = 'the terminate handler ran %d times for %d disconnected clients' % (L.vt_srv_get(h, 1), ended)
        if not err and not wait(lambda: L.vt_srv_get(h, 3) == len(cl) - ended, 4):
            err = '%d operators stay busy with %d clients connected' % (L.vt_srv_get(h, 3), len(cl) - ended)
        term = L.vt_srv_get(h, 1)
        log = blob(L.vt_srv_log, h)
        L.vt_srv_free(h)
        h = None
        for k, r in enumerate(rs):
            if not err and not wait(lambda: r.eof, 6):
                err = 'client %d is still connected after the server stopped' % k
        need(err is None, '%s', err)
        need(term == ended, 'the terminate handler ran %d times for %d disconnected clients', term, ended)
        got, o = {}, 0
        while o < len(log):
            i, n = struct.unpack('<iI', log[o:o + 8])
            got.setdefault(i, []).append(log[o + 8:o + 8 + n].decode())
            o += 8 + n
        for k, c in enumerate(cl):
            g = got.get(k, [])
            if c['end'] == 'bye':
                need(g and g[-1] == 'bye', 'the command that hangs up was not handled')
                g = g[:-1]
            need(len(g) == len(exp[k]), 'client %d sent %d commands, %d were handled', k, len(exp[k]), len(g))
            for j, (x, y) in enumerate(zip(g, exp[k])):
                need(x.rstrip(' \t\r\n') == y, 'command %d of client %d is %r instead of %r', j, k, x[:80], y[:80])
            check_packets(L, case, rs[k], exp[k])
    finally:
        L.vt_send_set(sh, 0)
        for r in rs:
            r.s.close()
        if h:
            L.vt_srv_free(h)
    ctx.cls('%d clients' % len(cl))
    ctx.cls('commands', total)
    if any(len(c['lines']) > 8 for c in cl):
        ctx.cls('more than 8 commands at once')
    if case['stream']:
        ctx.cls('streaming')
    return total >= 2


def check_packets(L, case, r, exp):
    need(r.left == 0, '%d bytes that make no packet at the end', r.left)
    ans, strm = [], []
    for ty, su, n, d in r.packets:
        need(ty != 'bad', 'a delimiter with size %d', n)
        if ty == 7 or (ty == 2 and not d.startswith(b'stream ')) or ty == 6:
            ans.append((ty, su, n, d))
        else:
            strm.append((ty, su, n, d))
    need(len(ans) == len(exp), '%d answers to %d commands', len(ans), len(exp))
    for j, ((ty, su, n, d), c) in enumerate(zip(ans, exp)):
        if case['reply'] == 3:
            m = len(c)
            if c == '' and su == 1:
                # a line without content may keep its line end
                m = 1
            k = (97 * (m + 1)) % 60000 + 13
            need((ty, su, n) == (6, m, k), 'answer %d has delimiter %s instead of %s', j, (ty, su, n), (6, m, k))
            need(d == fill(L, k, m), 'content of answer %d differs', j)
        else:
            want = (b'ACK ' if case['reply'] == 1 else b'TXT ') + c.encode() + EOL
            need(ty == (7 if case['reply'] == 1 else 2), 'type of answer %d is %d', j, ty)
            need(d == want or (c == '' and d.strip() == want.strip()), 'answer %d is %r instead of %r', j, d[:60], want[:60])
    need(len(strm) == case['stream'], '%d streamed packets instead of %d', len(strm), case['stream'])
    for k, (ty, su, n, d) in enumerate(strm):
        if k % 11 == 10:
            need((ty, n) == (1, 0), 'streamed packet %d is no beacon', k)
        elif k % 13 == 12:
            need((ty, d) == (2, b'stream %d' % k), 'streamed text %d is %r', k, d[:60])
        else:
            m = 0 if k % 5 == 4 else ((case['seed'] * (k + 7) * 131) & 0xffffffff) % (120000 if k % 7 == 0 else 900)
            need((ty, su, n) == (ord('m'), k, m), 'streamed packet %d has delimiter %s', k, (ty, su, n))
            need(d == fill(L, m, case['seed'] + k), 'content of streamed packet %d differs', k)


# ------------------------------------------------------------------ greeting and limits
def greet_strat():
    return st.fixed_dictionaries(dict(name=st.text(alphabet='abcXYZ <>0123456789', max_size=60), limit=st.integers(1, 4), n=st.integers(1, 6), color=st.booleans()))


def run_greet(L, case, ctx):
    api(L)
    p = port()
    name = case['name']
    if case['color'] and name:
        name = '\033[1;32m' + name + '\033[m'
    h = L.vt_srv_new(p, case['limit'], 0, 0, 0, 1, 1, name.encode())
    if not L.vt_srv_state(h):
        L.vt_srv_free(h)
        return False
    cs = []
    try:
        for k in range(case['n']):
            s = socket.create_connection(('127.0.0.1', p), 10)
            s.settimeout(10)
            cs.append(s)
            b = b''
            while not b.endswith(EOL):
                x = s.recv(65536)
                if not x:
                    break
                b += x
            if k < case['limit']:
                t = b.decode(errors='replace')
                rows = t.split('\n')
                need(len(rows) >= 6 and rows[0].startswith('+---') and rows[3] == rows[0], 'the banner is %r', t)
                need(all(len(r) == len(rows[0]) for r in rows[:4]), 'the rows of the banner differ in length: %r', rows[:4])
                need(case['name'].strip() in rows[1] and rows[1].startswith('|   ') and rows[1].endswith('   |'), 'the name row is %r for name %r', rows[1], case['name'])
                need(rows[2].startswith('|   ') and rows[2].endswith('   |') and rows[2][4:-4].strip().replace('.', '').replace('b', '').replace('r', '').replace('c', '').isalnum(), 'the version row is %r', rows[2])
                need('What can I do for you?' in t, 'the greeting is %r', t)
            else:
                need(b == b'Server busy.\r\n', 'client %d of a server for %d received %r', k, case['limit'], b)
                need(s.recv(10) == b'', 'a client too many stays connected')
        n = min(case['n'], case['limit'])
        if case['n'] > case['limit']:
            ctx.cls('too many clients')
            cs[0].close()
            need(wait(lambda: L.vt_srv_get(h, 3) == n - 1), 'the slot of a client that left stays busy')
            s = socket.create_connection(('127.0.0.1', p), 10)
            s.settimeout(10)
            cs.append(s)
            need(s.recv(4) == b'+---', 'the vacant slot was not given to a new client')
    finally:
        for s in cs:
            s.close()
        L.vt_srv_free(h)
    return True


# ------------------------------------------------------------------ packets to the client
size = st.one_of(st.integers(0, 40), st.integers(0, 40), st.integers(0, 5000), st.sampled_from([1, 15, 16, 17]), st.integers(60000, 300000))
text = st.one_of(st.text(alphabet='abc {}"\'0123456789:,-', max_size=40), st.integers(100, 4000).map(lambda n: 'x' * n), st.just(''))


def client_strat():
    conn = st.fixed_dictionaries(dict(sizes=st.lists(size, max_size=10), texts=st.lists(text, max_size=14), cuts=cutlist, small=st.sampled_from([0, 0, 1, 3]), tail=st.sampled_from([0.0, 0.0, 0.2, 0.6, 0.99]), end=st.sampled_from(['eof', 'eof', 'reset', 'huge'])))
    return st.fixed_dictionaries(dict(format=st.sampled_from([NEWLINE, HEADER, HEADER, CONSTANT]), block=st.one_of(st.integers(1, 40), st.integers(1, 5000)), conns=st.lists(conn, min_size=1, max_size=3), blocking=st.booleans(), init=st.booleans(),
                                      fails=st.sampled_from([0, 0, 0, 1]), wait=st.booleans(), big=st.sampled_from([0] * 30 + [16777215, 16777216]), seed=st.integers(0, 2 ** 31)))


def run_client(L, case, ctx):
    api(L)
    f = case['format']
    rng = np.random.default_rng(case['seed'])
    ls = socket.socket()
    ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    ls.bind(('127.0.0.1', 0))
    ls.listen(8)
    ls.settimeout(10)
    fails = case['fails'] if case['init'] else 0
    h = L.vt_cli_new(ls.getsockname()[1], f, case['block'] if f == CONSTANT else 0, int(case['blocking']), 100, int(case['init']), fails, int(case['wait']))
    expn, serial = [], 0
    pings = []
    err = None
    s = None
    try:
        for _ in range(fails):
            s, _a = ls.accept()
            s.settimeout(10)
            need(s.recv(10) == b'', 'a connection refused by the init handler was not closed')
            s.close()
        for ci, c in enumerate(case['conns']):
            last = ci == len(case['conns']) - 1
            msgs = []
            if f == NEWLINE:
                for t in c['texts']:
                    msgs.append((None, (t + '\n').encode()))
            else:
                sizes = c['sizes'] + ([case['big']] if case['big'] and last and f == HEADER else [])
                for n in sizes:
                    serial += 1
                    if f == CONSTANT:
                        n = case['block']
                    msgs.append((struct.pack('<HHII4x', serial % 60000, serial % 7, n, n), rng.integers(1, 256, n, dtype=np.uint8).tobytes()))
            stream = b''.join((hd if f == HEADER else b'') + d for hd, d in msgs)
            tail = b''
            if c['tail'] and not last:
                # a packet that never gets complete
                if f == HEADER:
                    tail = struct.pack('<HHII4x', 9, 9, 50, 50) + b'p' * 50
                elif f == CONSTANT:
                    tail = b'p' * case['block']
                else:
                    tail = b'partial line'
                tail = tail[:max(1, int(c['tail'] * len(tail)))]
                if f == CONSTANT and len(tail) >= case['block']:
                    tail = b''
            s, _a = ls.accept()
            s.settimeout(10)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if case['big']:
                s.settimeout(30)
            try:
                k = 0
                if c['small']:
                    for k in range(0, min(len(stream), 45), c['small']):
                        s.sendall(stream[k:min(k + c['small'], 45)])
                        time.sleep(0.0002)
                    k = min(len(stream), 45)
                cutsend(s, stream[k:], c['cuts'])
                if tail:
                    time.sleep(0.0005)
                    s.sendall(tail)
            except OSError as e:
                err = 'connection %d was closed by the client while it was sent packets (%s)' % (ci, e)
            expn += msgs
            if not err and not wait(lambda: L.vt_cli_get(h, 1) >= len(expn), 15):
                err = 'only %d of %d messages were delivered' % (L.vt_cli_get(h, 1), len(expn))
            if err:
                break
            if f == NEWLINE and tail:
                expn.append((None, tail))
            s.setblocking(False)
            try:
                pings.append(s.recv(1 << 16))
            except OSError:
                pings.append(b'')
            s.setblocking(True)
            s.settimeout(10)
            if last:
                break
            if c['end'] == 'huge' and f == HEADER and not tail:
                s.sendall(struct.pack('<HHII4x', 9, 9, 16777217, 1))
                try:
                    while s.recv(4096):
                        pass
                except ConnectionError:
                    pass
                except OSError:
                    err = 'a packet larger than allowed did not end the connection'
                    break
                ctx.cls('too large')
            elif c['end'] == 'reset' and not tail:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            else:
                s.shutdown(socket.SHUT_WR)
                try:
                    while s.recv(4096):
                        pass
                except ConnectionError:
                    pass
                except OSError:
                    err = 'the client keeps a connection that the server ended'
                    break
            s.close()
            ctx.cls('reconnect')
        if not err and case['init'] and L.vt_cli_get(h, 0) != len(case['conns']) + fails:
            err = 'the init handler ran %d times for %d connections' % (L.vt_cli_get(h, 0), len(case['conns']) + fails)
        if not err and L.vt_cli_get(h, 1) > len(expn):
            err = '%d messages delivered, %d were sent' % (L.vt_cli_get(h, 1), len(expn))
        log = blob(L.vt_cli_log, h)
    finally:
        ex = L.vt_cli_free(h)
        if s is not None and not err:
            # the client has gone: its socket must be closed
            s.settimeout(5)
            try:
                while True:
                    x = s.recv(65536)
                    if not x:
                        break
            except ConnectionError:
                pass
            except OSError:
                err = 'the connection stays open after the client stopped'
        if s is not None:
            s.close()
        ls.close()
    need(err is None, '%s', err)
    need(ex == 1, 'the close handler ran %d times', ex)
    for b in pings:
        need((b'ping\r\n' * (len(b) // 6 + 1)).startswith(b) and len(b) % 6 == 0, 'the client sent %r', b[:80])
    o = 0
    for j, (hd, d) in enumerate(expn):
        need(o + 24 <= len(log), 'message %d of %d was not delivered', j, len(expn))
        n, over = struct.unpack('<Ii', log[o + 16:o + 24])
        if f == HEADER:
            need(log[o:o + 12] == hd[:12], 'delimiter of message %d differs', j)
            need(not over, 'payload %d of %d bytes is not terminated', j, n)
        need(n == len(d), 'message %d has %d bytes instead of %d', j, n, len(d))
        need(log[o + 24:o + 24 + n] == d, 'content of message %d differs', j)
        o += 24 + n
    need(o == len(log), 'more messages were delivered than sent')
    ctx.cls('format %d' % f)
    ctx.cls('messages', len(expn))
    if case['big'] and f == HEADER:
        ctx.cls('16 MB')
    return len(expn) >= 2


# ------------------------------------------------------------------ start and stop
def stop_strat():
    return st.fixed_dictionaries(dict(listen=st.booleans(), delay=st.integers(0, 2000), blocking=st.booleans(), init=st.booleans(), format=st.sampled_from([NEWLINE, HEADER]), accept=st.booleans(), wait=st.booleans()))


def run_stop(L, case, ctx):
    api(L)
    ls = socket.socket()
    ls.bind(('127.0.0.1', 0))
    p = ls.getsockname()[1]
    if case['listen']:
        ls.listen(4)
        ls.settimeout(5)
    else:
        ls.close()
    h = L.vt_cli_new(p, case['format'], 0, int(case['blocking']), 100, int(case['init']), 0, int(case['wait'] and case['listen']))
    c = None
    if case['listen'] and case['accept']:
        c, _ = ls.accept()
    time.sleep(case['delay'] * 1e-6)
    ex = L.vt_cli_free(h)
    if c:
        c.settimeout(5)
        try:
            while c.recv(100):
                pass
        except ConnectionError:
            pass
        except OSError:
            need(False, 'the connection stays open after the client stopped')
        c.close()
    if case['listen']:
        ls.close()
    need(ex == 1, 'the close handler ran %d times', ex)
    return True


SUBS = [
    Sub('send', send_strat, run_send, 1600, 20000),
    Sub('payload', payload_strat, run_payload, 500, 6000),
    Sub('server', server_strat, run_server, 320, 4000, hang=90),
    Sub('greet', greet_strat, run_greet, 60, 400),
    Sub('client', client_strat, run_client, 400, 5000, hang=90),
    Sub('stop', stop_strat, run_stop, 200, 2000),
]
PROBES = {
    'partial-sends': ('send', dict(op=True, sizes=[100], plan=[10, 10, 10], error=False, seed=1)),
    'many-payloads': ('send', dict(op=True, sizes=[10] * 14, plan=[1], error=False, seed=1)),
    'many-payloads-network': ('send', dict(op=False, sizes=[10] * 14, plan=[1], error=False, seed=1)),
    'delimiter-pieces': ('payload', dict(sizes=[20, 30], cuts=[], close=None, small=1, nonblock=False, seed=1)),
    'payload-cut': ('payload', dict(sizes=[2000], cuts=[], close=0.8, small=0, nonblock=True, seed=1)),
    'joined-commands': ('server', dict(clients=[dict(lines=[['a', '\n'], ['b', '\n'], ['c', '\n']], cuts=[], rcvbuf=0, slow=0, end='close')], delay=0, stream=0, reply=1, short=[], seed=1)),
    'many-commands': ('server', dict(clients=[dict(lines=[['a%d' % k, '\n'] for k in range(24)], cuts=[], rcvbuf=0, slow=0, end='bye')], delay=2000, stream=20, reply=3, short=[], seed=1)),
    'banner': ('greet', dict(name='abc', limit=1, n=3, color=False)),
    'joined-lines': ('client', dict(format=0, block=1, conns=[dict(sizes=[], texts=['a', 'b', '', 'c'], cuts=[], small=0, tail=0.0, end='eof')], blocking=True, init=True, fails=0, wait=True, big=0, seed=1)),
    'largest-packet': ('client', dict(format=2, block=1, conns=[dict(sizes=[5], texts=[], cuts=[], small=0, tail=0.0, end='eof')], blocking=True, init=True, fails=0, wait=True, big=16777216, seed=1)),
    'reconnect': ('client', dict(format=2, block=1, conns=[dict(sizes=[5], texts=[], cuts=[], small=0, tail=0.6, end='eof')] * 2, blocking=False, init=True, fails=0, wait=True, big=0, seed=1)),
    'early-stop': ('stop', dict(listen=True, delay=0, blocking=True, init=False, format=2, accept=False, wait=False)),
}
