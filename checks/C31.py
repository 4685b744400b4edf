"""Commands to a radar: each reaches the device or the setting it names, once and as it was given, and is answered."""
import ctypes as C
import time
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from vt.num import ptr
from checks.C29 import api, make, FLAGS, D, Ray

ID = 'C31'
RULE = ('sequences of up to 25 commands from the grammar of the help text (with and without spaces, parameters and an answer to be given), and of arbitrary bytes, '
        'to live radars with any set of devices, against a model of the settings and of what each device is told; '
        'non-trivial = at least four commands, three of them different in kind; distinct by case content')
ASSUMPTIONS = ['commands are shorter than RKMaximumCommandLength', 'devices answer as they should and at once', 'one command at a time']
TYPES = {0: 0, 1: 6, 2: 6, 3: 6, 4: 6, 5: 1, 8: 3}
WORD = st.text(alphabet='abcdefgiklmnopqrstuvwxyz0123456789.,-/ ', min_size=1, max_size=40).map(lambda q: q.strip() or 'x')
NUM = st.integers(-4000, 4000).map(lambda q: q / 16)


def s_cmd():
    sp = st.integers(0, 3)
    kinds = [
        st.tuples(st.sampled_from('tph'), sp, WORD).map(lambda q: ['dev', q[0], q[1], q[2]]),
        st.sampled_from('tp').map(lambda q: ['empty', q]),
        st.tuples(st.sampled_from('byz'), sp, WORD).map(lambda q: ['master', q[0] + ' ' * q[1] + q[2]]),
        st.sampled_from('byz').map(lambda q: ['master', q]),
        st.tuples(sp, st.lists(NUM.map(abs), min_size=0, max_size=3)).map(lambda q: ['noise', q[0], q[1]]),
        st.tuples(st.sampled_from('stq'), sp, st.one_of(NUM, st.none())).map(lambda q: ['limit', q[0], q[1], q[2]]),
        st.tuples(sp, st.one_of(st.none(), st.integers(0, 8), st.sampled_from([-1, 6, 7, 9, 200, 257, 2**31 - 1])), st.one_of(st.none(), st.sampled_from([0, 20, 21, 40]), st.integers(0, 2000))).map(lambda q: ['filter', q[0], q[1], q[2]]),
        st.tuples(sp, st.one_of(st.none(), st.integers(-2, 9))).map(lambda q: ['moment', q[0], q[1]]),
        st.tuples(sp, st.one_of(st.none(), st.sampled_from([0, 0, 1, 1, 2, 5, 9]))).map(lambda q: ['record', q[0], q[1]]),
        st.sampled_from([['restart'], ['clear'], ['help']]),
        st.tuples(st.sampled_from('efgijklmnowABZ019_-'), WORD).map(lambda q: ['unknown', q[0] + q[1]]),
        st.tuples(st.sampled_from('abeghijkloxyzABZ0N'), st.booleans(), WORD).map(lambda q: ['unknown', 'd' + ' ' * q[1] + q[0] + q[2]]),
        st.binary(min_size=0, max_size=200).map(lambda q: ['bytes', q.replace(b'\0', b'?').hex()]),
        st.tuples(st.sampled_from(['d', 'd ', 'df', 'dn', 'dm', 'v', 'v ', 'r', 'h', 'p', 't']), st.binary(max_size=60)).map(lambda q: ['bytes', (q[0].encode() + q[1].replace(b'\0', b'?')).hex()]),
        WORD.map(lambda q: ['background', q]),
    ]
    # all kinds, the settings only, or a few of a single setting after each other
    settings = [kinds[k] for k in (4, 5, 6, 7, 8)]
    with_silence = lambda q: st.tuples(q, st.sampled_from([False, False, False, True])).map(list)
    commands = st.one_of(st.lists(with_silence(st.one_of(*kinds)), max_size=25), st.lists(with_silence(st.one_of(*settings)), min_size=4, max_size=20), *[st.lists(with_silence(q), min_size=2, max_size=10) for q in settings])
    return st.fixed_dictionaries({'devices': st.lists(st.integers(0, 4), max_size=5, unique=True), 'commands': commands})


def commands(L, c, ctx):
    api(L)
    path = scratch()
    buf = C.create_string_buffer(1 << 20)
    r = make(L, [128, 2, 8, 10, 20, 100, 200, 80, FLAGS, 1, 1, 8, 0, 0], path)
    L.vt_device_take(buf)
    for k in c['devices']:
        L.vt_device_set(r, k, 0)
    L.vt_radar_config(r, 1000.0, 0.1, -20.0, 0.5, 0.1, -30.0, 0.25)
    need(L.vt_radar_live(r) == 0, 'radar does not go live')

    def take():
        L.vt_device_take(buf)
        return [q.decode('latin1') for q in buf.value.split(b'\x01')[:-1]]

    def state():
        o = (D * 16)()
        L.vt_radar_settings(r, o)
        return dict(zip('id n0 n1 snr sqi gates record raw on type method lag pulse ray pos taps'.split(), o))
    take()
    has = lambda k: k in c['devices']
    m = state()
    need((m['n0'], m['snr'], m['sqi']) == (float(C.c_float(0.1).value), -30.0, 0.25), 'settings at the start %s', m)
    f32 = lambda x: C.c_float(x).value
    for (cmd, silent) in c['commands']:
        kind, told, say, nak, parts = cmd[0], [], None, False, []
        new = dict(m)
        fuzzy = False
        if kind == 'dev':
            text = cmd[1] + ' ' * cmd[2] + cmd[3]
            k = 'tph'.index(cmd[1])
            if text.startswith('help'):
                text = 'h x' + cmd[3]
                told = ['%sxx%s' % ('C', cmd[3])]
            else:
                told = ['%sx%s' % ('ABC'[k], cmd[3])]
            nak = not has(k)
            parts = ['Device %s' % 'ABC'[k]]
        elif kind == 'empty':
            text, nak = cmd[1], True
        elif kind in ('master', 'background'):
            text = cmd[1]
            told, nak, parts = ['Ax' + text], not has(0), ['Device A']
        elif kind == 'noise':
            text = 'd' + ' ' * bool(cmd[1]) + 'n' + ' ' * (cmd[1] if not cmd[2] else max(1, cmd[1])) + ' '.join('%.4f' % q for q in cmd[2])
            if len(cmd[2]) > 1:
                new.update(id=m['id'] + 1, n0=f32(cmd[2][0]), n1=f32(cmd[2][1]))
                parts = ['%.4f' % q for q in cmd[2][:2]]
            elif len(cmd[2]) == 1:
                nak = True
            else:
                parts = ['%.4f' % m['n0'], '%.4f' % m['n1']]
        elif kind == 'limit':
            text = 'd' + ' ' * bool(cmd[2]) + cmd[1] + ' ' * cmd[2] + ('' if cmd[3] is None else '%.4f' % cmd[3])
            key = 'sqi' if cmd[1] == 'q' else 'snr'
            if cmd[3] is not None:
                new.update({'id': m['id'] + 1, key: f32(cmd[3])})
            parts = ['%.2f' % (m[key] if cmd[3] is None else cmd[3])]
        elif kind == 'filter':
            if cmd[2] is None:
                text = 'df'
                new['on'] = 0
            else:
                text = 'd' + ' ' * bool(cmd[1]) + 'f' + ' ' * cmd[1] + '%d' % cmd[2] + ('' if cmd[3] is None else ' %d' % cmd[3])
                if cmd[2] not in TYPES:
                    nak = True
                elif cmd[2] == 0 and cmd[3] is None:
                    new['on'] = 0
                else:
                    new.update(on=1, type=cmd[2], taps=TYPES[cmd[2]])
                    if cmd[3] and cmd[3] != m['gates']:
                        new.update(id=m['id'] + 1, gates=cmd[3])
        elif kind == 'moment':
            text = 'd' + ' ' * bool(cmd[1]) + 'm' + ' ' * cmd[1] + ('' if cmd[2] is None else '%d' % cmd[2])
            names = {0: 'PulsePair', 1: 'PulsePairHop', 2: 'MultiLag-%d' % (m['lag'] if cmd[2] is None else cmd[2]), 5: 'SpectralMoment'}
            if cmd[2] is not None:
                new['method'] = {1: 1, 2: 2, 3: 2, 4: 2, 5: 5}.get(cmd[2], 0)
                if new['method'] == 2:
                    new['lag'] = cmd[2]
                if new['method'] == 1 and m['on'] and 1 <= m['type'] <= 4:
                    new['on'] = 0  # the elliptical filters do not go with frequency hopping
                    ctx.cls('filter disabled for hopping')
            parts = [names[int(new['method'])]]
        elif kind == 'record':
            text = 'r' if cmd[2] is None else 'r' + ' ' * cmd[1] + '%d' % cmd[2]
            if cmd[2] is None:
                new['record'] = 1 - m['record']
                fuzzy = False
            elif cmd[2] < 2:
                new.update(record=1, raw=1 + cmd[2])
            else:
                new.update(record=0, raw=0)
            parts = ['standby' if not new['record'] else {0: '', 1: 'raw I/Q', 2: 'I/Q'}[int(new['raw'])]]
        elif kind == 'restart':
            text = 'dr'
        elif kind == 'clear':
            text = 'd c'
        elif kind == 'help':
            text, silent = 'help', False
            told = ['%sxhelp' % 'ABC'[k] for k in (0, 1, 2) if has(k)]
        elif kind == 'unknown':
            text, nak = cmd[1], True
        else:
            text = bytes.fromhex(cmd[1]).decode('latin1')
            fuzzy = True
        if kind == 'background':
            L.vt_radar_background(r, text.encode())
            t, got = time.time(), []
            while has(0) and len(got) < 1 and time.time() - t < 10:
                got += take()
                time.sleep(0.001)
            need(got == (told if has(0) else []), 'master told %s in the background, devices heard %s', text, got)
            ctx.cls('background')
            continue
        a = L.vt_radar_command(r, text.encode('latin1'), silent)
        got, s = take(), state()
        if kind == 'restart' or fuzzy and text[:1] == 'd':
            # everything but the revision stays (or, of whatever it was, nothing but the settings moved)
            need(s['id'] >= m['id'], 'revision %r after %r', s['id'], m['id'])
            new['id'] = s['id']
        if kind == 'restart':
            need((s['pulse'], s['ray'], s['pos']) == (0, 0, 0), 'indices after a restart: %s', s)
        if fuzzy:
            if text[:1] not in ('t', 'p', 'h', 'b', 'y', 'z'):
                need(got == [], '%r reached devices: %s', text, got)
            elif text != 'h' and not text.startswith('help') and len(text) > 1:
                # as the devices got it: without the letter and the spaces, or all of it for the master
                k, w = ('tph'.index(text[0]), text[1:].lstrip(' ')) if text[0] in 'tph' else (0, text)
                if '\x01' not in w:
                    need(got == (['%sx%s' % ('ABC'[k], w)] if has(k) else []), '%r reached devices: %s', text, got)
            if text[:1] in ('d', 'r', 'v'):
                m = s
                ctx.cls('bytes of a setting')
                if not silent and text[:1] != 'v':
                    need(a != b'stale', '%r not answered', text)
                continue
            need(s == m, '%r changed the settings from %s to %s', text, m, s)
            need(silent or a != b'stale', '%r not answered', text)
            ctx.cls('bytes')
            continue
        need(got == ([] if nak else told), '%r: devices %s heard %s', text, c['devices'], got)
        need(s == new, '%r: settings %s', text, {k: (m[k], new[k], s[k]) for k in s if s[k] != new[k]})
        if silent:
            need(a == b'stale', 'an answer although none was asked for')
        elif kind == 'help':
            need(len(a) > 1000 and all((b'Device %c' % ('ABC'[k].encode())) in a for k in (0, 1, 2) if has(k)) and a.endswith(b'\r\n'), 'help: %s', a[-80:])
        else:
            need(a.startswith(b'NAK.' if nak else b'ACK.') and a.endswith(b'\r\n') and a.count(b'\n') == 1, '%r answered with %r', text, a[:200])
            if not nak:
                for p in parts:
                    need(p.encode() in a, '%r answered with %r, which does not say %r', text, a[:200], p)
        m = s
        ctx.cls(kind)
    need(L.vt_radar_stop(r) == 0 and L.vt_radar_free(r) == 0, 'radar does not stop')
    return len(c['commands']) > 3 and len({q[0][0] for q in c['commands']}) > 2


# ------------------------------------------------------------------ controls
def s_controls():
    op = st.one_of(st.tuples(st.sampled_from([0, 1]), st.integers(0, 200), st.integers(0, 700)).map(list), st.sampled_from([[2, 0, 0], [3, 0, 0]]))
    return st.fixed_dictionaries({'room': st.integers(0, 140), 'ops': st.lists(st.tuples(op, st.sampled_from([1, 1, 3, 20, 70, 140])).map(list), max_size=12)})


def controls(L, c, ctx):
    api(L)
    r = make(L, [16, 1, 2, 4, 4, 20, 100, 40, FLAGS, 1, 1, 4, c['room'], 0], scratch())
    room = min(128, c['room'] or 64)
    buf, uid = C.create_string_buffer(1 << 20), (C.c_uint32 * 256)()
    want, n, fresh = [], 0, -1
    for (what, a, b), times in c['ops']:
        for _ in range(times if what < 2 else 1):
            label, cmd = (b'%d:' % n + b'L' * a), (b'%d:' % n + b'c' * b)
            n += 1
            L.vt_radar_control(r, what, label, cmd)
            if what == 2:
                want = []
            elif what < 2 and len(want) < room:
                want.append(label[:127] + b'\x01' + cmd[:511])
        k = L.vt_radar_controls(r, uid, buf, 256)
        have = buf.value.split(b'\x02')[:-1]
        need(k == len(want) and have == want, '%d controls, %d given of room for %d; the first that differs is %d', k, len(want), room, next((i for i, (p, q) in enumerate(zip(have, want)) if p != q), -1))
        if what == 3:
            need(len(set(uid[:k])) == k and (k == 0 or min(uid[:k]) > fresh), 'identities %s', list(uid[:k])[:8])
            fresh = max([fresh] + list(uid[:k]))
            ctx.cls('concluded')
    need(L.vt_radar_free(r) == 0, 'not freed')
    return len(want) > 2


# ------------------------------------------------------------------ methods
def s_methods():
    return st.fixed_dictionaries({'signal': st.integers(0, 3), 'cores': st.integers(1, 4), 'commands': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=8)})


P = 10
GATES = 24
MEMORY = {}


def feed(L, r, at, rays, signal):
    """Pulses of rays of one degree each, all of the same samples, from ray `at` on; the values of the last ones."""
    rng = np.random.default_rng(signal)
    x = (rng.normal(0, 600, (P, 2, GATES, 2)) + 900 * np.stack([np.cos(0.4 * np.arange(P)), np.sin(0.4 * np.arange(P))], 1)[:, None, None, :]).clip(-30000, 30000).astype(np.int16)
    base, n = 1.7e9 + 1, (at + rays) * P
    flag = 1 | 1 << 16 | 1 << 8 | 1 << 25 | 1 << 28
    give = lambda m: L.vt_radar_position(r, (D * 5)(base + (m * P - 0.5) * 1e-3, 3.0, m % 360, 3.0, m % 360), flag, m)
    for k in range(at * P, n):
        if k == 0:
            give(0)
        if k % P == 0:
            give(k // P + 1)
        q = np.ascontiguousarray(x[k % P])
        need(L.vt_radar_pulse(r, base + k * 1e-3, k, GATES, 75.0, ptr(q)) == k, 'identity of pulse %d', k)
    t = time.time()
    out = []
    while L.vt_radar_pulse_status(r, n - 1 - 3 * P) & 1 << 11 == 0 or L.vt_radar_pulse_status(r, n - 1) & 1 << 10 == 0:
        need(time.time() - t < 20, 'pulse %d never used: %x, %x', n - 1, L.vt_radar_pulse_status(r, n - 1 - 3 * P), L.vt_radar_pulse_status(r, n - 1))
        time.sleep(0.0005)
    for y in range(at + rays - 6, at + rays - 2):
        h = Ray()
        while True:
            L.vt_radar_ray(r, y, C.byref(h), None, None)
            if h.i == y and h.s & 8:
                break
            need(time.time() - t < 20, 'ray %d never came out: identity %d, status %x', y, h.i, h.s)
            time.sleep(0.0005)
        v, u = np.zeros((10, GATES), np.float32), np.zeros((10, GATES), np.uint8)
        L.vt_radar_ray(r, y, C.byref(h), ptr(v), ptr(u))
        need(h.s & 15 == 10 and h.gates == GATES and h.pulses == P + 1, 'ray %d: status %x, %d gates of %d pulses', y, h.s, h.gates, h.pulses)
        out.append((h.products, v[:6]))  # those that the processors say they calculate
    return out


def radar(L, cores):
    r = make(L, [128, 1, 8, 10, 20, 200, 1600, 400, FLAGS, cores, cores, 8, 0, 0], scratch(), 100.0)
    L.vt_radar_config(r, 1000.0, 0.1, -20.0, 0.5, 0.1, -30.0, 0.0)
    return r


def methods(L, c, ctx):
    api(L)
    L.vt_radar_method.argtypes = [C.c_void_p, C.c_int]
    text = {0: '0', 1: '1', 2: '2', 3: '3', 4: '4', 5: '5'}
    if c['signal'] not in MEMORY:
        ref = []
        for k in range(6):
            r = radar(L, 1)
            L.vt_radar_method(r, k)
            need(L.vt_radar_live(r) == 0, 'radar does not go live')
            ref.append(feed(L, r, 0, 10, c['signal'])[-1])
            need(L.vt_radar_stop(r) == 0 and L.vt_radar_free(r) == 0, 'radar does not stop')
        MEMORY[c['signal']] = ref
        for a in range(6):
            for b in range(a):
                need(not np.array_equal(ref[a][1], ref[b][1], equal_nan=True), 'methods %d and %d make the same of noise', a, b)
    ref = MEMORY[c['signal']]
    r = radar(L, c['cores'])
    need(L.vt_radar_live(r) == 0, 'radar does not go live')
    at, now, was = 0, 1, []
    for k, space, more in c['commands']:
        if more == 0:
            feed(L, r, at, 8, c['signal'])
            at += 8
        a = L.vt_radar_command(r, ('d' + ' ' * bool(space) + 'm' + ' ' * space + text[k]).encode(), more == 1)
        need(a[:4] == (b'stal' if more == 1 else b'ACK.'), 'answered %r', a)
        now = k
        was.append(k)
        if more == 2 or len(was) == len(c['commands']):
            got = feed(L, r, at, 8 + 2 * c['cores'], c['signal'])
            at += 8 + 2 * c['cores']
            for products, v in got:
                need(products == ref[now][0], 'products %x with method %d, %x with that from the start', products, now, ref[now][0])
                bad = np.argwhere(~((v == ref[now][1]) | np.isnan(v) & np.isnan(ref[now][1])))
                if len(bad):
                    like = [q for q in range(6) if np.array_equal(v, ref[q][1], equal_nan=True)]
                    need(False, 'after method %s: product %d of gate %d is %r, with that method from the start %r%s', was, bad[0][0], bad[0][1], float(v[tuple(bad[0])]), float(ref[now][1][tuple(bad[0])]), '; method %d makes this' % like[0] if like else '')
                ctx.cls('method %d' % now)
    need(L.vt_radar_stop(r) == 0 and L.vt_radar_free(r) == 0, 'radar does not stop')
    return len(set(was)) > 1


SUBS = [Sub('commands', s_cmd, commands, 240, 6000, hang=60, heavy=True), Sub('controls', s_controls, controls, 80, 1500, hang=60, heavy=True), Sub('methods', s_methods, methods, 40, 600, hang=60, heavy=True)]
PROBES = {}
