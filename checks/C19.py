"""Health: reports of all nodes consolidated, logged and shown without loss or mixture."""
import ctypes as C
import calendar, json, math, os, re, shutil, time
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from checks.C27 import Buf, merge

ID = 'C19'
RULE = ('histories of reports of 1..12 nodes, which pause, stop and come back, through the health engine, one poll at a time; consolidated healths through the logger over minutes, hours and record switches; status documents through the overview; '
        'non-trivial = three or more outputs, two or more files, or two or more states; distinct by case content')
ASSUMPTIONS = ['reports are JSON objects whose texts have no quotes, brackets, commas or colons', 'keys that contain heading, latitude or longitude belong to status objects, and come from at most one node',
               'a node fills a report within half a second']
F = np.float32


def setup(L):
    for f in ['vt_health_radar', 'vt_health_vacant', 'vt_text_buffer']:
        getattr(L, f).restype = C.c_void_p
    L.vt_health_radar.argtypes = [C.c_int, C.c_int, C.c_uint32, C.c_double, C.c_double, C.c_float]
    L.vt_health_vacant.argtypes = [C.c_void_p, C.c_int]
    L.vt_health_write.argtypes = [C.c_void_p, C.c_char_p, C.c_int]
    L.vt_health_ready.argtypes = [C.c_void_p, C.c_void_p]
    L.vt_time_set.argtypes = [C.c_double]
    L.vt_health_enum.argtypes = [C.c_void_p, C.c_char_p]
    L.vt_health_put.argtypes = [C.c_void_p, C.c_char_p]
    L.vt_health_location.argtypes = [C.c_void_p, C.c_void_p]
    for f in ['vt_health_string', 'vt_health_latest', 'vt_health_latest_of']:
        getattr(L, f).restype = C.c_char_p
        getattr(L, f).argtypes = [C.c_void_p, C.c_int][:1 if f == 'vt_health_latest' else 2]
    for f in ['vt_health_free', 'vt_health_start', 'vt_health_stop', 'vt_health_logger_stop', 'vt_health_logger_tic', 'vt_health_index', 'vt_health_request']:
        getattr(L, f).argtypes = [C.c_void_p]
    L.vt_health_logger_start.argtypes = [C.c_void_p, C.c_char_p, C.c_char_p, C.c_int]
    L.vt_health_logger_record.argtypes = [C.c_void_p, C.c_int]
    L.vt_health_flag.argtypes = [C.c_void_p, C.c_int]
    L.vt_show_color(0)


OLD, NOTWIRED = -3, 3
T0 = 1.7e9


# ---------------------------------------------------------------- documents of the nodes
def render(doc, sep):
    def value(v):
        if v[0] == 's':
            return '"' + v[1] + '"'
        if v[0] == 'n':
            return v[1]
        if v[0] == 'b':
            return 'true' if v[1] else 'false'
        return '{' + sep.join('"%s":%s' % (k, value(w)) for k, w in v[1]) + '}'
    return '{' + sep.join('"%s":%s' % (k, value(v)) for k, v in doc) + '}'


def parsed(text):
    """-> pairs of the JSON object, objects inside as tuples of pairs"""
    try:
        return json.loads(text, object_pairs_hook=lambda p: tuple(p))
    except ValueError as e:
        need(False, 'not a JSON document (%s): %s', str(e), text)


def plain(v, old=False):
    """a document as parsed() gives it, logical texts as logical values, states old when wanted"""
    if v[0] == 's':
        return v[1].lower() == 'true' if v[1].lower() in ('true', 'false') else v[1]
    if v[0] == 'n':
        return json.loads(v[1])
    if v[0] == 'b':
        return v[1]
    return tuple((k, OLD if old and k == 'Enum' else plain(w)) for k, w in v[1])


def same(a, b):
    return type(a) is type(b) and (all(x == y if isinstance(x, str) else same(x, y) for p, q in zip(a, b) for x, y in zip(p, q)) and len(a) == len(b) if isinstance(a, tuple) else a == b)


def gps(doc, key, old):
    """a reading of a normal state"""
    v = dict(doc).get(key)
    if v is None or old:
        return math.nan
    d = dict(v[1])
    if d['Enum'][1] != '0':
        return math.nan
    return float(re.match(r'[-+0-9.eE]+', d['Value'][1]).group(0))


IGNORE_GPS, IGNORE_HEADING = 0x20, 0x40


def run_engine(L, c, ctx):
    setup(L)
    n, depth = c['nodes'], c['depth']
    lat, lon, head = c['lat'], c['lon'], float(F(c['head']))
    r = L.vt_health_radar(n, depth, c['flags'], lat, lon, head)
    now = [T0]
    L.vt_time_set(now[0])
    need(L.vt_health_start(r) == 0, 'the health engine did not start')
    reports = {j: [] for j in range(n)}        # finished reports of each node, in order
    open_ = {}                                 # node -> (slot, doc, text)
    used = {j: -1 for j in range(n)}           # the last report seen of each node
    serial = [0]
    state = dict(k=0, out=0, hc=0, lc=0, t=T0, aged=0)
    loc = [lat, lon, head]

    def begin(j, doc):
        serial[0] += 1
        doc = [('S%d' % j, ('o', [('Value', ('n', str(serial[0]))), ('Enum', ('n', '0'))]))] + [(k, tuple(v)) for k, v in doc]
        text = render(doc, c['sep']) + c['tail']
        h = L.vt_health_vacant(r, j)
        L.vt_health_write(h, text.encode(), len(text) // 2)
        open_[j] = [h, doc, text, 0]

    def finish(j):
        h, doc, text, _ = open_.pop(j)
        L.vt_health_write(h, text.encode(), len(text))
        L.vt_health_ready(r, h)
        reports[j].append((serial_of(doc), doc))
        need(L.vt_health_latest_of(r, j).decode() == text, 'the latest report of node %d is %r, not %r', j, L.vt_health_latest_of(r, j), text)

    def serial_of(doc):
        return int(doc[0][1][1][0][1][1])

    def output():
        k = state['k']
        text = L.vt_health_string(r, k).decode()
        need(L.vt_health_flag(r, k) == 1, 'consolidated health %d has flag %d', k, L.vt_health_flag(r, k))
        state['k'] = (k + 1) % depth
        need(L.vt_health_index(r) == state['k'] and L.vt_health_flag(r, state['k']) == 0, 'health index %d with flag %d after %d', L.vt_health_index(r), L.vt_health_flag(r, state['k']), k)
        need(L.vt_health_latest(r).decode() == text, 'the latest health is %r, not %r', L.vt_health_latest(r), text)
        pairs = parsed(text)
        state['out'] += 1
        i, last, seen, g = 0, -1, {}, {}
        while i < len(pairs) and re.fullmatch(r'S\d+', pairs[i][0]):
            j = int(pairs[i][0][1:])
            need(last < j < n, 'node %d after node %d in %s', j, last, text)
            last = j
            d = dict(pairs[i][1])
            sn, old = d['Value'], d['Enum'] == OLD
            doc = next((y for x, y in reports[j] if x == sn), None)
            need(doc is not None, 'report %s of node %d was never finished: %s', sn, j, text)
            want = tuple((a, plain(b, old)) for a, b in doc)
            got = pairs[i:i + len(want)]
            # GPS readings that are not used
            fix = tuple((a, tuple((x, 'ANY') if x == 'Enum' and isinstance(b, tuple) and a.startswith('GPS') else (x, y) for x, y in b) if isinstance(b, tuple) else b) for a, b in want)
            fix2 = tuple((a, tuple((x, 'ANY') if x == 'Enum' and isinstance(b, tuple) and a.startswith('GPS') else (x, y) for x, y in b) if isinstance(b, tuple) else b) for a, b in got)
            need(same(fix, fix2), 'node %d reported %r, consolidated %r', j, want, got)
            need(sn > used[j] if not old else sn >= used[j], 'report %d of node %d%s after report %d: %s', sn, j, ' (old)' if old else '', used[j], text)
            need(j > 0 or not old, 'the report of the first node became old')
            used[j] = sn
            seen[j] = (old, doc, got)
            state['aged'] += old
            for key in ('GPS Heading', 'GPS Latitude', 'GPS Longitude'):
                if key in dict(doc):
                    g[key] = (gps(doc, key, old), dict(got)[key], dict(want)[key])
            i += len(want)
        for j in range(n):
            need((j in seen) == bool(reports[j]), 'node %d of %d reports %s in %s', j, len(reports[j]), 'is' if j in seen else 'is not', text)
        rest = pairs[i:]
        need(len(dict(rest)) == len(rest), 'a key comes twice: %s', text)
        rest = dict(rest)
        hd, la, lo = [g[k][0] if k in g else math.nan for k in ('GPS Heading', 'GPS Latitude', 'GPS Longitude')]
        want = {}
        over_h = math.isnan(hd) or c['flags'] & (IGNORE_HEADING | IGNORE_GPS)
        over_l = math.isnan(la) or math.isnan(lo) or c['flags'] & IGNORE_GPS
        if over_h:
            want['Heading Override'] = (('Value', True), ('Enum', 0))
            want['Sys Heading'] = (('Value', '%.2f deg' % loc[2]), ('Enum', 0))
        elif abs(float(F(loc[2]) - F(hd))) > 1.0:
            state['hc'] += 1
            if state['hc'] == 5:
                loc[2] = float(F(hd))
                state['hc'] = 0
        else:
            state['hc'] = 0
        if over_l:
            want['GPS Override'] = (('Value', True), ('Enum', 0))
            want['Sys Latitude'] = (('Value', '%.7f' % loc[0]), ('Enum', 0))
            want['Sys Longitude'] = (('Value', '%.7f' % loc[1]), ('Enum', 0))
            want['LocationFromDescriptor'] = True
        elif abs(loc[0] - la) > 3.5e-5 or abs(loc[1] - lo) > 3.5e-5:
            state['lc'] += 1
            if state['lc'] == 5:
                loc[0], loc[1] = la, lo
                state['lc'] = 0
                ctx.cls('moved')
        else:
            state['lc'] = 0
        for key, over in (('GPS Heading', over_h), ('GPS Latitude', over_l), ('GPS Longitude', over_l)):
            if key in g:
                got, exp = dict(g[key][1])['Enum'], NOTWIRED if over else dict(g[key][2])['Enum']
                need(got == exp, 'state of %s is %s, not %s, in %s', key, got, exp, text)
        tl = rest.pop('Log Time', None)
        need(isinstance(tl, int) and int(state['t']) <= tl <= now[0], 'log time %s, between %s and %s', tl, state['t'], now[0])
        need(same(tuple(sorted(rest.items())), tuple(sorted(want.items()))), 'consolidated %r, not %r, in %s', rest, want, text)
        out = (C.c_double * 3)()
        L.vt_health_location(r, out)
        need(list(out) == [loc[0], loc[1], float(F(loc[2]))], 'the radar is at %s, not %s, after %s', list(out), loc, text)
        for key, v in list(pairs)[:6]:
            if isinstance(v, tuple) and 'Enum' in dict(v) and [a for a, _ in pairs].count(key) == 1:
                need(L.vt_health_enum(r, key.upper().encode()) == dict(v)['Enum'], 'state of %s is %d in %s', key, L.vt_health_enum(r, key.encode()), text)
        need(L.vt_health_enum(r, b'no such thing') == -2, 'state of a missing key')
        state['t'] = now[0]
        return seen

    def step(m, dt):
        got = None
        for _ in range(m):
            for j in list(open_):
                open_[j][3] += 1
                if open_[j][3] > 4:
                    finish(j)
            now[0] += dt
            L.vt_time_set(now[0])
            need(L.vt_gate_step(0) == 0, 'the health engine does not go on')
            if L.vt_health_index(r) != state['k']:
                got = output()
        return got

    try:
        step(c['lead'], 0.11)
        for e in c['events']:
            j = e['node'] % n
            if e['what'] == 'post':
                if j in open_:
                    finish(j)
                begin(j, e['doc'] if j == c['gps'] % n else [m for m in e['doc'] if not m[0].startswith('GPS')])
                if not e['slow']:
                    finish(j)
            elif e['what'] == 'all':
                for j in range(n):
                    if j not in c['silent'] and (j != c['gps'] % n or reports[j] or e['node'] > 5):
                        if j in open_:
                            finish(j)
                        begin(j, e['doc'] if j == c['gps'] % n else [])
                        finish(j)
            step(e['steps'], e['dt'])
        # All nodes report again and again: soon one health holds new reports of all of them
        for j in list(open_):
            finish(j)
        mark, seen = serial[0], None
        for _ in range(n + 4):
            for j in range(n):
                begin(j, [])
                finish(j)
            seen = step(5, 0.11) or seen
            if seen and all(j in seen and not seen[j][0] and used[j] > mark for j in range(n)):
                break
        else:
            need(False, 'all %d nodes report, but not all appear in %s', n, L.vt_health_latest(r))
        need(L.vt_health_stop(r) == 0, 'stop')
    finally:
        L.vt_health_free(r)
    ctx.cls('outputs', state['out'])
    if state['aged']:
        ctx.cls('old reports')
    return state['out'] >= 3


word = st.one_of(st.text('abcXYZ 019.-+/', max_size=12), st.sampled_from(['true', 'FALSE', 'True', '35.1812820', '88.0 deg', '', 'none']))
number = st.one_of(st.integers(-10 ** 9, 10 ** 9).map(str), st.floats(-1e5, 1e5).map(lambda x: '%.4f' % x))
scalar = st.one_of(st.tuples(st.just('s'), word), st.tuples(st.just('n'), number), st.tuples(st.just('b'), st.booleans()))
status = st.sampled_from([-3, -2, -1, 0, 0, 0, 1, 2, 3, 4])


def obj(v, e):
    return ('o', [('Value', v), ('Enum', ('n', str(e)))])


KEYS = ['Trigger', 'PLL Clock', 'FPGA Temp', 'XMIT Data Over', 'Ground Speed', 'Event', 'a', 'k' * 60, 'Network', 'I2C Chip']
plainmember = st.tuples(st.sampled_from(KEYS), st.one_of(scalar, st.builds(obj, scalar, status), st.builds(obj, scalar, status)))


def reading(key, values, fmt):
    def make(v, e, how):
        t = fmt % v
        return (key, obj([('s', t), ('n', t), ('s', t + ' deg')][how], e))
    return st.builds(make, st.sampled_from(values), st.sampled_from([0, 0, 0, 0, 0, 0, 0, 2, 3]), st.integers(0, 2))


def docs():
    lat = reading('GPS Latitude', [35.0, 35.0, 35.00003, 35.00004, 36.5, -10.25], '%.7f')
    lon = reading('GPS Longitude', [-97.0, -97.0, -97.00003, -97.00004, 12.5], '%.7f')
    hd = reading('GPS Heading', [90.0, 90.0, 90.9, 91.1, 180.0, 0.25], '%.2f')
    extra = st.lists(plainmember, max_size=4, unique_by=lambda m: m[0])
    return st.one_of(extra, st.builds(lambda a, b, c, x: [a, b, c] + x, lat, lon, hd, extra), st.builds(lambda a, b, c: c + [a, b], lat, lon, extra), st.builds(lambda a, c: c + [a], hd, extra))


def strat_engine():
    post = st.fixed_dictionaries(dict(what=st.just('post'), node=st.integers(0, 11), doc=docs(), slow=st.booleans(), steps=st.integers(0, 4), dt=st.sampled_from([0.11, 0.11, 0.03, 1.7])))
    many = st.fixed_dictionaries(dict(what=st.just('all'), node=st.integers(0, 11), doc=docs(), steps=st.integers(1, 4), dt=st.sampled_from([0.11, 0.11, 0.03, 0.7])))
    wait = st.fixed_dictionaries(dict(what=st.just('wait'), node=st.just(0), steps=st.integers(1, 30), dt=st.sampled_from([0.11, 0.2])))
    # A stretch in which the receiver stays at one place
    stretch = st.builds(lambda e, n: [e] * n, many, st.integers(2, 8))
    return st.fixed_dictionaries(dict(nodes=st.one_of(st.integers(1, 4), st.integers(1, 12)), depth=st.integers(16, 30), flags=st.sampled_from([0, 0, 0, 0x20, 0x40, 0x60]), lat=st.just(35.0), lon=st.just(-97.0), head=st.just(90.0),
                                      sep=st.sampled_from([', ', ',']), tail=st.sampled_from(['', '\r\n', '  ', '\n']), lead=st.integers(0, 8), gps=st.integers(0, 11), silent=st.sets(st.integers(1, 11), max_size=3).map(sorted),
                                      events=st.lists(st.one_of(post.map(lambda e: [e]), post.map(lambda e: [e]), stretch, wait.map(lambda e: [e])), max_size=12).map(lambda x: [e for y in x for e in y])))


# ---------------------------------------------------------------- much health
def run_size(L, c, ctx):
    setup(L)
    n = len(c['sizes'])
    r = L.vt_health_radar(n, 4, 0, 35.0, -97.0, 90.0)
    t = T0
    L.vt_time_set(t)
    need(L.vt_health_start(r) == 0, 'the health engine did not start')
    total, outs = 0, 0
    try:
        k = 0
        for _ in range(3):
            for j, s in enumerate(c['sizes']):
                text = '{"S%d":{"Value":1,"Enum":0},"T":"%s"}' % (j, 'x' * s)
                text = text[:4095]
                h = L.vt_health_vacant(r, j)
                L.vt_health_write(h, text.encode(), len(text))
                L.vt_health_ready(r, h)
            for _ in range(5):
                t += 0.2
                L.vt_time_set(t)
                need(L.vt_gate_step(0) == 0, 'the health engine does not go on')
                while k != L.vt_health_index(r):
                    text = L.vt_health_string(r, k).decode()
                    need(len(text) < 4096, 'a health of %d characters', len(text))
                    names = [x[0] for x in parsed(text)]
                    total = sum(len('"S%d":{"Value":1,"Enum":0},"T":"%s", ' % (j, 'x' * s)) for j, s in enumerate(c['sizes']))
                    if total < 3300:
                        need([x for x in names if x[0] == 'S' and x[1:].isdigit()] == ['S%d' % j for j in range(n)], 'nodes of %s with reports of %s', text, c['sizes'])
                    else:
                        ctx.cls('more than fits')
                    need('Log Time' in names, 'no log time in %s', text)
                    k = (k + 1) % 4
                    outs += 1
        need(outs > 0, 'no consolidated health')
        need(L.vt_health_stop(r) == 0, 'stop')
    finally:
        L.vt_health_free(r)
    return n > 1


def strat_size():
    return st.fixed_dictionaries(dict(sizes=st.lists(st.one_of(st.integers(0, 300), st.integers(0, 4000)), min_size=1, max_size=12)))


# ---------------------------------------------------------------- logger
def run_logger(L, c, ctx):
    setup(L)
    d = scratch()
    depth = c['depth']
    r = L.vt_health_radar(1, depth, 0, 0.0, 0.0, 0.0)
    root = os.path.join(d, 'data')
    need(L.vt_health_logger_start(r, root.encode(), b'PX', c['record']) == 0, 'the health logger did not start')
    record, minute, current = c['record'], None, None
    want, t, n = {}, c['time'], 0
    try:
        for e in c['events']:
            if e['record'] is not None:
                record = e['record']
                L.vt_health_logger_record(r, record)
            t += e['dt']
            n += 1
            text = '{"n":%d,%s "Log Time":%d}' % (n, e['text'], t)
            tic = L.vt_health_logger_tic(r)
            L.vt_health_put(r, text.encode())
            for _ in range(4):
                if L.vt_health_logger_tic(r) != tic:
                    break
                need(L.vt_gate_step(0) == 0, 'the health logger does not go on')
            need(L.vt_health_logger_tic(r) == tic + 1, 'health %d is not logged', n)
            if t // 60 != minute:
                minute, current = t // 60, None
                if record:
                    g = time.gmtime(t)
                    current = 'health/%s/PX-%s.json' % (time.strftime('%Y%m%d', g), time.strftime('%Y%m%d-%H%M%S', g))
                    want[current] = []
            if current:
                want[current].append(text)
        need(L.vt_health_logger_stop(r) == 0, 'stop')
    finally:
        L.vt_health_free(r)
    got = {}
    for p, _, fs in os.walk(root):
        for f in fs:
            q = os.path.join(p, f)
            b = open(q).read()
            need(b == '' or b.endswith('\n'), 'no end of the last line of %s', q)
            got[os.path.relpath(q, root)] = b.split('\n')[:-1]
    shutil.rmtree(d)
    need(sorted(got) == sorted(want), 'files %s, not %s', sorted(got), sorted(want))
    for f in want:
        need(got[f] == want[f], '%s holds %s, not %s', f, got[f], want[f])
    fds = len(os.listdir('/proc/self/fd'))
    base = run_logger.__dict__.setdefault('fds', fds)
    need(fds <= base + 2, '%d files are open, %d at the beginning', fds, base)
    run_logger.__dict__['fds'] = min(base, fds)
    if len(want) > 1:
        ctx.cls('files', len(want))
    return len(want) > 1


def strat_logger():
    ev = st.fixed_dictionaries(dict(dt=st.one_of(st.integers(0, 20), st.integers(0, 90), st.sampled_from([59, 60, 61, 3599, 3600, 3601, 86400, 7200])), record=st.sampled_from([None] * 6 + [True, False]),
                                    text=st.sampled_from(['', '"Trigger":{"Value":true,"Enum":0},', '"T":"%s",' % ('y' * 3000), '"100%s%d":"%n",'])))
    return st.fixed_dictionaries(dict(depth=st.integers(2, 8), record=st.sampled_from([True, True, False]), time=st.one_of(st.integers(10 ** 9, 2 * 10 ** 9), st.sampled_from([1709164790, 1735689590])), events=st.lists(ev, min_size=1, max_size=25)))


# ---------------------------------------------------------------- overview
COLORS = {0: '\x1b[38;5;82m'}


def run_overview(L, c, ctx):
    setup(L)
    doc = [(k, tuple(v)) for k, v in c['doc']]
    text = render(doc, c['sep'])
    dots, labels = '', ''
    for k, v in doc:
        if v[0] != 'o':
            continue
        val = v[1][0][1]
        u = int(v[1][1][1][1]) if len(v[1]) > 1 else None
        raw = '"' + val[1] + '"' if val[0] == 's' else val[1] if val[0] == 'n' else 'true' if val[1] else 'false'
        label = raw.lower() not in ('true', 'false')
        if u is None:
            continue
        if label:
            labels += '%22s %s%s\n' % (k, val[1] if val[0] == 's' else raw, {-1: ' *', 1: ' *', -2: ' **', 2: ' **', 4: ' ***'}.get(u, ''))
        else:
            dots += '%s %s\n' % ('o' if u == 0 else '-', k)
    B = Buf.text(L, text.encode())
    want, _ = merge(dots, labels, 0)
    esc = re.compile('\x1b\\[[0-9;]*m')
    D = Buf(L, 65536)
    for flag in (0, 1 << 1):
        k = L.RKHealthOverview(D.p, B.p, flag)
        got = D.get().decode()
        need(k == len(got), 'length %d of %d', k, len(got))
        if flag == 0:
            if not c['single']:
                need(got == want, 'overview of %s:\n%s\nnot\n%s', text, got, want)
        else:
            cells = [x.split() for x in esc.sub('', got).split('\n')]
            lines = [x for x in esc.sub('', got).split('\n')]
            for key, v in doc:
                if v[0] == 'o' and len(v[1]) > 1:
                    need(any(key in x for x in lines), '%s is not in the colored overview\n%s', key, got)
    k = L.RKHealthOverview(D.p, B.p, (1 << 1) | (1 << 6))
    B.free(), D.free()
    return len(doc) > 1


def strat_overview():
    val = st.one_of(scalar, st.tuples(st.just('b'), st.booleans()))
    key = st.one_of(st.sampled_from(KEYS + ['GPS Heading', 'x' * 127]), st.text('abcdefgh 0123', min_size=1, max_size=8).filter(lambda s: s.strip() == s and s))
    mem = st.tuples(key, st.one_of(st.builds(obj, val, status), st.builds(obj, val, status), scalar))
    one = st.tuples(key, st.builds(lambda v: ('o', [('Value', v)]), val))
    many = st.builds(lambda n, e: [('%d' % i, obj(('n', '1'), e)) for i in range(n)], st.integers(1, 150), status)
    return st.one_of(st.fixed_dictionaries(dict(doc=st.lists(mem, max_size=10, unique_by=lambda m: m[0]), sep=st.sampled_from([', ', ',']), single=st.just(False))),
                     st.fixed_dictionaries(dict(doc=st.lists(st.one_of(mem, one), max_size=10, unique_by=lambda m: m[0]), sep=st.sampled_from([', ', ',']), single=st.just(True))),
                     st.fixed_dictionaries(dict(doc=many, sep=st.just(','), single=st.just(False))))


# ---------------------------------------------------------------- nodes
def run_nodes(L, c, ctx):
    setup(L)
    r = L.vt_health_radar(12, 4, 0, 0.0, 0.0, 0.0)
    first, count, invalid = (L.vt_health_const(k) for k in range(3))
    got = [L.vt_health_request(r) & 255 for _ in range(c['n'])]
    L.vt_health_free(r)
    want = [first + k if first + k < count else invalid & 255 for k in range(c['n'])]
    need(got == want, 'nodes %s, not %s', got, want)
    return c['n'] > 1


SUBS = [
    Sub('engine', strat_engine, run_engine, 8000, 200000, hang=60),
    Sub('size', strat_size, run_size, 800, 10000, hang=60),
    Sub('logger', strat_logger, run_logger, 3000, 60000, hang=60),
    Sub('overview', strat_overview, run_overview, 6000, 100000),
    Sub('nodes', lambda: st.fixed_dictionaries(dict(n=st.integers(0, 300))), run_nodes, 60, 300),
]
PROBES = {}
