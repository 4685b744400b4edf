"""Preferences are found, in order, with the values their lines give them."""
import ctypes as C
import os
import re
import shutil
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from checks.C27 import Buf, setup

ID = 'C17'
RULE = 'preference files of up to 220 lines of all kinds (numbers, logical values, texts, quoted controls, calibrations, comments, blank, keyword only, with any spacing, line ends and trailing comments), with histories of look-ups, conversions and updates of the file; non-trivial = a keyword was found; distinct by case content'
ASSUMPTIONS = ['a value does not contain #, as it begins a comment', 'lines begin with their keyword', 'lines of fewer than 4095 characters']
F = np.float32
KEYS = ['Name', 'DataPath', 'Latitude', 'Longitude', 'SystemZCal', 'Noise', 'Shortcut', 'WaveformCal', 'IgnoreGPS', 'UserDevice', 'name2', 'NameX']
MAX = 4096


@st.composite
def value(draw):
    kind = draw(st.sampled_from(['number', 'number', 'bool', 'text', 'text', 'host', 'control', 'control', 'cal', 'cal', 'none', 'long']))
    sp = draw(st.sampled_from([' ', '  ', '\t', ' \t ']))
    if kind == 'number':
        v = draw(st.lists(st.one_of(st.integers(-400, 4000).map(str), st.floats(-1e4, 1e4).map(lambda v: '%.4f' % v), st.floats(-1e12, 1e12).map(lambda v: '%.3e' % v),
                                    st.sampled_from(['+5', '-.25', '.5', '+.75', '3.', '0', '1e10', '-2E9', '007'])), min_size=1, max_size=6))
        return sp.join(v) + draw(st.sampled_from(['', '', sp + 'dB', sp + 'km']))
    if kind == 'bool':
        return sp.join(draw(st.lists(st.sampled_from(['true', 'false', 'TRUE', 'False', 'yes', 'no', 'Yes', 'NO', 'trUe']), min_size=1, max_size=5)))
    if kind == 'text':
        return draw(st.text(st.characters(min_codepoint=32, max_codepoint=126, exclude_characters='#eExXpPiInN'), max_size=40)).strip()
    if kind == 'host':
        return draw(st.sampled_from(['localhost:9554', '10.197.14.52:8001', 'localhost', '192.168.1.1', 'notify', 'truth or dare', '"quoted" here', "it's", 'data/', '/var/data', '-', '+', '.', '-a', 'nobody']))
    if kind == 'control':
        a = draw(st.text(st.characters(min_codepoint=32, max_codepoint=126, exclude_characters='#"\''), max_size=12)) * draw(st.sampled_from([1, 1, 1, 1, 12, 30]))
        b = draw(st.text(st.characters(min_codepoint=32, max_codepoint=126, exclude_characters='#"\''), max_size=20)) * draw(st.sampled_from([1, 1, 1, 1, 30, 60]))
        q = draw(st.sampled_from(['"', "'"]))
        r = draw(st.sampled_from(['"', "'"]))
        return q + a + q + (sp + r + b + r if draw(st.integers(0, 7)) else '')
    if kind == 'cal':
        n = draw(st.integers(0, 10))
        v = draw(st.lists(st.floats(-100, 100).map(lambda v: '%.3f' % v), min_size=4 * n, max_size=4 * n))
        if draw(st.integers(0, 9)) == 0:
            v = v[:-1]
        return sp.join([draw(st.sampled_from(['ofm', 's01', 'h4011', '10us', 'q' * 127, 'r' * 300]))] + ([str(n)] if n or draw(st.booleans()) else []) + v)
    if kind == 'none':
        return ''
    return draw(st.sampled_from(['a', 'no', 'Z9 ', 'true '])) * draw(st.integers(30, 750))


@st.composite
def file(draw):
    out = []
    big = draw(st.integers(0, 12)) == 0
    for _ in range(draw(st.integers(0, 30))):
        kind = draw(st.sampled_from(['entry'] * 9 + ['comment', 'blank', 'long keyword', 'many' if big else 'entry']))
        end = draw(st.sampled_from(['', '', '', ' ', '\t', '   \t '])) + draw(st.sampled_from(['', '', '# comment', '#', '## "a" 5 true']))
        end += draw(st.sampled_from(['\n', '\n', '\n', '\r\n']))
        if kind == 'comment':
            out.append('#' + draw(st.sampled_from(['', ' text', 'Name Other', '\tLatitude 5'])) + '\n')
        elif kind == 'blank':
            out.append(draw(st.sampled_from(['\n', '\r\n', 'X\n'])))
        elif kind == 'many':
            out += ['%s %d\n' % (k, i) for i in range(draw(st.integers(20, 150))) for k in [draw(st.sampled_from(KEYS))]]
        else:
            k = draw(st.sampled_from(KEYS))
            k = draw(st.sampled_from([k, k, k.upper(), k.lower()]))
            if kind == 'long keyword':
                k = k + 'x' * draw(st.sampled_from([100, 119, 120, 121, 125, 200, 1000]))
            v = draw(value())
            if v == '' and '#' in end and draw(st.booleans()):
                end = '\n'
            if v[:1] == '#' or v == '' and '#' in end:
                # A comment in place of the value is taken as the value, this is not claimed
                end = '\n'
            out.append(k + (draw(st.sampled_from([' ', '    ', '\t', ' \t'])) if v else draw(st.sampled_from(['', ' ', '\t']))) + v + end)
    t = ''.join(out)
    return t[:-1] if draw(st.integers(0, 4)) == 0 else t


@st.composite
def strat(draw):
    ops = []
    ks = st.sampled_from(KEYS).flatmap(lambda k: st.sampled_from([k, k, k, k.upper(), k.lower()]))
    for _ in range(draw(st.integers(1, 25))):
        o = draw(st.sampled_from(['find', 'find', 'again', 'again', 'all', 'count', 'string', 'number', 'number', 'bool', 'control', 'cal', 'update']))
        if o == 'update':
            ops.append([o, draw(file()) if draw(st.booleans()) else None])
        elif o == 'string':
            ops.append([o, draw(ks), draw(st.sampled_from([1, 2, 8, 16, 128, 1024, 4096, 5000]))])
        elif o in ('number', 'bool'):
            ops.append([o, draw(ks), draw(st.integers(1, 4)), draw(st.sampled_from(['int', 'uint', 'float', 'double']))])
        elif o == 'again':
            ops.append([o])
        else:
            ops.append([o, draw(ks)])
    return dict(text=draw(file()), ops=ops, missing=draw(st.integers(0, 30)) == 0, verb=draw(st.booleans()))


NUM = re.compile(r'\s*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)')


def strip_tail(s):
    return s[:1] + s[1:].rstrip('\r\n\t ')


def parse(text):
    out = []
    for i, line in enumerate(text.split('\n')[:1000]):
        line = strip_tail(line)
        if line[:1] == '#' or len(line) < 2:
            continue
        m = re.match(r'([^ \t]*)[ \t]*(.*)', line, re.S)
        k, v = m.group(1), m.group(2)
        if '#' in v[1:]:
            v = v[:v.index('#', 1)]
        v = strip_tail(v)
        numeric = bool(re.match(r'[0-9]|\.[0-9]|[+-][0-9]|[+-]\.[0-9]', v))
        d, n, b = [0.0] * 4, 0, [False] * 4
        if numeric:
            p = 0
            while n < 4:
                m = NUM.match(v, p)
                if not m:
                    break
                d[n] = float(m.group(1))
                n += 1
                p = m.end()
        elif re.match('false|true|yes|no', v, re.I):
            w = v.split()
            if max(len(x) for x in w) > 127:
                b = None
            else:
                for j, x in enumerate(w[:4]):
                    b[j] = x[:4].lower() == 'true' or x.lower() == 'yes'
        out.append(dict(k=k[:127], v=v, numeric=numeric, n=n, d=d, b=b))
        if len(out) == 128:
            break
    return out


def clamp(v, lo):
    return min(max(v, lo), 1e9)


def run(L, c, ctx):
    setup(L)
    for f in ('RKPreferenceInitWithFile', 'RKPreferenceFindKeyword'):
        getattr(L, f).restype = C.c_void_p
    L.vt_pref_object.restype = C.c_char_p
    L.vt_show_color(0)
    d = scratch()
    found = False
    try:
        path = os.path.join(d, 'pref.conf')

        def write(t):
            with open(path, 'wb') as f:
                f.write(t.encode('latin1'))
        if not c['missing']:
            write(c['text'])
        P = C.c_void_p(L.RKPreferenceInitWithFile(path.encode()))
        objects = [] if c['missing'] else parse(c['text'])
        files = L.vt_open_files()
        prev, at = '', 0

        def check():
            need(L.vt_pref_count(P) == len(objects), '%d entries, not %d', L.vt_pref_count(P), len(objects))
            for i in range(128):
                fl, v, b, k = (C.c_int * 3)(), (C.c_double * 4)(), (C.c_int * 4)(), C.c_char_p()
                s = L.vt_pref_object(P, i, fl, v, b, C.byref(k)).decode('latin1')
                if i >= len(objects):
                    need(not fl[0], 'entry %d of %d', i, len(objects))
                    continue
                o = objects[i]
                need(fl[0] == 1 and k.value.decode('latin1') == o['k'] and s == o['v'], 'entry %d is %r %r, not %r %r', i, k.value, s, o['k'], o['v'])
                need(fl[1] == o['numeric'] and (not fl[1] or fl[2] == o['n']) and list(v) == o['d'], 'entry %d %r is a number: %d, %d numbers %s, not %s', i, s, fl[1], fl[2], list(v), o)
                need(o['b'] is None or [bool(x) for x in b] == o['b'], 'entry %d %r is %s, not %s', i, s, list(b), o['b'])

        def find(k):
            nonlocal prev, at, found
            j = at + 1 if k.lower() == prev.lower() else 0
            while j < len(objects):
                if objects[j]['k'].lower() == k.lower():
                    prev, at = k, j
                    found = True
                    return j
                j += 1
            return -1
        check()
        last = 'Name'
        for o in c['ops']:
            ctx.cls(o[0])
            if o[0] == 'update':
                if o[1] is not None:
                    write(o[1])
                    c['missing'] = False
                    objects = parse(o[1])
                rc = L.RKPreferenceUpdate(P)
                need((rc == 0) == (not c['missing']), 'update: %d', rc)
                if not c['missing']:
                    prev, at = '', 0
                check()
                continue
            k = o[1] if len(o) > 1 else last
            last = k
            K = k.encode()
            if o[0] in ('find', 'again'):
                i = L.vt_pref_index(P, C.c_void_p(L.RKPreferenceFindKeyword(P, K)))
                w = find(k)
                need(i == w, 'keyword %s is found at %d, not %d', k, i, w)
            elif o[0] == 'all':
                for _ in range(130):
                    i = L.vt_pref_index(P, C.c_void_p(L.RKPreferenceFindKeyword(P, K)))
                    w = find(k)
                    need(i == w, 'keyword %s is found at %d, not %d', k, i, w)
                    if i < 0:
                        break
            elif o[0] == 'count':
                n = L.RKPreferenceGetKeywordCount(P, K)
                w = sum(x['k'].lower() == k.lower() for x in objects)
                need(n == w, 'keyword %s is there %d times, not %d', k, n, w)
            else:
                verb = int(c['verb'])
                j = find(k)
                x = objects[j] if j >= 0 else None
                if o[0] == 'string':
                    B = Buf(L, o[2], b'\x7f' * o[2])
                    rc = L.RKPreferenceGetValueOfKeyword(P, verb, K, B.p, 5, o[2])
                    if x:
                        got = C.string_at(B.p, o[2])
                        need(b'\0' in got and got.split(b'\0')[0] == x['v'].encode('latin1')[:o[2] - 1], '%s in %d characters is %r, not %r', k, o[2], got, x['v'])
                    else:
                        need(C.string_at(B.p, o[2]) == b'\x7f' * o[2], '%s was not found but has a value', k)
                    B.free()
                elif o[0] == 'control':
                    a, b = C.create_string_buffer(4096), C.create_string_buffer(4096)
                    rc = L.vt_pref_control(P, K, a, b, b'old')
                    need(rc >= 0, 'damage: %d', rc)
                    q = re.findall(r'"([^"]*)(?:"|$)|\'([^\']*)(?:\'|$)', x['v']) if x else []
                    q = [(u or w) for u, w in q] + ['', '']
                    good = x and q[0] and q[1]
                    if x and good:
                        need((a.value, b.value) == (q[0].encode()[:127], q[1].encode()[:511]), 'control %r is %r %r', x['v'], a.value, b.value)
                    elif not x:
                        need((a.value, b.value) == (b'old', b'old'), 'no control but %r %r', a.value, b.value)
                    need((rc == 0) == bool(good), 'control %r: %d', x and x['v'], rc)
                    rc = int(x is None)
                elif o[0] == 'cal':
                    a, v = C.create_string_buffer(4096), (C.c_float * 32)()
                    n = L.vt_pref_calibration(P, K, a, v)
                    w = x['v'].split() if x else []
                    if len(w) > 1 and len(w[0]) <= 127 and re.fullmatch(r'\d+', w[1]) and int(w[1]) < 256:
                        m = min(8, int(w[1]))
                        need(n == m and a.value == w[0].encode(), 'calibration %r is %r %d', x['v'], a.value, n)
                        try:
                            f = [F(t) for t in w[2:2 + 4 * m]]
                        except ValueError:
                            f = []
                        if len(f) == 4 * m:
                            need([F(t) for t in v[:4 * m]] == f, 'calibration %r is %s', x['v'], list(v))
                    elif not x or len(w) < 2:
                        need(n < -10, 'calibration %r is %d', x and x['v'], n)
                    need(n not in (-1, -2), 'damage %d', n)
                    rc = int(x is None)
                else:
                    n = o[2]
                    t = 'bool' if o[0] == 'bool' else o[3]
                    code, T = {'int': (0, C.c_int), 'uint': (1, C.c_uint), 'bool': (2, C.c_bool), 'float': (3, C.c_float), 'double': (4, C.c_double)}[t]
                    B = Buf(L, n * C.sizeof(T), b'\x01' * (n * C.sizeof(T)))
                    rc = L.RKPreferenceGetValueOfKeyword(P, verb, K, B.p, code, n)
                    got = list(C.cast(B.p, C.POINTER(T))[:n])
                    B.free()
                    if x:
                        if t == 'bool':
                            w = x['b'] and x['b'][:n]
                        else:
                            w = [clamp(v, 0.0 if t == 'uint' else -1e9) for v in x['d'][:n]]
                            w = [int(v) for v in w] if t in ('int', 'uint') else [float(F(v)) for v in w] if t == 'float' else w
                        need(w is None or got == w, '%d x %s of %r are %s, not %s', n, t, x['v'], got, w)
                need((rc == 0) == (x is not None), '%s of %s: %d', o[0], k, rc)
        need(L.vt_open_files() == files, '%d files are open, %d before', L.vt_open_files(), files)
        L.RKPreferenceFree(P)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return found


def run_first(L, c, ctx):
    d = scratch()
    try:
        p = os.path.join(d, 'p')
        with open(p, 'w') as f:
            f.write('Name a\n')
        L.RKPreferenceInitWithFile.restype = C.c_void_p
        n = L.vt_open_files()
        for _ in range(c['n']):
            P = C.c_void_p(L.RKPreferenceInitWithFile(p.encode()))
            L.RKPreferenceFree(P)
        need(L.vt_open_files() == n, '%d files stay open', L.vt_open_files() - n)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return True


SUBS = [
    Sub('histories', strat, run, 2000, 30000),
    Sub('files', lambda: st.fixed_dictionaries(dict(n=st.integers(1, 50))), run_first, 20, 50),
]
PROBES = {}
