"""JSON texts of health, controls and the hub are read and changed as JSON says."""
import ctypes as C
import json, math, re
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr
from checks.C27 import Buf

ID = 'C18'
RULE = ('health documents of nested values with any spaces and states; general JSON documents; lists of numbers, quoted texts and controls; documents cut anywhere or of arbitrary text, in buffers of exact size; '
        'non-trivial = two or more members; distinct by case content')
ASSUMPTIONS = ['as documented, texts in health documents have no quotes, brackets, commas or colons, and objects are nested once', 'keys differ by more than case', 'values of up to 255 characters, keys of up to 127']
F = np.float32


def setup(L):
    for f in ['RKGetValueOfKey', 'RKJSONGetElement', 'RKJSONKeyValueFromElement', 'RKJSONGetValueOfKey', 'RKExtractJSON', 'RKGetNextKeyValue']:
        getattr(L, f).restype = C.c_void_p
    L.vt_text_buffer.restype = C.c_void_p
    L.RKFindCondition.restype = L.RKAnyCritical.restype = C.c_bool
    for f in ['RKParseCommaDelimitedValues', 'RKParseNumericArray', 'RKPrettyStringFromKeyValueString', 'RKPrettyStringFromValueString', 'RKPrettyStringSizeEstimate']:
        getattr(L, f).restype = C.c_size_t
    L.vt_show_color(0)


def txt(p):
    return None if not p else C.string_at(p).decode('latin1')


# ---------------------------------------------------------------- health documents
KEYS = ['Health Enum', 'Trigger', 'PLL Clock', 'FPGA Temp', 'XMIT Data Over', 'GPS Latitude', 'GPS Heading', 'Ground Speed', 'Event', 'Log Time', 'heading', 'latitude', 'a', 'k' * 100, 'Network', 'temps', 'I2C Chip']


def render(doc, q, spaces, crlf=False):
    """-> text, [(key, raw value, kind)]; spaces is a list of counts used in turn"""
    n = [0]

    def sp():
        n[0] += 1
        return ' ' * spaces[n[0] % len(spaces)]

    def value(v):
        if v[0] == 's':
            return q + v[1] + q
        if v[0] == 'n':
            return v[1]
        if v[0] == 'b':
            return 'true' if v[1] else 'false'
        if v[0] == 'a':
            return '[' + (',' + sp()).join(v[1]) + ']'
        return '{' + (',' + sp()).join(q + k + q + sp() + ':' + sp() + value(w) for k, w in v[1]) + '}'
    parts, raw = [], []
    for k, v in doc:
        r = value(v)
        raw.append((k, r, v))
        parts.append(sp() + q + k + q + sp() + ':' + sp() + r)
    return '{' + (',').join(parts) + '}', raw


word = st.one_of(st.text('abcXYZ 019.-+/', max_size=12), st.sampled_from(['true', 'FALSE', 'True', '35.1812820', '88.0 deg', '', 'Trigger', 'none']))
number = st.one_of(st.integers(-10 ** 9, 10 ** 9).map(str), st.floats(-1e5, 1e5).map(lambda x: '%.4f' % x))
scalar = st.one_of(st.tuples(st.just('s'), word), st.tuples(st.just('n'), number), st.tuples(st.just('b'), st.booleans()))
status = st.sampled_from([-3, -2, -1, 0, 0, 0, 1, 2, 3, 4, 12])


def member():
    state = st.builds(lambda v, e, x, o: ('o', [w for w in ([('Value', v)] if o else []) + [('Enum', ('n', str(e)))] + ([('Value', v)] if not o else []) + ([('Extra', x)] if x else [])]), scalar, status, st.one_of(st.none(), scalar), st.booleans())
    return st.one_of(scalar, state, state, st.tuples(st.just('a'), st.lists(number, max_size=5)))


def document(quotes=('"',)):
    return st.fixed_dictionaries(dict(doc=st.lists(st.tuples(st.sampled_from(KEYS), member()), min_size=0, max_size=8, unique_by=lambda m: m[0].lower()), quote=st.sampled_from(quotes), spaces=st.lists(st.integers(0, 3), min_size=1, max_size=6)))


def members(doc):
    return [(k, v) for k, v in doc]


def run_health(L, c, ctx):
    setup(L)
    doc = [(k, tuple(v)) for k, v in c['doc']]
    text, raw = render(doc, c['quote'], c['spaces'])
    b = text.encode()
    B = Buf.text(L, b)
    # Every key, in any case
    inner = {k2 for _, v in doc if v[0] == 'o' for k2, _ in v[1]}
    for k, r, v in raw:
        if k.lower() in ('value', 'enum', 'extra'):
            continue
        for name in (k, k.upper(), k.lower()):
            got = txt(L.RKGetValueOfKey(B.p, name.encode()))
            need(got is not None and got.rstrip() == r.rstrip()[:255], 'value of %r in %s: %r, not %r', name, text, got, r)
        if v[0] == 'o':
            O = Buf.text(L, r.encode())
            for k2, w in v[1]:
                first = next(x for y, x in v[1] if y == k2)
                got = txt(L.RKGetValueOfKey(O.p, k2.lower().encode()))
                sub = c['quote'] + first[1] + c['quote'] if first[0] == 's' else first[1] if first[0] == 'n' else 'true' if first[1] else 'false'
                need(got is not None and got.rstrip() == sub.rstrip(), 'value of %r in %s: %r, not %r', k2, r, got, sub)
            O.free()
    need(L.RKGetValueOfKey(B.p, b'missing') is None, 'missing key found in %s', text)
    if c['quote'] == '"':
        # Conditions
        for target in (-3, -1, 0, 1, 2, 3, 4, 12):
            K, V = Buf(L, 4096, b'\0'), Buf(L, 4096, b'\0')
            hit = next(((k, r) for k, r, v in raw if v[0] == 'o' and any(y == 'Enum' and w[1] == str(target) for y, w in v[1])), None)
            got = L.RKFindCondition(B.p, target, C.c_bool(c['spaces'][0] == 1), K.p, V.p)
            need(got == (hit is not None), 'state %d in %s: %s', target, text, got)
            if hit:
                need((K.get().decode(), V.get().decode()) == hit, 'state %d in %s at %r %r, not %s', target, text, K.get(), V.get(), hit)
            need(L.RKFindCondition(B.p, target, C.c_bool(False), None, None) == got, 'state %d without results', target)
            K.free(), V.free()
        crit = str(L.vt_status_enum(b'Critical'))
        need(L.RKAnyCritical(B.p, C.c_bool(False), None, None) == any(v[0] == 'o' and any(y == 'Enum' and w[1] == crit for y, w in v[1]) for _, v in doc), 'critical states of %s', text)
        # Members in order
        X = Buf.text(L, b[1:-1])
        d, seen = X.p.value, []
        while d:
            K, V = Buf(L, 128, b'\0'), Buf(L, 256, b'\0')
            d = L.RKGetNextKeyValue(C.c_void_p(d), K.p, V.p)
            if K.get():
                seen.append((K.get().decode(), V.get().decode().rstrip()))
            K.free(), V.free()
            need(len(seen) <= len(raw), 'more members than there are: %s', seen)
        need(seen == [(k, r.rstrip()[:255]) for k, r, _ in raw], 'members %s, not %s', seen, [(k, r) for k, r, _ in raw])
        X.free()
        # Old
        e = c['value']
        old = [(k, v if v[0] != 'o' else ('o', [(y, w if y != 'Enum' else ('n', str(e))) for y, w in v[1]])) for k, v in doc]
        want = render(old, c['quote'], c['spaces'])[0]
        W = Buf(L, max(len(text), len(want)) + 16, b + b'\0')
        if not any('Enum' in k for k, _ in doc):
            L.RKReplaceAllValuesOfKey(W.p, b'Enum', e)
            need(W.get().decode() == want, 'states of %s set to %d: %s, not %s', text, e, W.get().decode(), want)
        W.free()
        # One state
        for j, (k, v) in enumerate(doc):
            if v[0] != 'o' or any('Enum' in q for q, _ in doc) or any(k.lower() in t[0].lower() or k.lower() in str(t[1]).lower() for i, t in enumerate(doc) if i < j) or k == 'a':
                continue
            new = [(y, w if i != j else ('o', [(p, x if p != 'Enum' else ('n', str(e))) for p, x in w[1]])) for i, (y, w) in enumerate(doc)]
            want = render(new, c['quote'], c['spaces'])[0]
            W = Buf(L, max(len(text), len(want)) + 16, b + b'\0')
            L.RKReplaceEnumOfKey(W.p, k.lower().encode(), e)
            need(W.get().decode() == want, 'state of %r in %s set to %d: %s, not %s', k, text, e, W.get().decode(), want)
            W.free()
        # Logical values
        W = Buf.text(L, b)
        L.RKReviseLogicalValues(W.p)
        want = re.sub('"(true|false)"', lambda m: m[1].lower(), text, flags=re.I)
        need(W.get().decode() == want, 'logical values of %s: %s', text, W.get().decode())
        W.free()
    need(B.get() == b, 'the text became %s', B.get())
    B.free()
    return len(doc) > 1


# ---------------------------------------------------------------- JSON
leaf = st.one_of(st.none(), st.booleans(), st.integers(-10 ** 12, 10 ** 12), st.floats(-1e6, 1e6), st.text('abc "\'\\{}[](),:\n\té', max_size=12), st.text('abc 019', max_size=8))
name = st.one_of(st.text('abcXY_ 019', min_size=1, max_size=10), st.text('ab"\'\\{}[],:', min_size=1, max_size=6), st.sampled_from(['name', 'connected', 'controllable']))
tree = st.recursive(leaf, lambda s: st.one_of(st.lists(s, max_size=4), st.dictionaries(name, s, max_size=4)), max_leaves=12)


def dump(v, how):
    if how == 0:
        return json.dumps(v)
    if how == 1:
        return json.dumps(v, separators=(',', ':'))
    return json.dumps(v, indent=how)


def run_json(L, c, ctx):
    setup(L)
    v, how = c['doc'], c['how']
    text = dump(v, how)
    b = text.encode()
    B = Buf.text(L, b)
    items = list(v.items()) if isinstance(v, dict) else list(v)
    n = len(b) + 1
    # Element by element
    p = B.p.value + 1
    got = []
    while True:
        E = Buf(L, n)
        p = L.RKJSONGetElement(E.p, C.c_void_p(p))
        need(B.p.value <= p <= B.p.value + len(b), 'the scan of %s went on behind its end', text)
        e = E.get()
        E.free()
        if not e:
            break
        got.append(e)
        need(len(got) <= len(items), 'more elements than there are: %s', got)
    need(len(got) == len(items), '%d elements of %s: %s', len(got), text, got)
    for e, want in zip(got, items):
        if isinstance(v, dict):
            X, K, V = Buf.text(L, e), Buf(L, n), Buf(L, n)
            L.RKJSONKeyValueFromElement(K.p, V.p, X.p)
            key = json.dumps(want[0])[1:-1]
            need(K.get().decode() == key, 'key of %s: %r, not %r', e, K.get(), key)
            need(json.loads(V.get()) == want[1], 'value of %s: %s, not %s', e, V.get(), want[1])
            # Directly by name
            first = next(w for w in items if json.dumps(w[0])[1:-1].lower() == key.lower())
            if first[0] == want[0]:
                Y = Buf(L, n)
                L.RKJSONGetValueOfKey(Y.p, K.p, V.p, key.upper().encode() if key.isalpha() else key.encode(), B.p)
                need(K.get().decode() == key and json.loads(V.get()) == want[1], 'key %r in %s: %r %s', key, text, K.get(), V.get())
                Y.free()
            for q in (X, K, V):
                q.free()
        else:
            need(json.loads(e) == want, 'element %s, not %s', e, want)
    if isinstance(v, dict):
        Y, K, V = Buf(L, n), Buf(L, n), Buf(L, n)
        L.RKJSONGetValueOfKey(Y.p, K.p, V.p, b'not there', B.p)
        need(K.get() == b'' and V.get() == b'', 'missing key gives %r %r', K.get(), V.get())
        for q in (Y, K, V):
            q.free()
    # In color
    size = L.RKPrettyStringSizeEstimate(B.p)
    D = Buf(L, size)
    m = L.RKPrettyStringFromKeyValueString(D.p, B.p)
    out = D.get().decode()
    need(m == len(D.get()) < size, 'pretty text of %d in %d', m, size)
    plain = re.sub('\x1b\\[[0-9;]*m', '', out)
    want = pretty(v)
    if want is not None:
        need(plain == want, 'pretty text of %s: %s, not %s', text, plain, want)
        ctx.cls('pretty')
    D.free(), B.free()
    return len(items) > 1


def pretty(v):
    """Reference of the plain pretty text; None when it is not defined (texts read as other things)."""
    if isinstance(v, dict):
        r = []
        for k, w in v.items():
            kt = json.dumps(k)[1:-1]
            if not re.fullmatch('[a-zXY_][a-zXY_019 ]*', kt) or re.search('null|true|false', kt, re.I):
                return None
            x = pretty(w)
            if x is None:
                return None
            r.append('%s = %s' % (kt, x))
        return '{' + ', '.join(r) + '}'
    if isinstance(v, list):
        r = [pretty(w) for w in v]
        return None if None in r else '[' + ', '.join(r) + ']'
    return json.dumps(v)


def strat_json():
    doc = st.one_of(st.lists(tree, max_size=6), st.dictionaries(name, tree, max_size=6))
    return st.fixed_dictionaries(dict(doc=doc, how=st.sampled_from([0, 1, 2, 4])))


# ---------------------------------------------------------------- lists
LISTS = {'float': (475, np.float32), 'double': (476, np.float64)}


def run_lists(L, c, ctx):
    setup(L)
    t = c['type']
    dt = {'Float': np.float32, 'Double': np.float64, 'Int32': np.int32, 'UInt32': np.uint32, 'Int64': np.int64, 'UInt64': np.uint64}[t]
    T = L.vt_value_type(t.encode())
    vals, size = c['values'], c['size']
    if 'Int' in t:
        info = np.iinfo(dt)
        lo, hi = max(info.min, -2 ** 63), min(info.max, 2 ** 63 - 1)
        if t == 'UInt32':
            hi = 2 ** 31 - 1
        nums = [max(lo, min(hi, int(x))) for x in vals]
        strs = [str(x) for x in nums]
    else:
        nums = vals
        strs = [repr(x) for x in vals]
    sp = c['spaces']
    text = ','.join(' ' * sp[i % len(sp)] + s + ' ' * sp[(i + 1) % len(sp)] for i, s in enumerate(strs))
    want = np.array(nums[:size], dt)
    for f, body in ((L.RKParseCommaDelimitedValues, text), (L.RKParseNumericArray, '[' + text + ']'), (L.RKParseNumericArray, ' [' + text + '] '), (L.RKParseNumericArray, text)):
        D = Buf(L, size * np.dtype(dt).itemsize)
        S = Buf.text(L, body.encode())
        n = f(D.p, T, C.c_size_t(size), S.p)
        need(n == len(want), '%d values of %r for %d', n, body, size)
        if n:
            x = np.frombuffer(C.string_at(D.p, size * np.dtype(dt).itemsize), dt)
            need(np.array_equal(x[:n], want), '%s of %r: %s', t, body, x[:n])
        need(S.get() == body.encode(), 'the text became %r', S.get())
        D.free(), S.free()
    # Quoted texts
    parts, seps = c['texts'], c['seps']
    text = ''.join(seps[i % len(seps)] + q + p + q for i, (p, q) in enumerate(parts)) + seps[0]
    n = c['count']
    S = Buf.text(L, text.encode())
    bufs = [Buf(L, len(parts[k][0]) + 1 if k < len(parts) else 4, None if k < len(parts) else b'old\0') for k in range(n)]
    A = (C.c_void_p * 5)(*[x.p for x in bufs])
    L.vt_parse_quoted(S.p, A, n)
    for k in range(n):
        w = parts[k][0] if k < len(parts) else 'old'
        need(bufs[k].get().decode() == w, 'text %d of %r: %r', k, text, bufs[k].get())
        bufs[k].free()
    S.free()
    # Controls
    m = len(c['controls'])
    lab, com = C.create_string_buffer(256 * (m + 1)), C.create_string_buffer(256 * (m + 1))
    stop = m
    for k, (a, b) in enumerate(c['controls']):
        if not a and stop == m:
            stop = k
        lab[256 * k:256 * k + len(a)], com[256 * k:256 * k + len(b)] = a.encode(), b.encode()
    want = ', '.join('{"Label": "%s", "Command": "%s"}' % (a, b) for a, b in c['controls'][:stop])
    D = Buf(L, len(want) + 3)
    L.vt_controls(D.p, lab, com, m)
    need(D.get().decode() == want, 'controls %s, not %s', D.get(), want)
    D.free()
    # Zones
    x, z = F(c['value']), sorted(F(y) for y in c['zones'])
    L.RKValueToEnum.restype, L.RKValueToEnum.argtypes = C.c_int32, [C.c_float] * 7
    s = L.RKValueToEnum(x, *z)
    zone = sum(x > y for y in z)
    want = -3 if not math.isfinite(x) else [4, -2, -1, 0, 1, 2, 4][zone]
    L.vt_status_enum.restype = C.c_int
    crit = L.vt_status_enum(b'Critical')
    want = crit if want == 4 else want
    need(s == want, 'state of %r in %s: %d, not %d', x, z, s, want)
    for f, zz in (('RKStatusFromTemperatureForCE', [-20, -10, 0, 70, 80, 90]), ('RKStatusFromTemperatureForIE', [-60, -50, -40, 85, 95, 105]), ('RKStatusFromTemperatureForComputers', [-20, -10, 0, 25, 26, 27])):
        g = getattr(L, f)
        g.restype, g.argtypes = C.c_int32, [C.c_float]
        want = -3 if not math.isfinite(x) else [crit, -2, -1, 0, 1, 2, crit][sum(x > y for y in zz)]
        need(g(x) == want, '%s of %r: %d, not %d', f, x, g(x), want)
    return len(vals) > 1


def strat_lists():
    nums = st.lists(st.one_of(st.floats(-1e6, 1e6).map(lambda x: round(x, 3)), st.integers(-1000, 1000).map(float), st.integers(-10 ** 18, 10 ** 18).map(float)), max_size=10)
    part = st.one_of(st.tuples(st.text("ab' ,{}", max_size=8), st.just('"')), st.tuples(st.text('ab" ,[]', max_size=8), st.just("'")))
    lab = st.text('abcZ 019-', max_size=20)
    temp = st.one_of(st.floats(-100, 150, width=32), st.integers(-100, 150), st.sampled_from([-60, -50, -40, -20, -10, 0, 25, 26, 27, 70, 80, 85, 90, 95, 105, float('nan'), float('inf'), float('-inf')]))
    return st.fixed_dictionaries(dict(type=st.sampled_from(['Float', 'Double', 'Int32', 'UInt32', 'Int64', 'UInt64']), values=nums, size=st.integers(0, 12), spaces=st.lists(st.integers(0, 2), min_size=1, max_size=3), texts=st.lists(part, max_size=5),
                                      seps=st.lists(st.sampled_from(['', ' ', ', ', ' : ']), min_size=1, max_size=3), count=st.integers(0, 4), controls=st.lists(st.tuples(lab, lab), max_size=5), value=temp,
                                      zones=st.lists(st.integers(-60, 110), min_size=6, max_size=6)))


# ---------------------------------------------------------------- anything
def run_any(L, c, ctx):
    setup(L)
    b = c['text'].encode('latin1')
    if c['from'] is not None:
        doc = [(k, tuple(v)) for k, v in c['from']['doc']]
        b = render(doc, c['from']['quote'], c['from']['spaces'])[0].encode()[:c['cut']] + b
    n = len(b) + 1
    key = c['key'].encode()

    def fresh():
        return Buf.text(L, b)

    B = fresh()
    v = L.RKGetValueOfKey(B.p, key)
    need(v is None or len(C.string_at(v)) <= 255, 'value of %d characters', 0)
    K, V = Buf(L, 4096, b'\0'), Buf(L, 4096, b'\0')
    L.RKFindCondition(B.p, 0, C.c_bool(False), K.p, V.p)
    K.free(), V.free()
    # Each step goes on or ends
    d, steps = B.p.value, 0
    while d:
        K, V = Buf(L, 128), Buf(L, 256)
        e = L.RKGetNextKeyValue(C.c_void_p(d), K.p, V.p)
        K.free(), V.free()
        need(not e or d < e <= B.p.value + len(b), 'the next member of %r does not follow', b)
        d = e
    p, steps = B.p.value, 0
    while p < B.p.value + len(b):
        E, K, V = Buf(L, n), Buf(L, n), Buf(L, n)
        e = L.RKJSONGetElement(E.p, C.c_void_p(p))
        need(p < e <= B.p.value + len(b), 'the next element of %r is at %d of %d', b, e - B.p.value, len(b))
        L.RKJSONKeyValueFromElement(K.p, V.p, E.p)
        p = e
        for q in (E, K, V):
            q.free()
    if b:
        E, K, V = Buf(L, n), Buf(L, n), Buf(L, n)
        L.RKJSONGetValueOfKey(E.p, K.p, V.p, key, B.p)
        t = C.c_uint8()
        e = L.RKExtractJSON(B.p, C.byref(t), K.p, V.p)
        need(not e or B.p.value < e <= B.p.value + len(b), 'the member of %r ends outside', b)
        for q in (E, K, V):
            q.free()
    if len(b) < 300:
        size = L.RKPrettyStringSizeEstimate(B.p)
        D = Buf(L, size)
        L.RKPrettyStringFromKeyValueString(D.p, B.p)
        D.free()
    need(B.get() == b.split(b'\0')[0], 'the text became %r', B.get())
    B.free()
    count = b.count(b'Enum') + 1
    for f in (lambda w: L.RKReplaceAllValuesOfKey(w.p, b'Enum', -3), lambda w: L.RKReplaceEnumOfKey(w.p, key, 123456), lambda w: L.RKReviseLogicalValues(w.p)):
        W = Buf(L, n + 8 * count, b + b'\0')
        f(W)
        W.free()
    D = Buf(L, 16)
    S = fresh()
    L.RKParseNumericArray(D.p, L.vt_value_type(b'Float'), C.c_size_t(4), S.p)
    bufs = [Buf(L, n) for _ in range(4)]
    L.vt_parse_quoted(S.p, (C.c_void_p * 5)(*[x.p for x in bufs]), 4)
    for q in bufs + [D, S]:
        q.free()
    ctx.cls('cut' if c['from'] is not None else 'any')
    return len(b) > 3


def strat_any():
    piece = st.sampled_from(['"', "'", '{', '}', '[', ']', ':', ',', ' ', 'Enum', '"Enum":1', '"true"', 'a', '\\', '\n', 'null', '-1.5', '(', 'x' * 300, '"Value":', 'heading', '\xff'])
    return st.fixed_dictionaries({'text': st.one_of(st.just(''), st.lists(piece, max_size=14).map(''.join)), 'from': st.one_of(st.none(), document()), 'cut': st.integers(0, 300), 'key': st.sampled_from(['heading', 'Enum', 'a', '', 'k' * 300, 'Value'])})


SUBS = [Sub('health', lambda: document(('"', '"', "'")).flatmap(lambda d: st.integers(-3, 12).map(lambda v: dict(d, value=v))), run_health, 3000, 150000), Sub('json', strat_json, run_json, 4000, 200000), Sub('lists', strat_lists, run_lists, 2500, 120000),
        Sub('any text', strat_any, run_any, 4000, 200000)]
PROBES = {}
