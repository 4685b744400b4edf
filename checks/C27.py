"""Numbers, times, paths and texts are converted as specified, for every input."""
import ctypes as C
import math, os, re, shutil, struct, time
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch

ID = 'C27'
RULE = ('values of every type with 3-digit grouping, times in every format, paths, texts with quotes, escape sequences, columns, bytes as text, angle differences, all in buffers of exact size; threads that convert at the same time; '
        'non-trivial = more than three digits, more than one part, or text of more than two characters; distinct by case content')
ASSUMPTIONS = ['the values 0xFEEDFACECAFEBEEF and the time 0xFEEDFACE, which end the use of these functions, are left out', 'TZ=UTC', 'years up to 9999']
F = np.float32
END = 0xFEEDFACECAFEBEEF


def setup(L):
    for f in ['RKUIntegerToCommaStyleString', 'RKIntegerToCommaStyleString', 'RKIntegerToHexStyleString', 'RKFloatToCommaStyleString', 'vt_timeval_string', 'RKStringFromValue', 'RKVariableInString', 'RKLastPartOfPath',
              'RKLastTwoPartsOfPath', 'RKLastNPartsOfPath', 'RKFolderOfFilename', 'RKFileExtension', 'RKPathStringByExpandingTilde', 'RKStripEscapeSequence', 'RKNextNoneWhite', 'RKStringLower', 'RKCountryFromPosition',
              'RKGetColorOfIndex', 'RKGetBackgroundColorOfIndex', 'RKGetBackgroundColorOfCubeIndex', 'RKLastLine']:
        getattr(L, f).restype = C.c_char_p
    L.vt_text_buffer.restype = C.c_void_p
    L.RKFloatToCommaStyleString.argtypes = [C.c_double]
    L.RKCountryFromPosition.argtypes = [C.c_double, C.c_double]
    for f in ['RKMinDiff', 'RKUMinDiff', 'RKModulo360Diff']:
        getattr(L, f).restype, getattr(L, f).argtypes = C.c_float, [C.c_float, C.c_float]
    L.RKAngularCrossOver.restype, L.RKAngularCrossOver.argtypes = C.c_bool, [C.c_float] * 3
    L.RKGetSymbolFromFilename.restype = L.RKGetPrefixFromFilename.restype = L.RKFilenameExists.restype = C.c_bool
    for f in ['vt_timeval_diff', 'vt_timespec_diff']:
        getattr(L, f).restype, getattr(L, f).argtypes = C.c_double, [C.c_long] * 4


class Buf:
    """Memory of exactly n bytes."""
    def __init__(self, L, n, content=None):
        self.L, self.n = L, n
        self.p = C.c_void_p(L.vt_text_buffer(C.c_size_t(max(1, n))))
        if content is not None:
            C.memmove(self.p, content, len(content))

    @classmethod
    def text(cls, L, b):
        return cls(L, len(b) + 1, b + b'\0')

    def get(self):
        return C.string_at(self.p)

    def free(self):
        self.L.vt_text_free(self.p)


# ---------------------------------------------------------------- numbers
INTS = {'Int': 'i', 'Long': 'q', 'Int8': 'b', 'Int16': 'h', 'Int32': 'i', 'Int64': 'q', 'SSize': 'q', 'UInt': 'I', 'ULong': 'Q', 'UInt8': 'B', 'UInt16': 'H', 'UInt32': 'I', 'UInt64': 'Q', 'Size': 'Q'}
FLOATS = {'Float': ('f', 1.0), 'Double': ('d', 1.0), 'FloatMultipliedBy1k': ('f', 1e3), 'FloatMultipliedBy1M': ('f', 1e6), 'FloatDividedBy1k': ('f', 1e-3), 'FloatDividedBy1M': ('f', 1e-6),
          'DoubleMultipliedBy1k': ('d', 1e3), 'DoubleMultipliedBy1M': ('d', 1e6), 'DoubleDividedBy1k': ('d', 1e-3), 'DoubleDividedBy1M': ('d', 1e-6)}
HEXED = [k for k in INTS if k not in ('SSize', 'Size')]
TYPES = sorted(INTS) + sorted(FLOATS) + [k + 'InHex' for k in HEXED] + ['Null', 'Bool', 'String', 'NumericString']


def float_text(x):
    x = float(x)
    if math.isnan(x):
        return ('-' if math.copysign(1, x) < 0 else '') + 'nan'
    if abs(x) < 1e18:
        return f'{x:,.3f}'
    return '%.3e' % x


def value_text(t, v):
    """-> (bytes of the value, text)"""
    if t in INTS:
        b = struct.pack('<Q', v & (2 ** 64 - 1))[:struct.calcsize(INTS[t])]
        return b, f'{struct.unpack("<" + INTS[t], b)[0]:,}'
    if t.endswith('InHex'):
        c = INTS[t[:-5]]
        b = struct.pack('<Q', v & (2 ** 64 - 1))[:struct.calcsize(c)]
        return b, '0x%04x' % (struct.unpack('<' + c, b)[0] & (2 ** 64 - 1))
    if t in FLOATS:
        c, m = FLOATS[t]
        x = struct.unpack('<d', struct.pack('<Q', v & (2 ** 64 - 1)))[0] if isinstance(v, int) else v
        with np.errstate(all='ignore'):
            x = F(x) if c == 'f' else float(x)
        return struct.pack('<' + c, x), float_text(m * float(x))
    if t == 'Bool':
        return bytes([v & 1]), 'True' if v & 1 else 'False'
    if t == 'Null':
        return b'\0', 'Null'
    return None, None


def run_numbers(L, c, ctx):
    setup(L)
    t = c['type']
    v = c['float'] if t in FLOATS else c['int']
    if t in ('String', 'NumericString'):
        b, text = c['text'].encode() + b'\0', c['text']
    else:
        b, text = value_text(t, v)
    T = L.vt_value_type(t.encode())
    # Values of 8 bytes that end the use
    if (t in INTS or t.endswith('InHex')) and struct.unpack('<q', b.ljust(8, b'\0'))[0] & (2 ** 64 - 1) == END:
        return False
    B = Buf(L, len(b), b)
    if t not in ('Null', 'Bool'):
        need(L.RKStringFromValue(B.p, T) == text.encode(), '%s of %r gives %r, not %r', t, v, L.RKStringFromValue(B.p, T), text)
    name = c['name']
    shown = "'%s'" % text if t == 'String' else text
    L.vt_show_color(0)
    got = L.RKVariableInString(name.encode(), B.p, T).decode('latin1')
    need(got == ('%s = %s' % (name, shown))[:127], '%s variable %r, not %r', t, got, '%s = %s' % (name, shown))
    if len(name) + len(text) < 60:
        L.vt_show_color(1)
        got = L.RKVariableInString(name.encode(), B.p, T).decode('latin1')
        L.vt_show_color(0)
        need(re.sub('\x1b\\[[0-9;]*m', '', got) == '%s = %s' % (name, shown), 'in color %r', got)
    # Long-lived results: as many as there are buffers
    keep = [L.RKIntegerToCommaStyleString(C.c_longlong(c['int'] % 1000003 * 1000 + k)) for k in range(3)]
    need(keep == [f'{c["int"] % 1000003 * 1000 + k:,}'.encode() for k in range(3)], 'three numbers %s', keep)
    L.RKIntegerToCommaStyleString.restype = C.c_void_p
    held = [L.RKIntegerToCommaStyleString(C.c_longlong(k * 1001)) for k in range(32)]
    for k, p in enumerate(held):
        need(C.string_at(p) == f'{k * 1001:,}'.encode(), 'result %d of 32 became %r', k, C.string_at(p))
    L.RKIntegerToCommaStyleString.restype = C.c_char_p
    B.free()
    ctx.cls(t)
    return len(text) > 3


def strat_numbers():
    wide = st.one_of(st.integers(-2 ** 63, 2 ** 63 - 1), st.integers(-1100, 1100), st.builds(lambda s, d, o: s * (10 ** d + o), st.sampled_from([-1, 1]), st.integers(0, 18), st.integers(-1, 1)), st.builds(lambda k, o: 2 ** k + o, st.integers(0, 62), st.integers(-1, 1)),
                     st.sampled_from([-2 ** 63, 2 ** 63 - 1, -1, 0]))
    number = st.one_of(st.floats(), st.floats(-1e7, 1e7), st.builds(lambda s, d, o: s * (10.0 ** d + o), st.sampled_from([-1, 1]), st.integers(-4, 19), st.sampled_from([0, -0.0005, -0.0004, -0.001, 0.001])),
                       st.sampled_from([999.9995, 999.9994, -999.9996, 999999.9996, -0.0, 1e18, 9.99999999999999e17, -1e18, float('inf'), float('-inf'), float('nan'), 1e300]))
    return st.fixed_dictionaries(dict(type=st.sampled_from(TYPES), int=wide, float=number, text=st.text('abc ,.019-', max_size=150), name=st.one_of(st.text('abcXYZ_.', min_size=1, max_size=20), st.just('n' * 127), st.just('m' * 200))))


# ---------------------------------------------------------------- times
def run_times(L, c, ctx):
    setup(L)
    s, u, f = c['sec'], c['usec'], c['format']
    if s == 0xFEEDFACE:
        return False
    got = L.vt_timeval_string(C.c_long(s), C.c_long(u), f).decode()
    base = [(1080, '%Y/%m/%d %H:%M:%S'), (860, '%Y%m%d-%H%M%S'), (800, '%Y%m%d'), (80, '%H:%M:%S'), (60, '%H%M%S')]
    want, n = None, 0
    for low, pattern in base:
        if f >= low:
            want, n = time.strftime(pattern, time.gmtime(s)), min(6, f - low)
            break
    else:
        want = time.strftime('%Y%m%d-%H%M%S', time.gmtime(s))
    if n:
        want += '.' + ('%06d' % u)[:n]
    need(got == want, 'time %d.%06d in format %d gives %r, not %r', s, u, f, got, want)
    a, b = c['sec'], c['sec2']
    d = L.vt_timeval_diff(a, u, b, c['usec2'])
    from fractions import Fraction as Q
    exact = Q(a - b) + Q(u - c['usec2'], 10 ** 6)
    need(abs(Q(d) - exact) <= abs(exact) * Q(1, 2 ** 50) + Q(1, 10 ** 12), 'difference %r of %s', d, float(exact))
    d = L.vt_timespec_diff(a, u * 1000 + 7, b, c['usec2'] * 1000)
    exact += Q(7, 10 ** 9)
    need(abs(Q(d) - exact) <= abs(exact) * Q(1, 2 ** 50) + Q(1, 10 ** 12), 'difference %r of %s', d, float(exact))
    ctx.cls('format %d' % max([0] + [low for low, _ in base if f >= low]))
    return True


def strat_times():
    sec = st.one_of(st.integers(0, 4 * 10 ** 9), st.integers(0, 253402300799), st.sampled_from([0, 1, 951782400, 951868799, 2 ** 31 - 1, 2 ** 31, 253402300799]))
    usec = st.one_of(st.integers(0, 999999), st.sampled_from([0, 1, 9, 99999, 100000, 999999]))
    return st.fixed_dictionaries(dict(sec=sec, usec=usec, sec2=sec, usec2=usec, format=st.one_of(st.integers(0, 1100), st.sampled_from([0, 59, 60, 61, 66, 67, 79, 80, 83, 86, 799, 800, 806, 859, 860, 863, 866, 1079, 1080, 1083, 1086, 1090, 2000]))))


# ---------------------------------------------------------------- paths
def run_paths(L, c, ctx):
    setup(L)
    p, n = c['path'], c['n']
    b = p.encode()
    B = Buf.text(L, b)
    parts = p.split('/')
    need(L.RKLastPartOfPath(B.p).decode() == parts[-1], 'last part of %r: %r', p, L.RKLastPartOfPath(B.p))
    for k, got in [(n, L.RKLastNPartsOfPath(B.p, n)), (2, L.RKLastTwoPartsOfPath(B.p))]:
        if k == 0:
            want = ''
        elif k < len(parts):
            want = '/'.join(parts[-k:])
        else:
            want = p[1:] if p.startswith('/') else p
        need(got.decode() == want, 'last %d parts of %r: %r, not %r', k, p, got, want)
    folder = '.' if len(parts) == 1 else ('/' if p.rindex('/') == 0 else p[:p.rindex('/')])[:1023]
    need(L.RKFolderOfFilename(B.p).decode() == folder, 'folder of %r: %r', p, L.RKFolderOfFilename(B.p))
    ext = parts[-1][parts[-1].rindex('.'):] if '.' in parts[-1] else ''
    need(L.RKFileExtension(B.p).decode() == ext[:15], 'extension of %r: %r', p, L.RKFileExtension(B.p))
    home = c['home']
    libc = C.CDLL(None)
    old = os.environ.get('HOME', '/root')
    libc.setenv(b'HOME', home.encode(), 1)
    q = p.lstrip(' ')
    want = (home[:-1] if home.endswith('/') else home) + (q[1:] or '/') if q == '~' or q.startswith('~/') else q
    got = L.RKPathStringByExpandingTilde(B.p).decode()
    libc.setenv(b'HOME', old.encode(), 1)
    need(got == want[:1023], 'expanded %r with home %r: %r, not %r', p, home, got, want)
    # Symbol: between the last - in front of the extension and the extension
    S = Buf(L, 8)
    stem = p[:p.rindex('.')] if '.' in p else p
    ok = L.RKGetSymbolFromFilename(B.p, S.p)
    if stem.rfind('-') > 0:
        need(ok and S.get().decode() == stem[stem.rindex('-') + 1:][:7], 'symbol of %r: %r', p, S.get())
    else:
        need(not ok and S.get() == b'-', 'symbol of %r: %s %r', p, ok, S.get())
    S.free()
    stem = p[:p.index('.nc')] if '.nc' in p else p
    S = Buf(L, len(b) + 1)
    ok = L.RKGetPrefixFromFilename(B.p, S.p)
    if stem.rfind('-') > 0:
        need(ok and S.get().decode() == stem[:stem.rindex('-')], 'prefix of %r: %r', p, S.get())
    else:
        need(not ok and S.get() == b'', 'prefix of %r: %s %r', p, ok, S.get())
    S.free()
    # Replaced from the pattern on
    a, r = c['pattern'], c['replacement']
    want = p[:p.index(a)] + r if a in p else p
    S = Buf(L, max(len(p), len(want)) + 1, b + b'\0')
    L.RKReplaceFileExtension(S.p, a.encode(), r.encode())
    need(S.get().decode() == want, '%r with %r for %r: %r, not %r', p, r, a, S.get(), want)
    S.free()
    need(B.get() == b, 'the path became %r', B.get())
    B.free()
    return len(parts) > 2


def strat_paths():
    part = st.one_of(st.text('ab.-~ ', max_size=6), st.sampled_from(['PX-20170220-050706-E1.0-Z.nc', 'PX-20170220-050706-E1.0-Zhi.nc', 'file.tar.xz', '..', '', '~', 'x' * 250, 'noext', 'a-b', '-Z.nc', '.nc', 'data.d']))
    path = st.builds(lambda a, b: a + '/'.join(b), st.sampled_from(['', '/', '~/', ' ~/', '  ', '~']), st.lists(part, min_size=1, max_size=6))
    return st.fixed_dictionaries(dict(path=path, n=st.integers(0, 7), home=st.sampled_from(['/root', '/', '/home/x/', '', '/h' * 520]), pattern=st.sampled_from(['.nc', '.', '-', '.tar.xz', '__', 'a']), replacement=st.sampled_from(['', '.txz', '.__', 'longer than it was'])))


def run_prepare(L, c, ctx):
    setup(L)
    D = scratch()
    try:
        for p in c['paths']:
            f = os.path.join(D, p)
            B = Buf.text(L, f.encode())
            L.RKPreparePath(B.p)
            need(B.get() == f.encode(), 'the path became %r', B.get())
            need(os.path.isdir(os.path.dirname(f)), 'folder of %r is missing', p)
            last = os.path.basename(f)
            if last and not os.path.exists(f):
                need(not L.RKFilenameExists(B.p), '%r exists before it was made', p)
                open(f, 'w').close()
            need(L.RKFilenameExists(B.p), '%r does not exist', p)
            B.free()
        made = {os.path.relpath(os.path.join(r, x), D) for r, ds, _ in os.walk(D) for x in ds}
        want = set()
        for p in c['paths']:
            q = os.path.dirname(os.path.normpath(p) + ('/x' if p.endswith('/') else ''))
            while q:
                want.add(q)
                q = os.path.dirname(q)
        need(made == want, 'folders %s, not %s', sorted(made), sorted(want))
    finally:
        shutil.rmtree(D, ignore_errors=True)
    return any(p.count('/') > 1 for p in c['paths'])


def strat_prepare():
    d = st.sampled_from(['a', 'b', 'data', '20170220', 'x' * 100, 'sp ace'])
    path = st.builds(lambda a, f, s: s.join(a + [f]), st.lists(d, max_size=5), st.sampled_from(['f.nc', 'g.rkr', 'h', '']), st.sampled_from(['/', '/', '//'])).filter(lambda p: p and not p.startswith('/'))
    return st.fixed_dictionaries(dict(paths=st.lists(path, min_size=1, max_size=4)))


# ---------------------------------------------------------------- texts
ESC = re.compile('\x1b[^a-zA-Z]*[a-zA-Z]')


def strip_escape(s):
    """Reference: everything but the tags; text from a tag that never ends is dropped."""
    out, k = [], 0
    while k < len(s):
        e = s.find('\x1b', k)
        if e < 0 or s[e + 1:e + 2] != '[':
            out.append(s[k:])
            break
        out.append(s[k:e])
        m = re.compile('[a-zA-Z]').search(s, e + 1)
        if not m:
            break
        k = m.end()
    return ''.join(out)[:8191]


def binary(b):
    return "b'" + ''.join(('\\' if x in (0x5c, 0x27) else '') + chr(x) if 32 <= x < 127 else '\\x%02x' % x for x in b) + "'"


def head_tail_binary(b):
    return binary(b) if len(b) <= 30 else binary(b[:25]) + ' ... ' + binary(b[-5:])


def in_hex(b):
    return '[' + ''.join('.%02x' % x for x in b) + ']'


def head_tail_hex(b):
    return in_hex(b) if len(b) <= 10 else in_hex(b[:7]) + ' ... ' + in_hex(b[-3:])


def hub(b):
    n = min(25, len(b))
    if len(b) == 0 or sum(32 <= x < 127 for x in b[:n]) > n * 2 // 3:
        return head_tail_binary(b)
    return "b'\\x%02x'" % b[0] + head_tail_hex(b[1:])


def merge(left, right, indent):
    """Reference of the two columns of 26 and 38 characters."""
    def lines(t):
        r = t.split('\n')
        return r[:-1] if r[-1] == '' else r
    a, b = lines(left), lines(right)
    out, w = '', 0
    for k in range(max(len(a), len(b))):
        if k < len(a):
            out += ' ' * indent + a[k] + ' ' * max(0, 26 - len(strip_escape(a[k])))
        else:
            out += ' ' * (26 + indent)
        if k < len(b):
            n = len(strip_escape(b[k]))
            w = max(w, n)
            out += b[k] + ' ' * max(0, 38 - n)
        else:
            out += ' ' * 38
        out += '\n'
    return out, w + 26 + indent


def run_texts(L, c, ctx):
    setup(L)
    s, w = c['text'], c['width']
    b = s.encode('latin1')
    # Tail
    B = Buf.text(L, b)
    k = L.RKStripTail(B.p)
    want = s[:1] + s[1:].rstrip('\r\n\t ')
    if len(want) == 1 and s:
        want = s[:1]
    need(B.get() == want.encode('latin1') and k == len(s) - len(want), 'tail of %r: %d %r', s, k, B.get())
    B.free()
    # Quotes
    B = Buf.text(L, b)
    k = L.RKUnquote(B.p)
    want = s[1:s.rindex(s[0])] if s[:1] in ('"', "'") and s and s.rindex(s[0]) > 0 else s
    need(B.get() == want.encode('latin1') and k == len(want), 'unquoted %r: %d %r', s, k, B.get())
    B.free()
    # Case
    B = Buf.text(L, b)
    L.RKStringLower(B.p)
    need(B.get() == bytes(x + 32 if 65 <= x <= 90 else x for x in b), 'lower case of %r: %r', s, B.get())
    B.free()
    B = Buf.text(L, b)
    # Indented
    want = '\n'.join(' ' * w + x for x in s.split('\n'))
    D = Buf(L, len(want) + 1)
    k = L.RKIndentCopy(D.p, B.p, w)
    need(D.get() == want.encode('latin1') and k == len(want), '%r indented by %d: %d %r', s, w, k, D.get())
    D.free()
    # Centered
    if '\n' not in s:
        n = min(len(s), max(0, w - 1))
        l = (w - n) // 2
        want = (' ' * l + s[:n]).ljust(w)
        D = Buf(L, w + 1)
        k = L.RKStringCenterized(D.p, B.p, w) if w else 0
        if w:
            need(D.get() == want.encode('latin1') and k == w, '%r in the center of %d: %r', s, w, D.get())
        D.free()
    # The next word
    m = re.match(r'[ \t]*[^ \t]*[ \t]*', s)
    need(L.RKNextNoneWhite(B.p).decode('latin1') == s[m.end():], 'next of %r: %r', s, L.RKNextNoneWhite(B.p))
    L.RKLastLine(B.p)
    need(L.RKStripEscapeSequence(B.p).decode('latin1') == strip_escape(s), '%r without escapes: %r', s, L.RKStripEscapeSequence(B.p))
    need(B.get() == b, 'the text became %r', B.get())
    B.free()
    # Bytes
    raw = bytes(c['bytes'])
    B = Buf(L, len(raw), raw)
    for name, f in [('RKBinaryString', binary), ('RKHeadTailBinaryString', head_tail_binary), ('RKBytesInHex', in_hex), ('RKHeadTailBytesInHex', head_tail_hex), ('RKRadarHubPayloadString', hub)]:
        want = f(raw)
        D = Buf(L, len(want) + 1)
        getattr(L, name)(D.p, B.p, C.c_size_t(len(raw)))
        need(D.get() == want.encode('latin1'), '%s of %r: %r, not %r', name, raw, D.get(), want)
        D.free()
    B.free()
    # Columns
    X, Y = Buf.text(L, c['left'].encode()), Buf.text(L, c['right'].encode())
    want, width = merge(c['left'], c['right'], w % 9)
    D = Buf(L, len(want) + 1)
    k = L.RKMergeColumns(D.p, X.p, Y.p, w % 9)
    need(D.get() == want.encode(), 'columns %r | %r: %r, not %r', c['left'], c['right'], D.get(), want)
    need(k == width, 'columns %r | %r are %d wide, not %d', c['left'], c['right'], k, width)
    for q in (X, Y, D):
        q.free()
    i = c['index']
    if i != -559038737:
        need(re.fullmatch(b'\x1b\\[38;5;\\d{1,3}m', L.RKGetColorOfIndex(i)), 'color %d', i)
        need(re.fullmatch(b'\x1b\\[97;48;5;\\d{1,3}m', L.RKGetBackgroundColorOfIndex(i)), 'color %d', i)
    return len(s) > 2


def strat_texts():
    piece = st.one_of(st.text('abZ \t\n"\'', max_size=6), st.sampled_from(['\x1b[38;5;123m', '\x1b[m', '\x1b[', '\x1b', '\r\n', '\n', '  ', '"', "'", 'y' * 300, '\xe9', 'A-Z[]@`']))
    text = st.lists(piece, max_size=8).map(''.join)
    column = st.lists(st.sampled_from(['a', 'word', '\x1b[32mo\x1b[m', '\n', '\n', 'z' * 30, 'q' * 45, ' ']), max_size=10).map(''.join)
    return st.fixed_dictionaries(dict(text=text, width=st.one_of(st.integers(0, 20), st.sampled_from([0, 1, 2, 80, 300])), bytes=st.one_of(st.lists(st.integers(0, 255), max_size=60), st.lists(st.integers(32, 126), max_size=60), st.lists(st.integers(0, 255), min_size=9, max_size=12)),
                                      left=column, right=column, index=st.integers(-2 ** 31, 2 ** 31 - 1)))


# ---------------------------------------------------------------- angles
def run_angles(L, c, ctx):
    setup(L)
    m, s, x = F(c['m']), F(c['s']), F(c['x'])
    d = F(L.RKMinDiff(m, s))
    e = float(m) - float(s)
    e = (e + 180) % 360 - 180
    tol = 4e-5
    need(-180 <= d <= 180 and min(abs(float(d) - e), abs(abs(float(d) - e) - 360)) <= tol, 'shortest way from %r to %r: %r', s, m, d)
    need(F(L.RKUMinDiff(m, s)) == abs(d), 'unsigned %r', L.RKUMinDiff(m, s))
    g = F(L.RKModulo360Diff(m, s))
    need(0 <= g <= 360 and min(abs(float(g) - e % 360), abs(abs(float(g) - e % 360) - 360)) <= tol, 'way round from %r to %r: %r', s, m, g)
    # Crossing: now at the angle, or on either side of it within 10 degrees
    d1, d2 = (float(m) - float(x) + 180) % 360 - 180, (float(s) - float(x) + 180) % 360 - 180
    if min(abs(abs(d1) - 1e-4), abs(abs(d1) - 10), abs(abs(d1) - 180), abs(abs(d2) - 180)) < 1e-4 or abs(d2) < 1e-4:
        return False
    want = abs(d1) <= 1e-4 or (d1 * d2 < 0 and abs(d1) < 10)
    need(L.RKAngularCrossOver(m, s, x) == want, 'from %r to %r across %r: %s', s, m, x, not want)
    ctx.cls('crossed' if want else 'not crossed')
    return True


def strat_angles():
    a = st.one_of(st.floats(0, F(359.99), width=32), st.integers(0, 719).map(lambda k: k / 2), st.sampled_from([0.0, 359.999, 180.0, 90.0, 0.001]))
    near = st.builds(lambda x, d, e: dict(x=x, m=(x + d) % 360, s=(x + e) % 360), a, st.floats(-12, 12, width=32), st.floats(-12, 12, width=32))
    return st.one_of(near, st.fixed_dictionaries(dict(m=a, s=a, x=a)))


# ---------------------------------------------------------------- threads
def run_threads(L, c, ctx):
    setup(L)
    w, g = C.create_string_buffer(128), C.create_string_buffer(128)
    bad = L.vt_text_threads(c['kind'], c['threads'], c['rounds'], w, g)
    need(bad == 0, '%d of the conversions of %d threads were of another: %r instead of %r', bad, c['threads'], g.value, w.value)
    ctx.cls('kind %d' % c['kind'])
    return True


def strat_threads():
    return st.fixed_dictionaries(dict(kind=st.integers(0, 6), threads=st.integers(2, 7), rounds=st.sampled_from([100, 400])))


SUBS = [Sub('numbers', strat_numbers, run_numbers, 4000, 200000), Sub('times', strat_times, run_times, 2000, 100000), Sub('paths', strat_paths, run_paths, 3000, 150000), Sub('prepare', strat_prepare, run_prepare, 400, 10000),
        Sub('texts', strat_texts, run_texts, 3000, 150000), Sub('angles', strat_angles, run_angles, 3000, 200000), Sub('threads', strat_threads, run_threads, 60, 1500)]
PROBES = {}
