"""Selections of streams, lists of products and descriptions of user products keep what they say."""
import ctypes as C
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need
from vt.num import aligned, ptr

ID = 'C26'
RULE = 'texts of stream selections in any order; stream words; product lists of any subset; product descriptions rendered as JSON with any spaces, order, quotes and missing keys; non-trivial = two or more selections, products or keys; distinct by case content'
ASSUMPTIONS = ['texts of a product description have no quotes, brackets or commas, as the parser documents', 'keys of other meaning do not contain the names of the keys']
F = np.float32
STATUS = '012345678'
BIT = {'x': 58, '!': 7, 'h': 5, 'i': 8, 'I': 10, 'z': 16, 'v': 17, 'w': 18, 'd': 19, 'p': 20, 'r': 21, 'k': 22, 's': 23, 't': 24, 'Z': 32, 'V': 33, 'W': 34, 'D': 35, 'P': 36, 'R': 37, 'K': 38, 'S': 39, 'T': 40,
       'Y': 48, 'U': 49, 'X': 50, 'C': 51, 'O': 52, 'Q': 53, 'J': 54, 'A': 55, 'B': 56, 'H': 57}
PRODUCTS = [('Z', 'Intensity', 'dBZ', 'Reflectivity'), ('V', 'Radial_Velocity', 'MetersPerSecond', 'Velocity'), ('W', 'Width', 'MetersPerSecond', 'Width'), ('D', 'Differential_Reflectivity', 'dB', 'Differential_Reflectivity'),
            ('P', 'PhiDP', 'Radians', 'PhiDP'), ('R', 'RhoHV', 'Unitless', 'RhoHV'), ('K', 'KDP', 'DegreesPerMeter', 'KDP'), ('Sh', 'Signal_Power_H', 'dBm', 'Power'), ('Sv', 'Signal_Power_V', 'dBm', 'Power'), ('Q', 'SQI', 'Unitless', 'SQI'),
            ('Lh', 'Linear_Depolarization_Ratio_H', 'dB', 'Differential_Reflectivity'), ('Lv', 'Linear_Depolarization_Ratio_V', 'dB', 'Differential_Reflectivity'), ('Rxh', 'Co-cross_Correlation_Coefficient_H', 'Unitless', 'RhoHV'),
            ('Rxv', 'Co-cross_Correlation_Coefficient_V', 'Unitless', 'RhoHV'), ('Pxh', 'Co-cross_Differential_Phase_H', 'Radians', 'PhiDP'), ('Pxv', 'Co-cross_Differential_Phase_V', 'Radians', 'PhiDP')]


def run_streams(L, c, ctx):
    L.RKStreamFromString.restype = C.c_uint64
    s = c['text']
    want = 0
    for ch in s:
        if ch in STATUS:
            want = want & ~0xf | (STATUS.index(ch) + 1)
        elif ch in BIT:
            want |= 1 << BIT[ch]
    got = L.RKStreamFromString(s.encode())
    need(got == want, 'selection %r is 0x%x, not 0x%x', s, got, want)
    for word in (want, c['word']):
        out = C.create_string_buffer(128)
        n = L.RKStringFromStream(out, C.c_uint64(word))
        t = out.value.decode()
        need(n == len(t), 'length %d of %r', n, t)
        back = L.RKStreamFromString(out)
        known = sum(1 << b for k, b in BIT.items() if k != 'x')
        status = word & 0xf
        expected = word & known | (status if 1 <= status <= 9 else 0)
        need(back == expected, 'stream 0x%x became %r and 0x%x', word, t, back)
        need(len(set(t)) == len(t) and all(ch in STATUS or ch in BIT for ch in t), 'text %r of 0x%x', t, word)
    L.RKStringOfStream.restype = C.c_char_p
    need(L.RKStringOfStream(C.c_uint64(c['word'])) == out.value, 'text %r', out.value)
    return len(s) > 1


def strat_streams():
    return st.fixed_dictionaries(dict(text=st.text(STATUS + ''.join(BIT) + ' 9qn-', max_size=40), word=st.integers(0, 2 ** 64 - 1)))


class Desc:
    def __init__(self):
        self.t = [C.create_string_buffer(128) for _ in range(3)] + [C.create_string_buffer(8)]
        self.u, self.f = aligned(4, np.uint32), aligned(50, F)
        self.args = self.t + [ptr(self.u), ptr(self.f)]

    def texts(self):
        return [x.raw.split(b'\0')[0].decode() for x in self.t]


def run_products(L, c, ctx):
    L.vt_desc_next.restype = C.c_uint32
    mask = c['mask']
    left = mask << 16
    seen = []
    d = Desc()
    while left:
        k = (left >> 16 & -(left >> 16)).bit_length() - 1
        after = L.vt_desc_next(C.c_uint32(left), *d.args)
        need(after == left & ~(1 << (16 + k)), 'after the product of 0x%08x, 0x%08x is left', left, after)
        name, unit, cmap, symbol = d.texts()
        need((symbol, name, unit, cmap) == PRODUCTS[k], 'product %d is %s', k, (symbol, name, unit, cmap))
        need(d.u[1] == k and d.u[3] == 1 << (16 + k), 'product %s has index %d, list 0x%08x', symbol, d.u[1], d.u[3])
        lo, hi = d.f[48], d.f[49]
        w, b, l, n = d.f[:16], d.f[16:32], d.f[32:48], int(d.u[2])
        if symbol in ('Sh', 'Sv', 'Q'):
            need(n == 1, 'product %s has %d pieces', symbol, n)
        else:
            # The pieces cover the range of values: increasing and within a byte
            need(lo < hi and 1 <= n <= 16 and all(w[:n] > 0), 'product %s from %r to %r with weights %s', symbol, lo, hi, w[:n])
            x = np.linspace(float(lo), float(hi), 201)
            piece = np.array([next(j for j in range(n) if v >= l[j] or j == n - 1) for v in x]) if n > 1 else np.zeros(201, int)
            y = np.array([float(w[j]) * v + float(b[j]) for v, j in zip(x, piece)])
            need(y.min() > -0.6 and y.max() < 255.6 and all(np.diff(y) > -0.6), 'product %s maps to %r to %r', symbol, y.min(), y.max())
        seen.append(k)
        left = after
    need(seen == [k for k in range(16) if mask >> k & 1], 'products %s of 0x%04x', seen, mask)
    L.vt_desc_next(C.c_uint32(0), *d.args)
    need(d.texts() == [''] * 4 and d.u[1] == 0, 'product of an empty list %s', d.texts())
    return len(seen) > 1


def run_parse(L, c, ctx):
    q = c['quote']
    keys = [k for k in c['order'] if k not in c['missing']]
    sp = lambda i: ' ' * c['spaces'][i % len(c['spaces'])]
    v = c['values']
    arr = lambda x: (repr(x[0]) if len(x) == 1 and c['bare'] else '[' + ','.join(sp(i) + repr(y) for i, y in enumerate(x)) + ']')
    raw = dict(key=str(v['key']), name=q + v['name'] + q, symbol=q + v['symbol'] + q, PieceCount=str(v['pieces']), b=arr(v['b']), w=arr(v['w']), unit=q + v['unit'] + q, colormap=q + v['colormap'] + q,
               minimumValue=repr(v['min']), maximumValue=repr(v['max']))
    text = '{' + sp(0) + ','.join(sp(i) + q + k + q + sp(i + 1) + ':' + sp(i + 2) + raw[k] + sp(i + 3) * (k not in 'bw') for i, k in enumerate(keys)) + '}'
    d = Desc()
    r = L.vt_desc_parse(text.encode(), *d.args)
    if any(k not in keys for k in ('key', 'name', 'symbol', 'b', 'w')):
        need(r == 1, 'description %s accepted without a mandatory key: %d', text, r)
        ctx.cls('incomplete')
        return True
    need(r == 0, 'description %s: result %d', text, r)
    n = min(8, v['pieces']) if 'PieceCount' in keys else 1
    need(d.u[0] == v['key'] and d.u[2] == n, 'key %d, %d pieces of %s', d.u[0], d.u[2], text)
    want = [v['name'][:127], v['unit'] if 'unit' in keys else '', v['colormap'] if 'colormap' in keys else '', v['symbol'][:7]]
    need(d.texts() == want, 'texts %s, not %s', d.texts(), want)
    for o, k in ((0, 'w'), (16, 'b')):
        x = np.zeros(16, F)
        m = min(n, len(v[k]))
        x[:m] = np.array(v[k][:m], F)
        need(np.array_equal(d.f[o:o + 16], x), '%s = %s, not %s', k, d.f[o:o + 16], x)
    need(d.f[48] == F(v['min'] if 'minimumValue' in keys else 0) and d.f[49] == F(v['max'] if 'maximumValue' in keys else 0), 'from %r to %r: %s', d.f[48], d.f[49], text)
    ctx.cls('complete')
    return True


def strat_parse():
    num = st.one_of(st.integers(-1000, 1000), st.floats(-1000, 1000).map(lambda x: round(x, 4)).filter(lambda x: 'e' not in repr(x)))
    txt = st.text('abcXYZ 019_-./', max_size=20)
    values = st.fixed_dictionaries(dict(key=st.integers(0, 2 ** 31 - 1), name=st.one_of(txt, st.just('n' * 127), st.just('N' * 200)), symbol=st.one_of(st.sampled_from(['U', 'Zx', 'Abcdefg', 'Abcdefghij'])), pieces=st.integers(1, 12), b=st.lists(num, min_size=1, max_size=10),
                                        w=st.lists(num, min_size=1, max_size=10), unit=txt, colormap=txt, min=num, max=num))
    keys = ['key', 'name', 'symbol', 'PieceCount', 'b', 'w', 'unit', 'colormap', 'minimumValue', 'maximumValue']
    return st.fixed_dictionaries(dict(values=values, quote=st.sampled_from(['"', "'"]), order=st.permutations(keys), missing=st.lists(st.sampled_from(keys), max_size=2), spaces=st.lists(st.integers(0, 2), min_size=1, max_size=5), bare=st.booleans()))


def run_ids(L, c, ctx):
    L.RKIdentifierFromString.restype = C.c_uint64
    n = c['n']
    need(L.RKIdentifierFromString(str(n).encode()) == n, 'identifier %d: %d', n, L.RKIdentifierFromString(str(n).encode()))
    L.RKProductIdFromString.restype = C.c_uint16
    k = n & 0x7fff
    need(L.RKProductIdFromString((' ' * c['s'] + str(k)).encode()) & 0xff == k & 0xff, 'product %d', k)
    return True


SUBS = [Sub('streams', strat_streams, run_streams, 4000, 200000), Sub('products', lambda: st.fixed_dictionaries(dict(mask=st.integers(1, 0xffff))), run_products, 500, 20000), Sub('descriptions', strat_parse, run_parse, 4000, 200000),
        Sub('identifiers', lambda: st.fixed_dictionaries(dict(n=st.integers(0, 2 ** 64 - 1), s=st.integers(0, 3))), run_ids, 400, 10000)]
PROBES = {}
