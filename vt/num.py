"""Array helpers for the harnesses: aligned buffers with canaries, seeded data."""
import ctypes as C
import numpy as np

F32 = np.float32


def aligned(n, dtype, align=64):
    """An aligned zeroed array of n elements."""
    size = max(1, n) * np.dtype(dtype).itemsize
    b = np.zeros(size + align, np.uint8)
    o = (-b.ctypes.data) % align
    return b[o:o + size].view(dtype)[:n]


def ptr(a):
    return C.c_void_p(a.ctypes.data)


class IQZ(C.Structure):
    _fields_ = [('i', C.c_void_p), ('q', C.c_void_p)]


def data(rng, n, kind):
    """n float32 samples of a named kind."""
    if kind == 'normal':
        x = rng.standard_normal(n)
    elif kind == 'int':
        x = rng.integers(-32768, 32768, n).astype(float)
    elif kind == 'wide':
        x = rng.standard_normal(n) * 10.0 ** rng.uniform(-6, 6, n)
    elif kind == 'sparse':
        x = np.where(rng.random(n) < 0.2, rng.standard_normal(n), 0.0)
    elif kind == 'ramp':
        x = np.arange(n, dtype=float) + 1
    elif kind == 'zero':
        x = np.zeros(n)
    else:
        raise ValueError(kind)
    return x.astype(np.float32)


KINDS = ['normal', 'int', 'wide', 'sparse', 'ramp']


def late():
    """A worker that goes on late: (core, microseconds, every so many times), or none."""
    from hypothesis import strategies as st
    return st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 7), st.sampled_from([200, 500, 1500]), st.sampled_from([1, 1, 2, 5])))


def slow(L, c):
    v = c.get('late')
    if v:
        L.vt_sem_slow(v[0] % max(1, c.get('cores', 1)), v[1], v[2])
    else:
        L.vt_sem_slow(0, 0, 1)
