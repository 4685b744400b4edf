"""The raw I/Q files hold exactly the recorded pulses, and reading them gives everything back."""
import glob, os, shutil
import numpy as np
from hypothesis import strategies as st
from vt.core import Sub, need, scratch
from vt.rawio import Recording, strat

ID = 'C10'
RULE = ('pulse histories with configuration changes, record on / off at any pulse (also while the recorder is busy), file length limits, cache sizes, raw or compressed data, through the threaded '
        'recorder; its files against a model of which pulses they hold, read back and compared; or a disk that fills up; non-trivial = at least one file with two pulses; distinct by case content')
ASSUMPTIONS = ['files begin in different milliseconds', 'the pulse buffer is not lapped while the recorder is behind', 'raw data format version 7']


def files(d):
    return sorted(p for p in glob.glob(d + '/**', recursive=True) if os.path.isfile(p))


def run(L, c, ctx):
    R = Recording(L, c)
    d = scratch()
    try:
        R.run(L, d)
        want = {R.name(d, f[1][0]): f for f in R.files if f[1]}
        got = files(d)
        need(got == sorted(want), 'files %s, expected %s', [os.path.basename(p) for p in got], [os.path.basename(p) for p in sorted(want)])
        for p in got:
            j, ks = want[p]
            what = os.path.basename(p) + ' (%d pulses from %d)' % (len(ks), ks[0])
            r, g = R.read(L, p)
            need(r >= 0, '%s: header not readable', what)
            need(r == len(ks), '%s: %d pulses read back', what, r)
            R.same_header(g, j, what)
            R.same_pulses(g, r, ks, what)
            size = R.head_size(j) + sum(192 + R.payload(k) for k in ks)
            need(os.path.getsize(p) == size, '%s: %d bytes, not %d', what, os.path.getsize(p), size)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.cls('raw' if c['raw'] else 'compressed')
    ctx.cls('%s files' % min(len(want), 3))
    if c['cache'] < 4700:
        ctx.cls('cache below the header size')
    if any(R.ev & 7 > 2):
        ctx.cls('toggled while busy')
    return any(len(f[1]) > 1 for f in R.files)


def run_full(L, c, ctx):
    """The disk fills up: the recorder goes on, and what was written is a prefix."""
    R = Recording(L, c)
    total = sum(R.head_size(j) + sum(192 + R.payload(k) for k in ks) for j, ks in R.files)
    left = int(c['part'] * total)
    d = scratch()
    try:
        R.run(L, d, left)
        want = {R.name(d, f[1][0]): f for f in R.files if f[1]}
        seen = 0
        for p in files(d):
            need(p in want, 'file %s is not expected', p)
            j, ks = want[p]
            what = os.path.basename(p) + ' of a full disk'
            size = os.path.getsize(p)
            seen += size
            if size < R.head_size(j):
                continue
            r, g = R.read(L, p)
            need(0 <= r <= len(ks), '%s: %d pulses', what, r)
            R.same_header(g, j, what)
            R.same_pulses(g, r, ks, what)
        need(seen == min(left, total), '%d bytes in the files of a disk that takes %d of %d', seen, left, total)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return left < total


SUBS = [Sub('record', strat, run, 2400, 40000, hang=60),
        Sub('full-disk', lambda: st.builds(lambda c, p: dict(c, part=p), strat(False), st.floats(0, 1.1)), run_full, 400, 8000, hang=60)]
PROBES = {}
