"""Each message comes out once, whole and in order, with its time, on the screen and in the log of its day."""
import calendar
import ctypes as C
import os
import re
import shutil
import time
from hypothesis import strategies as st
from vt.core import Sub, need, scratch

ID = 'C22'
RULE = 'messages of any kind and length, at any time, to a stream and to a log of each kind with folder names of up to 250 characters; up to 8 threads that log at the same time; non-trivial = a message was logged; distinct by case content'
ASSUMPTIONS = ['a format has at most 3840 characters, one that is longer is refused', 'a message of more than 4079 characters with its time may be cut there']
MAX = 4096
COLORS = [('ok', b'\x1b[38;5;82m'), ('info', None), ('error', None), ('warning', None)]
FORMATS = ['%s', '%s\n', 'Message %s of %d.\n', '>%s\n', '>%s', '', '\n', 'Error. %s\n', 'Warning. %s  %d\n', 'Info. %s', '>Error %s', 'Some error %s OK %d\n', 'token %s\n', 'ok', '>', 'Warning, not an error %s\n', '100%% %s\n', 'X%s\n\n', '%s %d']

name = st.one_of(st.sampled_from(['log', 'a b', 'data', 'x' * 20, 'y' * 90, 'z' * 96, 'w' * 100, 'v' * 104, 'u' * 112, 't' * 120]), st.text('abcdefgh-_. ', min_size=1, max_size=110).map(lambda s: 'f' + s + 'g'))


def strat():
    text = st.one_of(st.text(st.characters(min_codepoint=33, max_codepoint=126), max_size=60), st.integers(3900, 4300).map(lambda n: 'm' * n), st.sampled_from([4040, 4050, 4060, 4070, 4080, 4090, 4100, 10000, 100000]).map(lambda n: 'n' * n))
    step = st.fixed_dictionaries(dict(f=st.one_of(st.integers(0, len(FORMATS) - 1), st.sampled_from([3839, 3840, 3841, 5000, 20000])), s=text, d=st.integers(-2 ** 31, 2 ** 31 - 1), dt=st.one_of(st.floats(0, 2), st.floats(0, 200000), st.sampled_from([0.0005, 0.9995])).map(lambda v: round(v, 4))))
    return st.fixed_dictionaries(dict(t=st.one_of(st.integers(0, 4 * 10 ** 9), st.sampled_from([951782399, 1709164799, 1735689599])), steps=st.lists(step, min_size=1, max_size=8), color=st.booleans(), time_only=st.booleans(), program=st.sampled_from(['radar', 'iqdemo', 'p' * 31, 'q' * 60]),
                                      kind=st.sampled_from(['none', 'daily', 'daily', 'daily folder', 'file', 'file folder', 'default', 'default root']), stream=st.integers(0, 4), folder=name, root=name, slashes=st.integers(0, 3)))


def run(L, c, ctx):
    L.vt_log_name.restype = C.c_char_p
    d = scratch()
    here = os.getcwd()
    try:
        os.chdir(d)
        kind, root, folder = c['kind'], c['root'], c['folder']
        if kind == 'default':
            root = ''
        stream = 'screen' if c['stream'] or kind == 'none' else None
        daily = kind.startswith('daily')
        logfile = {'file': 'some/where.log', 'file folder': 'where.log', 'default': 'default', 'default root': 'default'}.get(kind)
        lf = folder if kind.endswith('folder') else ''
        if daily:
            logfile = 'unused.log'
        L.vt_log_setup(c['program'].encode(), logfile and logfile.encode(), lf.encode(), (root + '/' * c['slashes']).encode(), int(c['time_only']), int(daily), int(c['color']), stream and stream.encode())
        if daily:
            path = lambda t: os.path.join(lf or root + '/log', c['program'][:31] + '-' + time.strftime('%Y%m%d.log', time.gmtime(t)))
        else:
            path = {'none': None, 'file': 'some/where.log', 'file folder': lf + '/where.log', 'default': 'messages.log', 'default root': root + '/messages.log'}[kind]
        if not daily and path:
            p = path
            path = lambda t: p
        L.vt_time_set(C.c_double(c['t']))
        t = float(c['t'])
        want, screen = {}, b''
        for s in c['steps']:
            t = round(t + s['dt'], 4)
            if t > 4.1e9:
                break
            L.vt_time_set(C.c_double(t))
            us = int((t - int(t)) * 1e6 + 0.5)
            f = FORMATS[s['f']] if s['f'] < 100 else 'F' * (s['f'] - 3) + ' %s'[:3]
            text = s['s']
            rc = L.vt_log(f.encode(), text.encode(), s['d'])
            if len(f) > MAX - 256:
                need(rc != 0, 'a format of %d characters is taken', len(f))
                continue
            need(rc == 0, 'message: %d', rc)
            more = f[:1] == '>'
            if c['time_only']:
                head = ' ' * 13 if more else time.strftime('%H:%M:%S', time.gmtime(int(t))) + '.%03d ' % (us // 1000)
            else:
                head = ' ' * 20 if more else time.strftime('%Y/%m/%d %H:%M:%S ', time.gmtime(int(t)))
            g = f[1:] if more else f
            key = [k for k in ('ok', 'info', 'error', 'warning') if k in f.lower()]
            mark = ''
            if key and c['color']:
                i = g.lower().index(key[0])
                g = g[:i] + '\1' + g[i:]
                mark = '\2'
            n = g.replace('%%', '').count('%')
            body = head + g % ((text, s['d'])[:n])
            cut = len(body) > MAX - 60
            body += mark + ('' if f.endswith('\n') else '\n')
            p = path(int(t)) if path else None
            want.setdefault(p, []).append((body, cut))
            if stream:
                want.setdefault('screen', []).append((body, cut))
        L.vt_time_set(C.c_double(-1))
        L.vt_log_restore()
        files = sorted(os.path.relpath(os.path.join(a, b), d) for a, _, x in os.walk(d) for b in x)
        for p, lines in want.items():
            if p is None:
                continue
            p = os.path.normpath(p)
            need(p in files, 'no log %s, there are %s', p, files)
            with open(p, 'rb') as f:
                got = f.read().decode('latin1')
            # Colors
            got = re.sub('\033\\[[0-9;]+m(?=[oOiIeEwW])', '\1', got)
            got = re.sub('\033\\[[0-9;]*m', '\2', got)
            at = 0
            for b, cut in lines:
                if not cut:
                    need(got[at:at + len(b)] == b, '%s has %r instead of %r', p, got[at:at + len(b)][:200], b[:200])
                    at += len(b)
                else:
                    # As much of it as there is room for, then the end of the line
                    x = b.replace('\1', '').replace('\2', '').rstrip('\n')
                    e = got.find('\n', at)
                    need(e >= 0, 'no end of a long line')
                    while got[e + 1:e + 2] in ('\n', '\2') and e + 1 < len(got):
                        e += 1
                    y = got[at:e + 1].replace('\1', '').replace('\2', '').rstrip('\n')
                    # Perhaps within a color
                    y = re.sub('\033[^m]*$', '', y)
                    need(x.startswith(y) and len(y) >= min(len(x), MAX - 60), 'a message of %d characters is %d characters: %r %r', len(x), len(y), x[-80:], y[-80:])
                    at = e + 1
            need(at == len(got), '%s has %r more', p, got[at:at + 200])
        for p in files:
            need(p == 'screen' or p in [os.path.normpath(x) for x in want if x], 'there is another log %s', p)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return True


def run_threads(L, c, ctx):
    d = scratch()
    here = os.getcwd()
    try:
        os.chdir(d)
        L.vt_log_setup(b'p', b'all.log' if c['file'] else None, b'', b'', 0, 0, 0, b'screen')
        L.vt_time_set(C.c_double(1e9))
        L.vt_log_threads(c['threads'], c['n'], c['length'])
        L.vt_time_set(C.c_double(-1))
        L.vt_log_restore()
        for p in ['screen'] + (['all.log'] if c['file'] else []):
            with open(p) as f:
                lines = f.read().split('\n')
            need(lines.pop() == '', '%s ends in half a line', p)
            at = [0] * c['threads']
            for x in lines:
                m = re.fullmatch(r'(2001/09/09 01:46:40 | {20})T(\d+) (\d+) (.*)', x)
                need(m, '%s has a line %r', p, x[:200])
                i, k = int(m.group(2)), int(m.group(3))
                need(at[i] == k and m.group(4) == chr(97 + i) * c['length'] and (m.group(1)[0] == '2') == (k % 3 == 0), '%s: message %d of thread %d after %d: %r', p, k, i, at[i], x[:200])
                at[i] += 1
            need(at == [c['n']] * c['threads'], '%s has %s of %d messages', p, at, c['n'])
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return True


SUBS = [
    Sub('messages', strat, run, 2500, 40000),
    Sub('threads', lambda: st.fixed_dictionaries(dict(threads=st.integers(1, 8), n=st.integers(1, 60), length=st.sampled_from([1, 10, 100, 1000, 4000]), file=st.booleans())), run_threads, 60, 800, heavy=True),
]
PROBES = {}
