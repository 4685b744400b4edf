"""Disk usage stays within its limits by removing the oldest files, and nothing else."""
import calendar
import ctypes as C
import os
import shutil
import time
from hypothesis import strategies as st
from vt.core import Sub, need, scratch

ID = 'C24'
RULE = 'trees of up to 300 files of three kinds in up to 80 days with other files, folders and links among them, limits anywhere, lists of 4 files or more, then histories of new files, pauses and restarts; logs of any age; non-trivial = a file was removed; distinct by case content'
ASSUMPTIONS = ['files have the names that RadarKit gives them, in the folder of their day', 'new files come in the order of their times', 'files are neither changed nor removed by others']
KINDS = ['iq', 'moment', 'health']
TAILS = [['.rkr', '.rkc', '-E10.5.rkc'], ['-E1.0-Z.nc', '-E1.0-V.nc', '-E-0.5-PhiDP.nc', '-A359.9-ABCDEFG.tar.xz', '-E10.2.tar.xz'], ['.json']]
DEFAULT = 1024 ** 4 * 12 // 10
RATIO = [8, 5, 1]


def strat():
    # day, second, size, tail
    size = st.one_of(st.integers(0, 3000), st.integers(0, 8), st.just(1000))
    f = st.tuples(st.integers(0, 5), st.integers(0, 86399), size, st.integers(0, 4))
    kind = st.fixed_dictionaries(dict(files=st.lists(f, max_size=30), many=st.sampled_from([0, 0, 0, 0, 0, 0, 62, 80]), empty=st.lists(st.integers(0, 8), max_size=3),
                                      extra=st.lists(st.tuples(st.sampled_from(['hidden', 'folder', 'deep', 'link', 'hidden folder', 'top', 'long']), st.integers(0, 7)), max_size=4),
                                      limit=st.one_of(st.floats(0, 1.2), st.sampled_from([0.0001, 0.5, 0.99, 1.0, 2.0])), capacity=st.one_of(st.sampled_from([0, 0, 4, 5]), st.integers(4, 60))))
    add = st.tuples(st.just('add'), st.integers(0, 2), st.lists(st.tuples(st.sampled_from([0, 1, 2, 60, 3600, 86400, 86400 * 3]), size, st.integers(0, 4)), min_size=1, max_size=20))
    odd = st.tuples(st.just('odd'), st.sampled_from(['elsewhere', 'missing', 'sibling', 'type', 'top', 'empty', 'long']), st.integers(0, 2))
    op = st.one_of(add, add, add, add, odd, st.just(('settle',)), st.just(('settle',)), st.just(('restart',)))
    name = st.one_of(st.sampled_from(['data', 'data', 'a b', "it's", '$(touch y)', 'x; touch y', 'a/b/', '*', '-rf', 'q' * 200, '"']), st.text('abc -_.', min_size=1, max_size=20).map(lambda s: 'f' + s))
    return st.fixed_dictionaries(dict(kinds=st.tuples(kind, kind, kind), ops=st.lists(op, max_size=10), name=name, desc=st.integers(0, 2), relative=st.booleans(), mode=st.sampled_from(['user', 'user', 'overall', 'some', 'none']),
                                      overall=st.floats(0.0, 1.2), verbose=st.integers(0, 3), prefix=st.sampled_from(['RK', 'RAXPOL', 'HORUSXX']), year=st.sampled_from([1975, 2017, 2024, 2037, 2050]), shuffle=st.randoms(use_true_random=False).map(lambda r: r.randint(0, 10 ** 6)), tz=st.sampled_from(['UTC', 'America/Chicago', 'Asia/Tokyo'])))


class Kind:
    def __init__(self, k, c):
        self.k, self.c, self.live, self.gone, self.now, self.cut, self.others = k, c, {}, {}, 0, False, set()
        self.added = 0


def run(L, c, ctx):
    import random
    L.vt_fm.restype = C.c_void_p
    rnd = random.Random(c['shuffle'])
    d = os.path.realpath(scratch())
    here = os.getcwd()
    os.environ['TZ'] = c['tz']
    time.tzset()
    M = None
    try:
        os.chdir(d)
        L.vt_contain(d.encode())
        L.vt_system_reset()
        root = c['name'] if c['relative'] else os.path.join(d, c['name'])
        epoch = calendar.timegm((c['year'], 12, 29, 0, 0, 0))
        kinds = [Kind(k, x) for k, x in enumerate(c['kinds'])]

        def path(k, t, tail):
            s = time.strftime('%Y%m%d', time.gmtime(t))
            return root + '/' + os.path.join(KINDS[k], s, '%s-%s-%s%s' % (c['prefix'], s, time.strftime('%H%M%S', time.gmtime(t)), TAILS[k][tail % len(TAILS[k])]))

        def put(p, n):
            # A folder that is empty may be removed before the file is there
            for _ in range(100):
                try:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, 'wb') as f:
                        f.write(b'x' * n)
                    break
                except FileNotFoundError:
                    pass
        # Siblings and logs that are no concern of the limits
        outside = [os.path.join(root, 'iq2', '20170101', 'RK-20170101-000000.rkr'), os.path.join(root, 'other', 'file'), os.path.join(root, 'log', 'radar-20170101.log'), os.path.join(root, 'top.txt'), os.path.join(d, 'outside', '20170101', 'a-20170101-000000.nc')]
        for p in outside:
            put(p, 5000)
        todo = []
        for K in kinds:
            x = K.c
            fs = [(epoch + 86400 * f[0] + f[1], f[2], f[3]) for f in x['files']]
            fs += [(epoch - 86400 * (i + 1) * (1 + rnd.randrange(2)), 10 + i, 0) for i in range(x['many'])]
            for t, n, tail in fs:
                todo.append((K, path(K.k, t, tail), t, n))
        rnd.shuffle(todo)
        for K, p, t, n in todo:
            if p not in K.live:
                put(p, n)
                K.live[p] = (t, n)
                K.now = max(K.now, t)
        for K in kinds:
            base = os.path.join(root, KINDS[K.k])
            for e in K.c['empty']:
                os.makedirs(os.path.join(base, time.strftime('%Y%m%d', time.gmtime(epoch + 86400 * e))), exist_ok=True)
            for what, e in K.c['extra']:
                day = os.path.join(base, time.strftime('%Y%m%d', time.gmtime(epoch + 86400 * e)))
                if what == 'link':
                    p = os.path.join(day, 'RK-20000101-000000.nc')
                    os.makedirs(day, exist_ok=True)
                    if not os.path.lexists(p):
                        os.symlink(outside[1], p)
                else:
                    p = {'hidden': os.path.join(day, '.hidden'), 'folder': os.path.join(day, 'sub', 'file'), 'deep': os.path.join(day, 'a', 'b', 'c'), 'hidden folder': os.path.join(base, '.trash', 'file'), 'top': os.path.join(base, 'readme.txt'),
                         'long': os.path.join(day, 'RK-20000101-000000-' + 'n' * 60 + '.nc')}[what]
                    put(p, 3000)
                K.others.add(p)
            if K.now == 0:
                K.now = epoch
        total = [sum(v[1] for v in K.live.values()) for K in kinds]
        user = [max(1, int(K.c['limit'] * max(total[i], 1000))) for i, K in enumerate(kinds)]
        overall = 0
        if c['mode'] == 'overall':
            overall, user = max(1, int(c['overall'] * 14 * max(1000, max(t / r for t, r in zip(total, RATIO))))), [0, 0, 0]
        elif c['mode'] == 'some':
            user[rnd.randrange(3)] = 0
            overall = rnd.choice([0, 10 ** 9])
        elif c['mode'] == 'none':
            user = [0, 0, 0]
        limit = [u or (overall or DEFAULT) * r // 14 for u, r in zip(user, RATIO)]
        cap = [K.c['capacity'] for K in kinds]
        M = C.c_void_p(L.vt_fm(root.encode(), c['desc'], (C.c_uint64 * 4)(overall, *user), -1, (C.c_int * 3)(*[v or (0 if c['shuffle'] % 200 == 1 else 1000) for v in cap]), c['verbose']))
        usage = (C.c_uint64 * 3)()

        def start():
            for K in kinds:
                if cap[K.k] and len(K.live) >= cap[K.k]:
                    K.cut = True
            need(L.vt_fm_start(M) == 0, 'does not start')

        def check(kinds, what):
            r = L.vt_fm_settle(M, usage, 5)
            need(r != 2, '%s: the manager does not go on', what)
            need(r == 0, '%s: usage is %s, limits are %s', what, list(usage), limit)
            for K in kinds:
                look(K, what)

        def look(K, what):
            gone = [p for p in K.live if not os.path.exists(p)]
            for p in gone:
                K.gone[p] = K.live.pop(p)
            kept = sum(v[1] for v in K.live.values())
            need(kept <= limit[K.k], '%s: %s keeps %d B, the limit is %d', what, KINDS[K.k], kept, limit[K.k])
            if not K.gone:
                return
            # The oldest, and no more than needed
            unit = 86400 if K.cut else 1
            last = max(v[0] // unit for v in K.gone.values())
            if K.live:
                first = min(K.live.items(), key=lambda v: v[1][0])
                need(last <= first[1][0] // unit, '%s: %s is kept but a file that is %d s newer was removed', what, os.path.basename(first[0]), last * unit - first[1][0])
            most = max(v[1] for v in K.gone.values() if v[0] // unit == last)
            # A list that is full counts all files of the folders
            most += 3000 * K.cut * sum('n' * 60 in p for p in K.others)
            # and a file twice that is about to be added when the list is made again
            most += K.cut * K.added
            need(kept + most > limit[K.k], '%s: %s keeps %d B of %d, a file of %d B need not be removed', what, KINDS[K.k], kept, limit[K.k], most)
        start()
        check(kinds, 'at the start')
        for o in c['ops']:
            ctx.cls(o[0])
            if o[0] == 'add':
                K = kinds[o[1]]
                for dt, n, tail in o[2]:
                    t = K.now + dt
                    if t >= 4 * 10 ** 9:
                        break
                    p = path(K.k, t, tail)
                    if p in K.live or p in K.gone:
                        continue
                    K.now = t
                    if cap[K.k] and len(K.live) + 1 >= cap[K.k]:
                        K.cut = True
                    K.live[p] = (t, n)
                    K.added += n
                    put(p, n)
                    r = L.RKFileManagerAddFile(M, p.encode(), K.k)
                    need(r == 0 or K.cut, 'file %s: %d', os.path.basename(p), r)
                # Others do not wait for that
            elif o[0] == 'odd':
                k, K = o[2], kinds[o[2]]
                base = os.path.join(root, KINDS[k])
                p, y = {'elsewhere': (outside[4], k), 'missing': (path(k, K.now + 5, 0) + 'x', k), 'sibling': (outside[0], 0), 'type': (path(k, K.now, 0), 3), 'top': (os.path.join(base, 'RK-20170101-000000.nc'), k), 'empty': ('', k),
                        'long': (os.path.join(base, 'f' * 60, 'n' * 80), k)}[o[1]]
                if o[1] in ('top', 'long'):
                    put(p, 3000)
                    K.others.add(p)
                r = L.RKFileManagerAddFile(M, p.encode(), y)
                need(r != 0, 'a file %s is taken', o[1])
            elif o[0] == 'settle':
                check(kinds, 'after a pause')
            else:
                check(kinds, 'before the stop')
                need(L.vt_fm_stop(M) == 0, 'does not stop')
                for K in kinds:
                    look(K, 'after the stop')
                need(L.RKFileManagerAddFile(M, b'x', 0) != 0, 'takes a file when it is stopped')
                start()
                check(kinds, 'at the start')
        check(kinds, 'at the end')
        need(L.vt_fm_stop(M) == 0, 'does not stop')
        for K in kinds:
            look(K, 'after the stop')
        # Everything else is there
        for p in outside:
            need(os.path.exists(p), '%s was removed', p)
        for K in kinds:
            for p in K.others:
                need(os.path.lexists(p), '%s was removed', p)
            # Folders, all but the one that became empty last
            base = os.path.join(root, KINDS[K.k])
            have = sorted(x for x in os.listdir(base) if x.isdigit()) if os.path.isdir(base) else []
            void = [x for x in have if not os.listdir(os.path.join(base, x))]
            days = sorted({p.split('/')[-2] for p in K.gone})
            need(K.cut or not [x for x in void if x not in days], 'folders %s are empty', void)
            need(not [x for x in void if x in days[:-1]], 'folders %s are empty, files of %s are removed', void, days)
        need(L.vt_contain_escapes() == 0, '%d files outside are removed', L.vt_contain_escapes())
        L.vt_system_calls.restype = C.c_char_p
        need(not L.vt_system_calls(), 'commands %s', L.vt_system_calls())
        L.vt_fm_free(M)
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    return any(K.gone for K in kinds)


def log_strat():
    entry = st.tuples(st.sampled_from(['log', 'log', 'log', 'hidden', 'folder', 'link', 'long']), st.sampled_from(['radar-20170101.log', 'messages.log', 'a b.txt', 'x', "it's"]))
    return st.fixed_dictionaries(dict(age=st.sampled_from([-1, 0, 1, 2, 30, 365, 100000]), at=st.lists(st.one_of(st.sampled_from([-1.0, -0.01, 0.01, 1.0]), st.floats(-3, -0.01), st.floats(0.01, 3)), min_size=1, max_size=3), entries=st.lists(entry, max_size=6), name=st.sampled_from(['data', 'a b', '$(touch y)']), desc=st.integers(0, 2)))


def run_logs(L, c, ctx):
    L.vt_fm.restype = C.c_void_p
    d = os.path.realpath(scratch())
    some = False
    try:
        L.vt_contain(d.encode())
        root = os.path.join(d, c['name'])
        os.makedirs(root + '/log')
        os.makedirs(root + '/log2')
        out = os.path.join(root, 'log2', 'radar-20170101.log')
        open(out, 'w').close()
        logs, others = [], [out]
        for i, (what, name) in enumerate(c['entries']):
            p = os.path.join(root, 'log', '%d%s' % (i, name))
            if what == 'log':
                logs.append(p)
                open(p, 'w').close()
            elif what == 'long':
                p += 'n' * 200
                logs.append(p)
                open(p, 'w').close()
            elif what == 'hidden':
                p = os.path.join(root, 'log', '.%d%s' % (i, name))
                others.append(p)
                open(p, 'w').close()
            elif what == 'folder':
                os.mkdir(p)
                others.append(p)
                p = os.path.join(p, 'x.log')
                others.append(p)
                open(p, 'w').close()
            else:
                os.symlink(out, p)
                others.append(p)
        days = 30 if c['age'] < 0 else c['age']
        gone = False
        for a in sorted(c['at']):
            # Away from the limit by 15 min or more, as files take their time from another clock
            s = int(days * 86400 + a * 86400)
            if s < 0:
                continue
            M = C.c_void_p(L.vt_fm(root.encode(), c['desc'], (C.c_uint64 * 4)(10 ** 9, 0, 0, 0), c['age'], (C.c_int * 3)(10, 10, 10), 0))
            L.vt_offset(C.c_int64(s))
            need(L.vt_fm_start(M) == 0, 'does not start')
            need(L.vt_fm_stop(M) == 0, 'does not stop')
            L.vt_fm_free(M)
            L.vt_offset(C.c_int64(0))
            gone |= a > 0
            some |= gone
            for p in logs:
                need(os.path.exists(p) != gone, 'log %s is %s %.3f days after %d', os.path.basename(p), 'there' if not gone else 'removed', a, days)
            for p in others:
                need(os.path.lexists(p), '%s is removed', p)
        need(L.vt_contain_escapes() == 0, '%d files outside are removed', L.vt_contain_escapes())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return some and bool(logs)


def run_threads(L, c, ctx):
    L.vt_fm.restype = C.c_void_p
    d = os.path.realpath(scratch())
    try:
        L.vt_contain(d.encode())
        for k in KINDS:
            os.makedirs(os.path.join(d, k, '20170101'))
        n, size = c['n'], c['size']
        # The last folder may not become empty, or its removal and the next file may meet
        lim = max(1, int(c['keep'] * size * n)) + 2 * size
        M = C.c_void_p(L.vt_fm(d.encode(), 0, (C.c_uint64 * 4)(0, lim, lim, lim), -1, (C.c_int * 3)(*[c['capacity']] * 3), 0))
        types = [k % 3 for k in range(c['threads'])]
        names = []
        for k in range(c['threads']):
            for i in range(n):
                names.append(os.path.join(d, KINDS[types[k]], '20170101', 'RK%d-20170101-%02d%02d%02d.x' % (k, i // 3600, i // 60 % 60, i % 60)))
        need(L.vt_fm_start(M) == 0, 'does not start')
        for k in KINDS:
            os.makedirs(os.path.join(d, k, '20170101'), exist_ok=True)
        rc = (C.c_int * 16)()
        L.vt_fm_threads(M, c['threads'], n, (C.c_char_p * len(names))(*[p.encode() for p in names]), (C.c_int * 16)(*types), size, c['stop'], rc)
        need(-100 not in list(rc), 'a folder in use was removed')
        if c['stop'] < 0:
            # A list that is full is made again, with files that are about to be added
            full = c['capacity'] < 5000
            need(full or not any(rc), 'files are not taken: %s', list(rc))
            usage = (C.c_uint64 * 3)()
            r = L.vt_fm_settle(M, usage, 5)
            need(r == 0, 'usage is %s, the limit is %d: %d', list(usage), lim, r)
            need(L.vt_fm_stop(M) == 0, 'does not stop')
            for k in range(min(3, c['threads'])):
                x = os.listdir(os.path.join(d, KINDS[k], '20170101'))
                have, of = len(x) * size, n * sum(t == k for t in types) * size
                need(have <= lim and (full or have == of or have + size > lim), '%s keeps %d B of %d, the limit is %d', KINDS[k], have, of, lim)
                if c['threads'] <= 3 and c['capacity'] == 5000:
                    # One thread each, in order
                    w = sorted(os.path.basename(p) for p in names if '/' + KINDS[k] + '/' in p)
                    need(sorted(x) == w[len(w) - len(x):], 'not the latest files are kept')
        L.vt_fm_free(M)
        need(L.vt_contain_escapes() == 0, '%d files outside are removed', L.vt_contain_escapes())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return True


SUBS = [
    Sub('histories', strat, run, 1000, 15000),
    Sub('logs', log_strat, run_logs, 300, 3000),
    Sub('threads', lambda: st.fixed_dictionaries(dict(threads=st.integers(1, 6), n=st.integers(5, 80), size=st.integers(1, 4000), keep=st.floats(0, 1), capacity=st.sampled_from([5000, 5000, 20, 200]), stop=st.sampled_from([-1, -1, 0, 200, 2000, 5000]))), run_threads, 150, 2000, heavy=True),
]
PROBES = {}
