"""Property runner: seeded Hypothesis generation in forked worker processes against an ASan build of
the code under test, crash/hang containment, shrinking, 3x replay, known findings and evidence."""
import ctypes, glob, hashlib, importlib, json, mmap, os, re, shutil, signal, struct, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VT_JOBS', '8'))


class Fail(AssertionError):
    """The property does not hold for this case."""


def need(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


class Ctx:
    """Per job counters."""
    def __init__(self):
        self.evals = 0
        self.hashes = set()
        self.classes = {}
        self.samples = []
        self.excluded = {}

    def cls(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + n

    def exclude(self, finding):
        self.excluded[finding] = self.excluded.get(finding, 0) + 1


class Sub:
    """One generated relation of a property: strategy() -> JSON-able case; run(lib, case, ctx) raises
    Fail, returns True when the case was non-trivial."""
    def __init__(self, name, strategy, run, quick, thorough, hang=60, shards=None, replay_need=3, heavy=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.hang, self.shards = quick, thorough, hang, shards
        self.replay_need = replay_need
        self.heavy = heavy


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['VT_LIB'])
        _lib.vt_quiet()
    return _lib


# ---------------------------------------------------------------- scratch directories
_scratch_root = None


def scratch():
    """A fresh scratch directory of this process; removed by the runner."""
    return tempfile.mkdtemp(dir=_scratch_root)


# ---------------------------------------------------------------- worker side
class Shared:
    """Memory shared between a job and the parent: sequence number, state and the current case."""
    SIZE = 1 << 20

    def __init__(self):
        self.m = mmap.mmap(-1, self.SIZE)

    def set(self, text):
        b = text.encode()
        if len(b) > self.SIZE - 16:
            b = b[:self.SIZE - 16]
        seq = self.seq() + 1
        self.m[8:12] = struct.pack('<I', len(b))
        self.m[16:16 + len(b)] = b
        self.m[0:8] = struct.pack('<Q', seq)

    def seq(self):
        return struct.unpack('<Q', self.m[0:8])[0]

    def get(self):
        n = struct.unpack('<I', self.m[8:12])[0]
        return self.m[16:16 + n].decode()


def _quiet_fds(errfile):
    fd = os.open('/dev/null', os.O_RDWR)
    os.dup2(fd, 0)
    os.dup2(fd, 1)
    e = os.open(errfile, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.dup2(e, 2)


def _run_case_forked(sub, case, hang, errfile):
    """Runs one case in a child of this process: returns None or the failure message."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            os.setpgid(0, 0)
            _quiet_fds(errfile)
            try:
                sub.run(lib(), case, Ctx())
            except Fail as e:
                os.write(w, str(e).encode()[:4000])
                code = 9
            except BaseException:
                os.write(w, ('HARNESS ' + traceback.format_exc()).encode()[-4000:])
                code = 8
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.time()
    status = None
    while time.time() - t0 < hang:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
            break
        time.sleep(0.0005 if time.time() - t0 < 0.2 else 0.02)
    if status is None:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        os.close(r)
        return 'HANG: the case did not finish within %d s' % hang
    msg = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        msg += b
    os.close(r)
    _clean_shm(pid)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
        return None
    if msg:
        return msg.decode(errors='replace')
    return 'CRASH: status %d; %s' % (status, _asan_summary(errfile))


def _asan_summary(errfile):
    try:
        t = open(errfile, errors='replace').read()[-200000:]
    except OSError:
        return ''
    m = re.findall(r'SUMMARY: .*', t)
    f = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) ([^\n]*)', t)
    return (m[-1] if m else 'no sanitizer report') + ' | ' + ' < '.join(a for a, b in f[:6])


def _clean_shm(pid):
    for p in glob.glob('/dev/shm/sem.vt%d-*' % pid):
        try:
            os.unlink(p)
        except OSError:
            pass


def _job(mod, sub, n, seed, shared, outfile, errfile, mode):
    """Child process: generate n cases for one relation."""
    from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 60
    os.setpgid(0, 0)
    _quiet_fds(errfile)
    ctx = Ctx()
    out = {'ok': True}
    L = lib()
    st = sub.strategy()
    every = max(1, n // 3)
    last = {'case': None, 'msg': None, 'harness': None}
    deadline = time.time() + 100 if mode == 'fork' else None

    def dump():
        out.update(evals=ctx.evals, hashes=sorted(ctx.hashes), classes=ctx.classes,
                   samples=ctx.samples, excluded=ctx.excluded)
        with open(outfile + '.tmp', 'w') as f:
            json.dump(out, f)
        os.rename(outfile + '.tmp', outfile)

    tdump = [time.time()]

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
    @given(st)
    def prop(case):
        text = json.dumps(case, sort_keys=True)
        shared.set(text)
        ctx.evals += 1
        if mode == 'fork':
            if deadline and last['case'] is not None and time.time() > deadline:
                if text != json.dumps(last['case'], sort_keys=True):
                    return
            msg = _run_case_forked(sub, case, sub.hang if last['case'] is None else min(sub.hang, 20), errfile)
            if msg:
                last.update(case=case, msg=msg)
                raise Fail('x')
            return
        try:
            nt = sub.run(L, case, ctx)
        except Fail as e:
            last.update(case=case, msg=str(e))
            raise Fail('x') from None
        if nt:
            ctx.hashes.add(hashlib.blake2b(text.encode(), digest_size=7).hexdigest())
            if ctx.evals % every == 1 or not ctx.samples:
                if len(ctx.samples) < 2 and len(text) < 3000:
                    ctx.samples.append(case)
        if time.time() - tdump[0] > 2:
            tdump[0] = time.time()
            dump()
    try:
        prop()
    except Fail:
        out['ok'] = False
        out['fail'] = {'case': last['case'], 'msg': last['msg']}
    except BaseException:
        if last['case'] is not None:
            out['ok'] = False
            out['fail'] = {'case': last['case'], 'msg': last['msg']}
        else:
            out['harness'] = traceback.format_exc()[-6000:]
    dump()
    os._exit(0)


# ---------------------------------------------------------------- parent side
def _finish(code):
    sys.stdout.flush()
    if _scratch_root and os.path.isdir(_scratch_root):
        shutil.rmtree(_scratch_root, ignore_errors=True)
    os._exit(code)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) probe=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main(mod, argv):
    global _scratch_root
    t_start = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid = mod.ID
    _scratch_root = tempfile.mkdtemp(prefix='vt-%s-' % pid)
    os.chmod(_scratch_root, 0o755)
    subs = {s.name: s for s in mod.SUBS}
    probes = getattr(mod, 'PROBES', {})
    errfile = os.path.join(_scratch_root, 'err')

    if '--replay' in argv:
        rp = json.load(open(argv[argv.index('--replay') + 1]))
        os.chdir(_scratch_root)
        sub = subs[rp['sub']]
        msg = _run_case_forked(sub, rp['case'], sub.hang, errfile)
        print('replay %s/%s: %s' % (pid, rp['sub'], msg or 'holds'))
        if msg and '-v' in argv:
            print(open(errfile, errors='replace').read()[-6000:])
        _finish(1 if msg else 0)

    os.chdir(_scratch_root)
    only = argv[argv.index('--sub') + 1] if '--sub' in argv else None
    scale = float(os.environ.get('VT_SCALE', '1'))
    budget = float(os.environ.get('VT_BUDGET', '600' if tier == 'quick' else '3600'))
    jobs = []
    for s in mod.SUBS:
        if only and s.name != only:
            continue
        n = int((s.quick if tier == 'quick' else s.thorough) * scale)
        sh = s.shards or (NPROC if n >= 400 else max(1, min(NPROC, n // 25)))
        for k in range(sh):
            a = n // sh + (1 if k < n % sh else 0)
            if a:
                sd = int.from_bytes(hashlib.sha256(('%s/%s/%d/%d' % (pid, s.name, k, seed)).encode()).digest()[:6], 'big')
                jobs.append((s, a, sd))
    # interleave relations; heavy ones first
    jobs.sort(key=lambda j: (not j[0].heavy,))
    results, failures, cut = [], [], 0
    running = {}
    pending = list(enumerate(jobs))
    lib()
    while pending or running:
        while pending and len(running) < NPROC:
            i, (s, n, sd) = pending.pop(0)
            sh = Shared()
            of, ef = os.path.join(_scratch_root, 'o%d' % i), os.path.join(_scratch_root, 'e%d' % i)
            p = os.fork()
            if p == 0:
                _job(mod, s, n, sd, sh, of, ef, 'direct')
            running[p] = dict(i=i, s=s, n=n, sd=sd, sh=sh, of=of, ef=ef, seq=-1, t=time.time(), mode='direct')
        time.sleep(0.01)
        for p in list(running):
            j = running[p]
            q, st = os.waitpid(p, os.WNOHANG)
            now = time.time()
            if not q:
                sq = j['sh'].seq()
                if sq != j['seq']:
                    j['seq'], j['t'] = sq, now
                elif now - j['t'] > j['s'].hang and j['mode'] == 'direct':
                    case = json.loads(j['sh'].get()) if j['sh'].seq() else None
                    _kill(p)
                    os.waitpid(p, 0)
                    _clean_shm(p)
                    del running[p]
                    if case is not None:
                        failures.append((j['i'], j['s'], case, 'HANG: no answer within %d s' % j['s'].hang))
                    continue
                if now - t_start > budget:
                    _kill(p)
                    os.waitpid(p, 0)
                    _clean_shm(p)
                    cut += 1
                    if os.path.exists(j['of']):
                        results.append((j, json.load(open(j['of']))))
                    del running[p]
                continue
            del running[p]
            _clean_shm(p)
            r = json.load(open(j['of'])) if os.path.exists(j['of']) else None
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and r is not None:
                if 'harness' in r:
                    print('HARNESS ERROR in %s/%s:\n%s' % (pid, j['s'].name, r['harness']))
                    failures.append((j['i'], j['s'], None, 'harness'))
                    continue
                if j['mode'] == 'direct':
                    results.append((j, r))
                if not r['ok']:
                    failures.append((j['i'], j['s'], r['fail']['case'], r['fail']['msg']))
                elif j['mode'] == 'fork':
                    failures.append((j['i'], j['s'], j['case'], j['msg']))
            else:
                case = json.loads(j['sh'].get()) if j['sh'].seq() else None
                if case is None:
                    print('HARNESS ERROR: job died before its first case: %s' % _asan_summary(j['ef']))
                    failures.append((j['i'], j['s'], None, 'harness'))
                    continue
                msg = 'CRASH: status %d; %s' % (st, _asan_summary(j['ef']))
                if r:
                    results.append((j, r))
                if j['mode'] == 'direct' and not any(x['mode'] == 'fork' for x in running.values()):
                    # search again from the same seed, one process per case, to shrink the crash
                    k = dict(j)
                    k['mode'] = 'fork'
                    k['sh'] = Shared()
                    k['case'], k['msg'] = case, msg
                    k['of'] = j['of'] + 'f'
                    k['t'] = time.time()
                    p2 = os.fork()
                    if p2 == 0:
                        _job(mod, k['s'], k['n'], k['sd'], k['sh'], k['of'], k['ef'], 'fork')
                    running[p2] = k
                else:
                    failures.append((j['i'], j['s'], case, msg))
        if failures and not any(f[3] == 'harness' for f in failures):
            # a failure is in hand: do not start further jobs
            pending = []
            if any(x['mode'] == 'direct' for x in running.values()) and len(failures) >= 1:
                for p in list(running):
                    if running[p]['mode'] == 'direct' and time.time() - t_start > 400:
                        _kill(p)

    # explicit probes: known findings, and regression inputs of repaired defects
    known = load_known(pid)
    lines, nprobe = [], 0
    if not only:
        for name, (sname, case) in sorted(probes.items()):
            nprobe += 1
            msg = _run_case_forked(subs[sname], case, subs[sname].hang, errfile)
            if msg:
                if name in known:
                    lines.append('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[name], msg.split('\n')[0][:160]))
                else:
                    failures.append((10 ** 6, subs[sname], case, 'probe %s: %s' % (name, msg)))

    # confirm
    violation = None
    failures.sort(key=lambda f: f[0])
    harness = [f for f in failures if f[2] is None or str(f[3]).startswith('HARNESS')]
    t_conf = time.time()
    for i, s, case, msg in failures:
        if case is None or str(msg).startswith('HARNESS'):
            continue
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        fn = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]))
        hits, m = 0, None
        for _ in range(3):
            m1 = _run_case_forked(s, case, s.hang, errfile)
            if m1:
                hits += 1
                m = m1
            if time.time() - t_conf > 200:
                break
        if hits >= min(s.replay_need, 3) or (hits and str(m).startswith('HANG')):
            json.dump({'property': pid, 'sub': s.name, 'case': case, 'message': m, 'found_as': msg}, open(fn, 'w'), indent=1)
            violation = (fn, s, m)
            break
        print('note: %s/%s failed once but replayed %d of 3 times: %s %s' % (pid, s.name, hits, str(msg)[:300], json.dumps(case)[:700]))

    # evidence
    ev, nt, classes, samples, excluded, persub = 0, 0, {}, [], {}, {}
    hs = {}
    for j, r in results:
        ev += r['evals']
        hs.setdefault(j['s'].name, set()).update(r['hashes'])
        for k, v in r['classes'].items():
            classes[j['s'].name + ':' + k] = classes.get(j['s'].name + ':' + k, 0) + v
        for k, v in r['excluded'].items():
            excluded[k] = excluded.get(k, 0) + v
        d = persub.setdefault(j['s'].name, {'evaluations': 0, 'distinct_nontrivial': 0})
        d['evaluations'] += r['evals']
        if len([x for x in samples if x['relation'] == j['s'].name]) < 1:
            samples += [{'relation': j['s'].name, 'case': c} for c in r['samples'][:1]]
    for k, v in hs.items():
        persub[k]['distinct_nontrivial'] = len(v)
    nt = sum(len(v) for v in hs.values())
    evd = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': ev, 'distinct_nontrivial': nt, 'rule': mod.RULE, 'samples': samples,
                     'relations': persub, 'classes': classes, 'excluded_by_known_finding': excluded,
                     'probes': nprobe, 'jobs_cut_by_budget': cut},
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t_start, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        json.dump(evd, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d probes, %.1f s' % (pid, tier, seed, ev, nt, nprobe, time.time() - t_start))
    if '-v' in argv:
        print(json.dumps(persub, indent=1))
        print(json.dumps(classes, indent=1))
    if violation:
        fn, s, m = violation
        print('relation %s: %s' % (s.name, m))
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        _finish(1)
    if harness:
        for f in harness:
            print('harness problem: %s' % str(f[3])[:3000])
        _finish(3)
    _finish(0)


def _kill(p):
    try:
        os.killpg(p, signal.SIGKILL)
    except OSError:
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass
