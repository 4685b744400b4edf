"""Random small changes of the code behind a property: which ones does its check see?
mutate.py WORK N SEED [ID...]   WORK holds a copy of /repo (WORK/repo) and of /verif (WORK/verif); results go to WORK/log."""
import json
import os
import random
import re
import subprocess
import sys
W, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sys.path.insert(0, W + '/verif/tools')
from props import P
IDS = sys.argv[4:]
SHARED = {'RKFoundation.c', 'RKMisc.c', 'RKDSP.c', 'RKRadar.c', 'RKScratch.c', 'RKConfig.c', 'RKWaveform.c', 'RKProduct.c'}


def functions(text):
    """[(name, first line, last line)]"""
    lines = text.split('\n')
    out, name, start, depth = [], None, 0, 0
    for k, l in enumerate(lines):
        if name is None:
            m = re.match(r'^[A-Za-z_].*?\b(\w+)\(.*\{\s*$', l) or (re.match(r'^[A-Za-z_].*?\b(\w+)\(', l) if not l.rstrip().endswith(';') else None)
            if m and not l.startswith(('typedef', '#', 'struct', 'enum')):
                name, start = m.group(1), k
        if name is not None and l.startswith('}'):
            out.append((name, start, k))
            name = None
    return out


OPS = [(r' < ', [' <= ']), (r' <= ', [' < ']), (r' > ', [' >= ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']),
       (r' \* ', [' / ']), (r' \+ 1\b', ['', ' + 2']), (r' - 1\b', ['', ' - 2']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\+\+', ['--']), (r'!(?=[A-Za-z(])', ['']), (r' \+= ', [' = ', ' -= ']), (r' \|= ', [' = ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bbreak;', ['']), (r'\bcontinue;', ['']), (r'sizeof\((\w+)\)', ['(sizeof(\\1) - 1)']), (r'\b(\d{2,})\b', ['(\\1 - 1)', '(\\1 + 1)']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']), (r'\.i\b', ['.q']), (r'\bj\b', ['0']), (r'\bMIN\(', ['MAX(']), (r'\bMAX\(', ['MIN('])]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|RKLog|printf|fprintf|free\(|RKLog|case |default:|\}|pthread_|usleep|sem_)|RKLog\(|verbose|stderr|memoryUsage|useOldCodes')


def mutants(p, rnd):
    spots = []
    for f in p['files']:
        if not f.endswith('.c'):
            continue
        text = open('/repo/' + f).read()
        lines = text.split('\n')
        names = set(re.findall(r'\w+', ' '.join(w for _, w in p['mechanism'] if f in w)))
        fns = functions(text)
        pick = [x for x in fns if x[0] in names]
        rest = [] if os.path.basename(f) in SHARED else [x for x in fns if x not in pick]
        for w, group in ((3, pick), (1, rest)):
            for name, a, b in group:
                for k in range(a + 1, b):
                    if not SKIP.search(lines[k]) and lines[k].strip():
                        spots += [(f, k, name)] * w
    seen = set()
    for _ in range(100000):
        if not spots:
            return
        f, k, name = rnd.choice(spots)
        lines = open('/repo/' + f).read().split('\n')
        l = lines[k]
        choices = []
        code = l.split('//')[0]
        for a, bs in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2:
                    continue
                for b in bs:
                    choices.append(l[:m.start()] + m.expand(b) + l[m.end():])
        if re.match(r'^\s+[\w>.\[\]+* -]+(=|\().*;\s*$', code) and not re.match(r'^\s+(const |int |float |double |char |size_t |RK\w+ [*\w]|struct |return|uint|bool |static )', code):
            choices += [re.match(r'^\s*', l).group(0) + ';'] * 2
        if not choices:
            continue
        new = rnd.choice(choices)
        if (f, k, new) in seen or new == l:
            continue
        seen.add((f, k, new))
        yield f, k, name, l, new


def main():
    log = open(W + '/log', 'a')
    todo = [p for p in P if not IDS or p['id'] in IDS]
    gens = {p['id']: mutants(p, random.Random(SEED * 1000 + int(p['id'][1:]))) for p in todo}
    env = dict(os.environ, VT_REPO=W + '/repo', VERIF_SEED='1', VERIF_TIER='quick')
    for n in range(N):
        for p in todo:
            while True:
                x = next(gens[p['id']], None)
                if x is None:
                    break
                f, k, name, old, new = x
                text = open('/repo/' + f).read().split('\n')
                text[k] = new
                open(W + '/repo/' + f, 'w').write('\n'.join(text))
                r = subprocess.run(['gcc', '-c', '-O1', '-std=c11', '-D_GNU_SOURCE', '-march=haswell', '-w', '-I' + W + '/repo/headers', '-I' + W + '/repo/headers/RadarKit', W + '/repo/' + f, '-o', W + '/x.o'], capture_output=True)
                if r.returncode:
                    continue
                try:
                    q = subprocess.run(['python3-vt', 'run.py', p['id']], cwd=W + '/verif', env=env, capture_output=True, text=True, timeout=900)
                    code, out = q.returncode, q.stdout
                except subprocess.TimeoutExpired:
                    code, out = 'timeout', ''
                rel = re.search(r'relation .*', out)
                log.write('%s %s %s:%d %s | %s ==> %s | %s\n' % ({0: 'SURVIVED', 1: 'caught'}.get(code, 'ODD %s' % code), p['id'], f, k + 1, name, old.strip(), new.strip(), rel.group(0)[:100] if rel else ''))
                log.flush()
                break
            if x: subprocess.run(['cp', '/repo/' + f, W + '/repo/' + f])


main()
