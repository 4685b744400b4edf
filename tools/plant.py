"""Write a seeded bug: plant(id, property, [(file, old, new)], needs, breaks, demo_c, libs)."""
import json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd is /repo, built. Exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
gcc -O1 -g -w -std=c11 -D_GNU_SOURCE -march=native -mfpmath=sse -Iheaders -Iheaders/RadarKit -Isource "$D/demo.c" libradarkit.a \\
    -o "$W/demo" -lfftw3f -lnetcdf -lpthread -lz -lm -lssl -lcrypto -lrt || exit 98
R=$PWD
cd "$W" && timeout 120 ./demo "$R" "$W"
'''


def plant(id, prop, edits, needs, breaks, demo, script=None):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    patch = ''
    byfile = {}
    for f, a, b in edits:
        s = byfile.get(f) or open('/repo/' + f).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        byfile[f] = s.replace(a, b)
    for f, s in byfile.items():
        with tempfile.NamedTemporaryFile('w', delete=False) as t:
            t.write(s)
        r = subprocess.run(['git', 'diff', '--no-index', '--', f, t.name], cwd='/repo', capture_output=True, text=True).stdout
        os.unlink(t.name)
        lines = r.split('\n')
        i = next(k for k, l in enumerate(lines) if l.startswith('--- '))
        patch += 'diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n' % (f, f, f, f) + '\n'.join(lines[i + 2:])
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write(script or DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    if demo:
        open(d + '/demo.c', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['git', 'apply', '--check', d + '/patch.diff'], cwd='/repo', check=True)
