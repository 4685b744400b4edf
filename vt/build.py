"""Builds the code under test (every /repo/source/*.c plus the C shims of /verif/shim) into one
AddressSanitizer-instrumented shared library.  The build is keyed by the content of its inputs, so a
changed /repo working tree is always rebuilt, and lives in /verif/.build (ignored by git)."""
import fcntl, glob, hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CC = 'gcc'
CFLAGS = ['-g1', '-O1', '-std=c11', '-fPIC', '-march=haswell', '-mfpmath=sse', '-w',
          '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GNU_SOURCE']
LIBS = ['-lfftw3f', '-lnetcdf', '-lpthread', '-lz', '-lm', '-lssl', '-lcrypto', '-lrt']
EXCLUDE = {'RKTest.c'}


def _sha(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def build():
    """Returns the path of the shared library."""
    os.makedirs(BUILD, exist_ok=True)
    src = [p for p in glob.glob(REPO + '/source/*.c') if os.path.basename(p) not in EXCLUDE]
    hdr = glob.glob(REPO + '/headers/**/*.h', recursive=True) + glob.glob(REPO + '/source/ext/*')
    shim = glob.glob(VERIF + '/shim/*.c')
    shimh = glob.glob(VERIF + '/shim/*.h')
    key = _sha(src + hdr + shim + shimh, ' '.join(CFLAGS + LIBS + [CC]))
    out = os.path.join(BUILD, 'lib-' + key)
    lib = os.path.join(out, 'libvt.so')
    if os.path.exists(lib):
        return lib
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            return lib
        objd = os.path.join(BUILD, 'obj')
        os.makedirs(objd, exist_ok=True)
        hkey = _sha(hdr + shimh, ' '.join(CFLAGS))
        inc = ['-I' + REPO + '/headers', '-I' + REPO + '/headers/RadarKit', '-I' + REPO + '/source', '-I' + VERIF + '/shim']

        def one(p):
            h = _sha([p], hkey)
            o = os.path.join(objd, os.path.basename(p)[:-2] + '-' + h + '.o')
            if not os.path.exists(o):
                pre = ['-include', VERIF + '/shim/interpose.h'] if p.startswith(REPO) else []
                r = subprocess.run([CC] + CFLAGS + inc + pre + ['-c', p, '-o', o + '.tmp'], capture_output=True, text=True)
                if r.returncode:
                    raise RuntimeError('cannot compile %s\n%s' % (p, r.stderr))
                os.rename(o + '.tmp', o)
            return o
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(one, src + shim))
        # one library at a time is enough: drop what belongs to older trees
        keep = set(objs)
        for p in glob.glob(objd + '/*.o'):
            if p not in keep:
                os.unlink(p)
        for p in glob.glob(BUILD + '/lib-*'):
            shutil.rmtree(p, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        r = subprocess.run([CC, '-shared', '-fsanitize=address', '-o', lib + '.tmp'] + objs + LIBS, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('cannot link\n' + r.stderr)
        os.rename(lib + '.tmp', lib)
    return lib


def asan_runtime():
    return subprocess.run([CC, '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()


if __name__ == '__main__':
    print(build())
