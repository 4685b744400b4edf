#!/usr/bin/env python3
"""run.py <property id> [--replay FILE] [--sub RELATION] [-v]   (environment: VERIF_SEED, VERIF_TIER)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/usr/local/bin/python3-vt'

if __name__ == '__main__':
    sys.path.insert(0, HERE)
    if 'VT_LIB' not in os.environ:
        from vt import build
        try:
            lib = build.build()
        except RuntimeError as e:
            print(e)
            sys.exit(2)
        env = dict(os.environ, VT_LIB=lib, LD_PRELOAD=build.asan_runtime(),
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:exitcode=77',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   HOME=os.environ.get('HOME', '/root'), LC_ALL='C.UTF-8', TZ='UTC')
        os.execve(PY, [PY, '-X', 'faulthandler=0', os.path.abspath(__file__)] + sys.argv[1:], env)
    import importlib, warnings
    warnings.simplefilter('ignore')
    from vt import core
    mod = importlib.import_module('checks.' + sys.argv[1])
    core.main(mod, sys.argv[2:])
