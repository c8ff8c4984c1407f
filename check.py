#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property by seeded simulation of the code in /repo's working tree.
VERIF_SEED and VERIF_TIER (quick, thorough) select the search."""
import fcntl
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def build_shim():
    src = os.path.join(HERE, 'sim', 'shim.c')
    d = os.path.join(HERE, 'build')
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, 'shim.so')
    with open(os.path.join(d, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(so) or \
                os.path.getmtime(so) < os.path.getmtime(src):
            subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-Wall',
                            '-Wno-strict-prototypes', '-o', so + '.tmp', src,
                            '-ldl'], check=True)
            os.rename(so + '.tmp', so)
    return so


def main():
    args = sys.argv[1:]
    if args == ['--setup']:
        build_shim()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    prop = args[0]
    mode = ['replay', os.path.abspath(args[2])] \
        if args[1:2] == ['--replay'] else ['search']
    so = build_shim()
    base = tempfile.mkdtemp(prefix='verif-%s-' % prop.lower())
    env = dict(os.environ)
    env.update(LD_PRELOAD=so, VERIF_SHIM_LIB=so, VERIF_BASE=base,
               VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore', MPLBACKEND='Agg',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               PYTHONHASHSEED='0', PYTHONPATH=HERE, HOME=base,
               MPLCONFIGDIR=os.path.join(base, 'mpl'), LC_ALL='C.UTF-8',
               TMPDIR=base, PYPY_GC_NURSERY='64M')
    env.pop('PYTHONPYCACHEPREFIX', None)
    proc = subprocess.Popen([PY, '-m', 'sim.main', prop] + mode, env=env,
                            cwd=base, start_new_session=True)
    try:
        code = proc.wait()
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        if os.environ.get('VERIF_KEEP'):
            print('kept', base)
        else:
            shutil.rmtree(base, ignore_errors=True)
    return code if code in (0, 1) else 2


if __name__ == '__main__':
    sys.exit(main())
