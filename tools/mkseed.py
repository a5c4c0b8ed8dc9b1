"""Writes /verif/seeded/<id>/ from a definitions file (kept outside the repository):

    SEEDS = [dict(id=, prop=, edits=[(file, old, new), ...], needs=, breaks=, demo='python source')]

`demo` is run with PyPy from /repo; the harness text below is put in front of it.
"""
import json
import os
import shutil
import subprocess
import sys

HARNESS = '''import os, sys, shutil, tempfile, threading, time, warnings, logging, random
sys.path.insert(0, os.getcwd())
sys.getsizeof = lambda *a: 1000   # absent from PyPy, FileLogger asks for it
os.environ.setdefault('MPLBACKEND', 'agg')
warnings.simplefilter('ignore')
from pathlib import Path
import numpy as np
import tables as tb
import dill, tarfile, yaml

TMP = Path(tempfile.mkdtemp())
os.chdir(TMP)


def finish(ok, msg=''):
    print('OK' if ok else 'BROKEN', msg)
    sys.stdout.flush()
    os.chdir('/')
    import multiprocessing
    for p in multiprocessing.active_children():
        p.kill()
    shutil.rmtree(str(TMP), ignore_errors=True)
    os._exit(0 if ok else 1)


def watchdog(seconds=120):
    t = threading.Timer(seconds, finish, (False, 'timed out'))
    t.daemon = True
    t.start()


watchdog()

from glompo.core.manager import GloMPOManager
from glompo.core.checkpointing import CheckpointingControl
from glompo.core.optimizerlogger import BaseLogger, FileLogger
from glompo.common.namedtuples import IterationResult, Result, OptimizerPackage, ProcessPackage, Bound
from glompo.common.corebase import *
from glompo.convergence import *
from glompo.hunters import *
from glompo.generators import *
from glompo.opt_selectors import *
from glompo.optimizers.baseoptimizer import BaseOptimizer, MinimizeResult

'''

SH = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg MPLCONFIGDIR=/opt/glompo-env/mpl
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec timeout -k 5 240 /opt/venv-pypy/bin/python "$HERE/demo.py"
'''


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get('SEED_COPY', '/tmp/w/seedrepo')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='agg',
           MPLCONFIGDIR='/opt/glompo-env/mpl', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def tests():
    """ The stable tests which fail in the copy. """
    d = '/tmp/w/seedtest'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['timeout', '-k', '10', '780', '/opt/venv-pypy/bin/python', '-m', 'pytest', '-q', '--run-minimize',
                    '-o', f'cache_dir={d}/cache', f'--basetemp={d}/basetemp', '--timeout=120',
                    '--continue-on-collection-errors', f'--junitxml={d}/junit.xml', 'tests'], cwd=COPY, env=ENV,
                   capture_output=True)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', f'{d}/out.json', f'junit:{d}/junit.xml'],
                   capture_output=True)
    passed = set(json.load(open(f'{d}/out.json'))['passed'])
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    shutil.rmtree(d, ignore_errors=True)
    return sorted(stable - passed)


def main(path, only):
    """ Works on a copy of the committed /repo, never on /repo itself. """
    ns = {}
    exec(open(path).read(), ns)
    shutil.rmtree(COPY, ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', os.environ.get('SEED_REPO', '/repo'), COPY], check=True)
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = f'{HERE}/seeded/{s["id"]}'
        os.makedirs(d, exist_ok=True)
        for f, old, new in s['edits']:
            p = f'{COPY}/glompo/{f}'
            src = open(p).read()
            assert src.count(old) == 1, (s['id'], f, src.count(old), old)
            open(p, 'w').write(src.replace(old, new))
        diff = subprocess.run(['git', '-C', COPY, 'diff'], capture_output=True, text=True).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(HARNESS + s['demo'])
        open(f'{d}/demo.sh', 'w').write(SH)
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(f'{d}/meta.json', 'w'), indent=1)
        bad = subprocess.run(['bash', f'{d}/demo.sh'], cwd=COPY, capture_output=True, text=True, timeout=280)
        chk, failing = [], []
        if '--check' in sys.argv:
            c = subprocess.run(['./check', s['prop']], cwd=HERE, capture_output=True, text=True,
                               env=dict(os.environ, GLOMPO_REPO=COPY))
            chk = [c.returncode] + [l[:200] for l in c.stdout.splitlines() if 'VIOLATION' in l][:2]
        if '--tests' in sys.argv:
            failing = tests()
        # lines of the original repository must change
        subprocess.run(['git', '-C', COPY, 'checkout', '-q', '--', '.'])
        good = subprocess.run(['bash', f'{d}/demo.sh'], cwd=COPY, capture_output=True, text=True)
        ok = bad.returncode != 0 and good.returncode == 0
        print(s['id'], 'demo', 'ok' if ok else 'WRONG', 'patched', bad.returncode, bad.stdout[-300:].strip(),
              '| clean', good.returncode, good.stdout[-300:].strip(), good.stderr[-600:] if not ok else '',
              bad.stderr[-300:] if not ok else '', '| check', chk, '| stable tests failing', failing,
              '| mine', mine(diff), flush=True)
    shutil.rmtree(COPY, ignore_errors=True)


def mine(diff):
    """ Changed lines which commits of ours added. """
    base = subprocess.run(['git', '-C', COPY, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True,
                          text=True).stdout.split()[0]
    out, f, n = [], None, 0
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        elif line.startswith('@@'):
            n = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and f:
            b = subprocess.run(['git', '-C', COPY, 'blame', '-s', '-L', f'{n},{n}', 'HEAD', '--', f],
                               capture_output=True, text=True).stdout
            if not b.lstrip('^').startswith(base[:7]):
                out.append(f'{f}:{n}')
            n += 1
        elif not line.startswith('+'):
            n += 1
    return out


main(sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')])
