"""Plants the bugs of tools/seeds*.py in a scratch copy of /repo, confirms each (tests pass, demo passes
without and fails with it) and writes seeded/<id>/.  usage: mkseed.py [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
PY = '/opt/venv/bin/python'
HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter('ignore')
import numpy as np
import kernelmethods
assert kernelmethods.__file__.startswith(os.getcwd()), kernelmethods.__file__
from kernelmethods import *
from kernelmethods.base import *
from kernelmethods.base import (KernelMatrix, KernelSet, KernelMatrixPrecomputed, SumKernel, ProductKernel,
                                AverageKernel, WeightedAverageKernel, BaseKernelFunction, ConstantKernelMatrix)
from kernelmethods.numeric_kernels import *
from kernelmethods.operations import *
from kernelmethods.sampling import *
from kernelmethods.ranking import *
from kernelmethods.algorithms import *
R = np.random.RandomState(0)


def eq(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(a, b)


class Lin(BaseKernelFunction):
    '''<x, y> + c; calls and failures can be watched and provoked'''

    def __init__(self, c=1.0, skip_input_checks=False):
        super().__init__('lin')
        self.c, self.calls, self.fail = c, [], None

    def __call__(self, x, y):
        if self.fail is not None:
            self.fail(x, y)
        self.calls.append((tuple(x), tuple(y)))
        return float(np.dot(x, y)) + self.c

    def __str__(self):
        return 'lin'


def raw(X, Y=None, c=1.0):
    return X @ (X if Y is None else Y).T + c


"""


def sh(cmd, cwd=None, timeout=300, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)


def main(ids):
    from seeds import SEEDS
    wt = tempfile.mkdtemp(prefix='seedwt.', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', wt], check=True)
        subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
        for s in SEEDS:
            if ids and s['id'] not in ids and s['property'] not in ids:
                continue
            out = os.path.join(HERE, 'seeded', s['id'])
            tmp = os.path.join(wt, '.seed')
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(tmp + '/demo.py', 'w').write(HEAD + s['demo'].strip() + '\n')
            open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B '
                                              '"$(dirname "$0")/demo.py"\n')
            r = sh(['bash', tmp + '/demo.sh'], cwd=wt)
            if r.returncode != 0:
                print(s['id'], 'DEMO FAILS WITHOUT:', r.stderr[-600:])
                continue
            bad = False
            for f, a, b in s['edits']:
                p = os.path.join(wt, 'kernelmethods', f)
                t = open(p).read()
                if t.count(a) != 1:
                    print(s['id'], 'EDIT MATCHES', t.count(a), 'TIMES:', a[:80])
                    bad = True
                    break
                open(p, 'w').write(t.replace(a, b))
            if bad:
                subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
                continue
            diff = sh(['git', '-C', wt, 'diff', '--', 'kernelmethods']).stdout
            r = sh(['bash', tmp + '/demo.sh'], cwd=wt)
            demo_bad = r.returncode
            why = r.stderr.strip().split('\n')[-1][:150]
            t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300', '-p', 'vp_seed',
                    '--hypothesis-seed=1', 'kernelmethods'], cwd=wt, timeout=600,
                   env={'PYTHONPATH': '/opt/vp/plugins', 'VP_SEED': '1', 'PYTHONHASHSEED': '0',
                        'HYPOTHESIS_STORAGE_DIRECTORY': wt + '/.hyp'})
            subprocess.run(['git', '-C', wt, 'checkout', '-q', '--', '.'], check=True)
            tests = t.stdout.strip().split('\n')[-1]
            ok = demo_bad != 0 and t.returncode == 0
            print(s['id'], 'kept' if ok else 'REJECTED', '| demo with bug:', demo_bad, why, '| tests:', tests, flush=True)
            if not ok:
                if t.returncode:
                    print('\n'.join(x for x in t.stdout.split('\n') if x.startswith(('E ', 'FAILED')))[:600])
                shutil.rmtree(out, ignore_errors=True)
                continue
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            for f in ('demo.py', 'demo.sh'):
                shutil.copy(os.path.join(tmp, f), out)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(wt)


if __name__ == '__main__':
    main(set(sys.argv[1:]))
