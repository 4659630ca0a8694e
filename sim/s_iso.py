"""Separate operations in one process do not influence each other: C26."""
import contextlib
import gc
import os
import pickle
import signal
import sys
import threading
import warnings

import numpy as np
import sklearn
from scipy.sparse import issparse

from core import HarnessError
from kmops import gen_read, read, was_faulted
from kernels import Picky, mk
from model import brief, expect
from s_est import gen_bucket, gen_data, gen_kspec, gen_test, bucket, data, plain_fit, plain_predict, test_data
from s_km import SCHED_FAULTS, with_uids
from s_misc import C14_OPS, _km, _set, cast
from s_set import sym
from kernelmethods import config as kcfg
from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor, OptimalKernelSVC, OptimalKernelSVR
from kernelmethods.base import KernelFromCallable, KernelMatrix, KernelMatrixPrecomputed, KernelSet
from kernelmethods.config import KernelMethodsWarning


# ---------------------------------------------------------------- observations

def settings():
    """process-wide settings that are not the library's to change"""
    return {'floating-point error handling': repr(sorted(np.geterr().items())), 'error callback': repr(np.geterrcall()),
            'print options': repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
            'warning filters': repr([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters]),
            'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
            'working directory': os.getcwd(), 'environment': repr(sorted(os.environ.items())),
            'garbage collection': (gc.isenabled(), gc.get_threshold()),
            'signal handlers': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
            'standard streams': (id(sys.stdout), id(sys.stderr)), 'threads': threading.active_count(),
            'import path': repr(sys.path), 'scikit-learn configuration': repr(sorted(sklearn.get_config().items())),
            'library configuration': repr(sorted((k, repr(v)) for k, v in vars(kcfg).items()
                                                 if k.startswith(('default_', 'light_', 'kernel_bucket', 'VALID', 'km_'))))}


SETTERS = ('seterr', 'filter', 'option', 'chdir', 'limit', 'signal', 'config')


def canon(v, depth=0):
    """what a caller can see of a result"""
    if v is None or isinstance(v, (str, bytes, bool)):
        return v
    if isinstance(v, (int, float, np.generic)) and not isinstance(v, np.ndarray):
        return ('n', np.asarray(v, float if np.asarray(v).dtype.kind in 'iufb' else None))
    if isinstance(v, np.ndarray):
        return ('a', v.dtype.kind, np.array(v))
    if issparse(v):
        return ('s', np.asarray(v.todense()))
    if isinstance(v, dict):
        return ('d', [(str(k), canon(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, KernelMatrix):
        try:
            m = canon(v.full)
        except Exception as e:
            m = type(e).__name__
        return ('km', str(v.kernel), getattr(v.kernel, 'c', getattr(v.kernel, 'q', None)), m)
    if isinstance(v, KernelMatrixPrecomputed):
        return ('pre', canon(v.full), str(v))
    if isinstance(v, (list, tuple, KernelSet)) and depth < 6:
        return ('l', [canon(x, depth + 1) for x in v])
    return type(v).__name__


def alike(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in 'iufb' or b.dtype.kind not in 'iufb':
            return bool((a == b).all())
        a, b = a.astype(float), b.astype(float)
        fin = np.abs(b[np.isfinite(b)])
        return bool(np.allclose(a, b, rtol=1e-7, atol=1e-8 * (fin.max() if fin.size else 1) + 1e-12, equal_nan=True))
    return a == b


def show(v):
    if isinstance(v, (tuple, list)):
        return '(%s)' % ', '.join(show(x) for x in v)[:400]
    return brief(v) if isinstance(v, np.ndarray) else str(v)


# ---------------------------------------------------------------- operations on objects of their own

def own_ops():
    def attach(o):
        km = _km(o, 3, two=o['s'] % 5 == 0)
        X = cast(np.random.RandomState(o['s']).randn(4, 3), o)
        Y = cast(np.random.RandomState(o['s'] + 1).randn(3, 3 if o['s'] % 7 else 2), o)
        km.set_attr('tag', o['s'])

        def go():
            if o['s'] % 2:
                km.attach_to(X)
            else:
                km.attach_to(X, sample_two=Y, name_two='second')
            return km.full, km.shape, str(km), km.get_attr('tag', 'none'), km.frob_norm
        return go

    def norms(o):
        km = _km(o, 3 + o['s'] % 2)

        def go():
            out = []
            for r in (['centered'], ['normed'], ['frob'], ['diag'], ['sparse'], ['full'])[::-1 if o['s'] % 3 else 1]:
                out.append(read(km, r))
            return out
        return go

    def sets(o):
        S, T = _set(o), _set(dict(o, s=o['s'] + 1))
        X = np.random.RandomState(o['s'] + 2).randn(3, 3)

        def go():
            S.append(_km(dict(o, s=o['s'] + 3)))
            S.extend(T)
            S.set_attr('w', list(range(S.size)))
            U = S.take([o['s'] % S.size, 0], name='sub')
            first = [U, U.size, U.get_attr('w', None), str(U)]
            S.attach_to(X, attr_name='at', attr_value=o['s'])
            return first, S, [m.get_attr('at', None) for m in S], S.size
        return go

    def refuse(o):
        S = _set(o)
        X = np.random.RandomState(o['s']).randn(4, 3)
        return [lambda: S.append(_km(o, 4)), lambda: S.extend([1]), lambda: S.take([0, 99]), lambda: S.attach_to(X[:2]),
                lambda: S[7], lambda: S[0].attach_to(X[:, 0]), lambda: S[0][9, 9], lambda: S[0]['x'],
                lambda: KernelMatrixPrecomputed(X), lambda: KernelMatrix('nosuch')][o['s'] % 10]

    def addpar(o):
        B = bucket(o['b'])
        vals = [[1, 2, 3], [1, -1, 2], ['x', 13, 4], [14, 1], (5,)][o['s'] % 5]

        def go():
            B.add_parametrized_kernels(Picky, 'q', vals)
            return B
        return go

    def fitted(opt):
        def prep(o):
            reg = o['ds']['reg']
            X, y = data(o['ds'])
            T = test_data(o['t'])
            if opt:
                m = (OptimalKernelSVR if reg else OptimalKernelSVC)(k_bucket=bucket(o['b']), method='align/corr')
            else:
                m = (KernelMachineRegressor if reg else KernelMachine)(k_func=mk(o['k']), normalized=o['norm'])

            def go():
                m.fit(X, y)
                p = m.predict(T)
                return ['labels', p] if not reg else p
            return go
        return prep

    def default(o):
        """everything left to the library's defaults"""
        reg = o['ds']['reg']
        X, y = data(o['ds'])
        T = test_data(o['t'])
        m = KernelMachineRegressor() if reg else KernelMachine()
        km = KernelMatrix(mk(o['k']))

        def go():
            m.fit(X, y)
            p = m.predict(T)
            km.attach_to(X)
            return p if reg else np.shape(p), km.full, str(km)
        return go

    def callables(o):
        a, p = o['s'] % 7 + 1.0, o['s'] % 3

        def user_kernel(x, y, b=1.0):
            return (float(np.dot(x, y)) + a * b) ** (1 + p % 2)
        K = KernelFromCallable(user_kernel, **({'b': o['s'] % 5 + .5} if o['s'] % 2 else {}))
        km = KernelMatrix(K, normalized=o['norm'])
        X = np.random.RandomState(o['s'] % 3).randn(3, 2)

        def go():
            km.attach_to(X)
            return K(X[0], X[1]), km.full, km[0, :], str(K)
        return go

    def grow(o):
        B = bucket(o['b'])
        X = cast(np.random.RandomState(o['s']).randn(3, 3), o)

        def go():
            B.add_parametrized_kernels(Picky, 'q', [1 + o['s'] % 3, 2])
            B.attach_to(X)
            return B
        return go

    return {'callables': (callables, 1.5), 'grow': (grow, 1), 'attach': (attach, 2), 'norms': (norms, 3), 'sets': (sets, 2), 'refuse': (refuse, 1.5), 'addpar': (addpar, 1),
            'fit': (fitted(False), 1.5), 'optfit': (fitted(True), 1.5), 'default': (default, .7)}


OPS = {k: v for k, v in C14_OPS.items() if k not in ('setops', 'predict', 'optpredict', 'params', 'precompitem', 'fitlight')}
OPS['pitem'] = (lambda o: (lambda P, ix: lambda: P[ix])(
    KernelMatrixPrecomputed(sym(4, o['s'])), [(0, 1), (slice(None), 0), (9, 9), ([0, 1], [1, 2])][o['s'] % 4]), 1)
OPS.update(own_ops())
OPS['rankcv'] = (OPS['rankcv'][0], .12)
NAMES = sorted(OPS)


class C26:
    rule = ('a seeded history of 3-9 operations of all kinds, each on new objects (many differing from an earlier one in '
            'one input only, or repeating it), some refused, failing or interrupted; every result is compared with that '
            'of the same operation in a process that did nothing before, and the process-wide settings with those '
            'before the operation; non-trivial: a result compared after a different or faulted operation')

    @staticmethod
    def gen(rng, tier):
        d = rng.choice([2, 3, 3])
        kinds = rng.choices(NAMES, [OPS[x][1] for x in NAMES], k=rng.choice([1, 2, 3]))
        ops = []

        def new(nm):
            o = {'op': nm, 's': rng.randrange(1000), 'k': gen_kspec(rng), 'norm': rng.random() < .5,
                 'b': gen_bucket(rng), 'ds': gen_data(rng, d, rng.random() < .5, True), 't': gen_test(rng, d, (), True),
                 'xt': rng.choice([None, None, None, None, 'f4', 'int', 'u1']),
                 'r': gen_read(rng, (3, 3), False), 'r2': gen_read(rng, (3, 3), False)}
            o['ds']['n'] = min(o['ds']['n'], 12)
            o['t']['m'] = min(o['t']['m'], 33)
            if nm == 'rankcv':
                o['b'].update(poly=None, lap=None, btag=[2.0], rbf=None, mtag=None)
            return o
        for _ in range(rng.choice([3, 4, 6, 9])):
            if ops and rng.random() < .6:
                o = dict(rng.choice(ops))
                x = new(o['op'])
                key = rng.choice(['s', 's', 's', 'k', 'xt', 'norm', 'b', 'ds', 'dss', 'dss', 't', 'r', 'none', 'op'])
                if key == 'dss':
                    o['ds'] = dict(o['ds'], s=rng.randrange(10 ** 6))
                elif key == 'op':
                    o['op'] = rng.choice([n for n in kinds if n != 'rankcv'] or ['norms'])
                elif key != 'none':
                    o[key] = x[key]
            else:
                o = new(rng.choice(kinds))
            ops.append(o)
        ops = with_uids([dict(o) for o in ops])
        for i, o in enumerate(ops):
            if i and rng.random() < .4:
                o['early'] = rng.randrange(i)       # its objects are built before that operation
        faults = []
        if rng.random() < .65:
            for o in rng.sample(ops[:-1], min(len(ops) - 1, rng.choice([1, 1, 2]))):
                kind = rng.choice(['kerr', 'intr', 'intr', 'alloc'])
                if rng.random() < .5:
                    kind = {'psd': 'eig', 'kpsd': 'eig', 'addpar': 'ctor'}.get(o['op'], kind)
                f = {'kind': kind, 'f1': 0, 'f2': rng.random(), 'mode': rng.choice(['ops', 'sites']), 'only': [o['u']]}
                f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError', 'ctor': 'MemoryError',
                            'eig': rng.choice(['LinAlgError', 'ValueError', 'MemoryError']),
                            'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]
                faults.append(f)
        return {'cfg': {}, 'ops': ops, 'faults': faults}

    @staticmethod
    def perform(o, call, work=None, live=None):
        """(outcome, warnings, settings changed)"""
        work = work or OPS[o['op']][0](o)
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null), \
                warnings.catch_warnings(record=True) as ws, np.errstate(all='warn'), np.printoptions(precision=6):
            warnings.simplefilter('always')
            before = settings()
            out = call(work)
            after = settings()
            res = ('raise', type(out[1]).__name__) if out[0] == 'raise' else ('ok', canon(out[1]))
        if live is not None and out[0] == 'ok':
            live.append((o, out[1], res))
        n = sum(issubclass(w.category, KernelMethodsWarning) for w in ws), sum(w.category is UserWarning for w in ws)
        return res, n, [k for k in before if before[k] != after[k]]

    @staticmethod
    def alone(o):
        """the same in a process that did nothing else"""
        def plain(work):
            try:
                return 'ok', work()
            except Exception as e:
                return 'raise', e
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = pickle.dumps(C26.perform(o, plain)[:2])
                while out:
                    out = out[os.write(w, out):]
            finally:
                os._exit(0)
        os.close(w)
        got = b''
        while True:
            c = os.read(r, 1 << 16)
            if not c:
                break
            got += c
        os.close(r)
        os.waitpid(pid, 0)
        if not got:
            raise HarnessError('no answer from the process that ran %s alone' % o['op'])
        return pickle.loads(got)

    @staticmethod
    def unclear(o, a, b):
        """class labels that rounding decides may differ"""
        try:
            got, want = a[1][1][1][2], b[1][1][1][2]
            t, par = ('svc', {'b': o['b'], 'C': 1.0, 'method': 'align/corr'}) if o['op'] == 'optfit' else \
                ('km', {'k': o['k'], 'norm': o['norm']})
            X, y = data(o['ds'])
            m = plain_fit(t, par, X, y, None)
            if m is None:
                return True
            ok = plain_predict(m, X, test_data(o['t']))[1]
            return bool((np.asarray(got)[ok] == np.asarray(want)[ok]).all())
        except Exception:
            return False

    @staticmethod
    def run(sim, plan):
        wants = [C26.alone(o) for o in plan['ops']]
        warnings.simplefilter('ignore')
        seen, works, live = 0, {}, []
        for i, (o, want) in enumerate(zip(plan['ops'], wants)):
            for q in plan['ops']:
                if q.get('early') == i:
                    works[q['u']] = OPS[q['op']][0](q)
            nf = len(sim.fired)
            res, n, changed = C26.perform(o, lambda work: sim.op(o['u'], work), works.get(o['u']), live)
            fired = sim.fired[nf:]
            if fired and any(x in str(fired[0][3]) for x in SETTERS):
                changed = []        # cut short between the change and the point that would see to its end
            expect(not changed, 'settings-changed', lambda: '%s%s changed the %s' % (
                o['op'], ' (%s at %s)' % (fired[0][2], fired[0][3]) if fired else '', ', '.join(changed)))
            sim.state('C26', o['op'], bool(fired), res[0])
            if fired:
                live[:] = [x for x in live if x[0] is not o]
                sim.probe('faulted:' + o['op'])
                seen += 1
                continue
            if not alike(res, want[0]) and not (o['op'] in ('fit', 'optfit') and not o['ds']['reg'] and
                                                C26.unclear(o, res, want[0])):
                expect(False, 'depends-on-history', lambda: '%s gave %s; in a process that did nothing before: %s' % (
                    o['op'], show(res), show(want[0])))
            expect(n == want[1], 'depends-on-history', lambda: '%s gave %s warnings; in a process that did nothing '
                   'before: %s' % (o['op'], n, want[1]))
            if seen:
                sim.nontrivial = True
                sim.probe('compared:' + o['op'])
            seen += 1
        for o, ob, res in live:
            expect(alike(canon(ob), res[1]), 'changed-later', lambda: 'what %s gave was %s, after operations on other '
                   'objects %s' % (o['op'], show(res[1]), show(canon(ob))))
