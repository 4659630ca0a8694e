"""Scenarios on kernel machines, optimal-kernel estimators and ranking: C10 C11 C12 C13."""
import copy
import random
import warnings

import numpy as np
from sklearn.svm import SVC, SVR

from core import Violation
from kernels import HalfValid, NegDist, Tag
from kmops import formula, mk, quiet_op, read, was_faulted
from model import NormErr, Ref, brief, close, expect
from s_km import SCHED_FAULTS, gen_sched, with_uids
from kernelmethods import numeric_kernels as nk
from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor, OptimalKernelSVC, OptimalKernelSVR)
from kernelmethods.base import BaseKernelFunction, KernelMatrix
from kernelmethods.ranking import find_optimal_kernel, rank_kernels
from kernelmethods.sampling import KernelBucket


# ---------------------------------------------------------------- data

TYPES = __import__('os').environ.get('VERIF_DEV_EST', 'km,km,kmr,svc,svr').split(',')
LABELS = [[0, 1], [1, 2], [-1, 1], [3, 7], [5, 2], [300, -300], [10, 20, 30], [0, 1, 2]]


def as_type(X, xt):
    if xt == 'int':
        X = np.round(3 * X).astype(int)
        X[~X.any(axis=1)] = 1
    elif xt == 'f4':
        X = (np.round(4 * X) / 4).astype(np.float32)
        X[~X.any(axis=1)] = .5
    elif xt == 'F':
        X = np.asfortranarray(X)
    elif xt == 'view':
        X = np.repeat(X, 2, axis=0)[::2]
    return X


def small(y):
    """the smallest integers that hold these"""
    y = np.round(y).astype(int)
    return next(y.astype(dt) for dt in ('u1', 'i1', 'i2', 'i4', 'i8') if np.array_equal(y.astype(dt), y))


XTYPES = [None] * 9 + ['int', 'int', 'f4', 'F', 'view']


def gen_data(rng, d, reg, xt=False):
    n = rng.choice([8, 9, 10, 12]) if rng.random() < .93 else rng.choice([17, 26, 40] + [70] * xt)
    ds = {'n': n, 'd': d, 's': rng.randrange(10 ** 6), 'reg': reg, 'lab': rng.choice(LABELS), 'pos': False}
    if reg and rng.random() < .3:
        ds['yt'] = 'int'
    if xt:
        ds['xt'] = rng.choice(XTYPES)
    if xt and rng.random() < .15:
        ds['yt'] = 'small'
    return ds


def data(spec):
    r = np.random.RandomState(spec['s'])
    n, d = spec['n'], spec['d']
    X = np.round(r.randn(n, d), 3)
    X[~X.any(axis=1)] = .5          # can not be normalized
    if spec.get('pos'):
        X = np.abs(X) + .05
    X = as_type(X, spec.get('xt'))
    score = X @ r.randn(d) + .5 * r.randn(n) + .5 * X[:, 0] ** 2
    if spec['reg']:
        y = np.round(score * (1 + spec['s'] % 5) + spec['s'] % 7, 3)
        if spec.get('yt') == 'int':     # counts, for example
            y = np.round(3 * y).astype(int)
        if len(set(y.tolist())) < 2:
            y = np.arange(float(n))
        if spec.get('yt') == 'small':
            y = small(3 * y)
            if len(set(y.tolist())) < 2:
                y[0] += 1
    else:
        k = len(spec['lab'])
        order = np.argsort(score, kind='stable')
        y = np.empty(n, dtype=int)
        for pos, i in enumerate(order):
            y[i] = spec['lab'][pos * k // n]
        yt = spec.get('yt', 'int')
        if yt == 'small':
            return X, small(y)
        y = y.astype({'int': int, 'int16': np.int16, 'float': float, 'str': 'U4', 'bool': bool}[yt])
    return X, y


def test_data(spec):
    return as_type(_test_data(spec), spec.get('xt'))


def _test_data(spec):
    if 'of' in spec:        # made from the rows of a training sample
        T = data(spec['of'])[0].astype(float)
        if spec['how'] == 'perm':
            return T[::-1].copy()
        if spec['how'] == 'half':
            return T[::2].copy()
        if spec['how'] == 'near':
            T[len(T) // 2] = np.random.RandomState(spec['s']).randn(T.shape[1]).round(3) + .25
        return T
    r = np.random.RandomState(spec['s'])
    T = np.round(r.randn(spec['m'], spec['d']), 3)
    T[~T.any(axis=1)] = .5
    if 'keep' in spec:      # differs from another sample of this seed in some rows (or their order) only
        kind, k, s = spec['keep']
        r = np.random.RandomState(s)
        if kind == 'tail':
            T[k:] = np.round(r.randn(*T[k:].shape), 3)
        elif kind == 'head':
            T[:max(1, k)] = np.round(r.randn(*T[:max(1, k)].shape), 3)
        elif kind == 'col':
            T[:, -1] = np.round(r.randn(len(T)), 3)
        else:
            T = T[::-1].copy()
        T[~T.any(axis=1)] = .5
    return T


def gen_test(rng, d, dss=(), xt=False):
    if xt:
        return dict(gen_test(rng, d, dss), xt=rng.choice(XTYPES),
                    **({'m': rng.choice([70, 140])} if rng.random() < .02 else {}))
    if dss and rng.random() < .25:
        return {'of': dict(rng.choice(dss)), 'how': rng.choice(['same', 'perm', 'perm', 'half', 'near']),
                's': rng.randrange(10 ** 6), 'd': d, 'm': 0}
    return {'m': rng.choice([1, 2, 3, 5, 8, 9, 10]) if rng.random() < .93 else rng.choice([17, 33]), 'd': d, 's': rng.randrange(10 ** 6)}


# well-conditioned kernels for estimators
def gen_kspec(rng, seam=.8):
    x = rng.random()
    if x < .45:
        return ['tag', {'c': rng.choice([1.0, 2.0, 4.0]), 'd': rng.choice([1, 1, 2]), 'mute': rng.random() < .25}]
    name, p = rng.choice([('gauss', {'sigma': rng.choice([1.0, 2.0, 3.0])}), ('lap', {'gamma': rng.choice([.3, .6])}),
                          ('lin', {}), ('poly', {'degree': 2, 'gamma': .5, 'b': 1.0})])
    return [('w:' if rng.random() < seam else '') + name, p]


class BTag(BaseKernelFunction):
    """harness kernel class for buckets: (<x,y> + c) ** 2 through the seam; c == 99 gives NaN off the diagonal"""

    def __init__(self, c=1.0, skip_input_checks=False):
        super().__init__(name='btag')
        self.c = c
        self.skip_input_checks = skip_input_checks
        self._t = Tag(c=c, d=2)

    def __call__(self, x, y):
        v = self._t(x, y)
        if self.c == 99 and not np.array_equal(x, y):
            return float('nan')
        return v

    def __str__(self):
        return 'btag(c={})'.format(self.c)


class MTag(BTag):
    """does not say its parameter"""

    def __str__(self):
        return 'mtag'


class Dist(BaseKernelFunction):
    """1 + s |x - y|^2: indefinite, large where others are small"""

    def __init__(self, s=1.0, skip_input_checks=False):
        super().__init__(name='dist')
        self.s = s
        self.skip_input_checks = skip_input_checks
        self._t = Tag(c=0.0)

    def __call__(self, x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        return 1.0 + self.s * self._t(x - y, x - y)

    def __str__(self):
        return 'dist(s={})'.format(self.s)


def gen_bucket(rng, nan_p=0.0, dist_p=0.0):
    b = {'poly': rng.choice([None, None, [2], [2, 3]]), 'rbf': rng.choice([None, [1.0], [2.0], [1.0, 3.0]]),
         'lap': rng.choice([None, None, [.5]]), 'btag': rng.choice([None, [1.0], [3.0], [2.0, 5.0]]),
         'norm': rng.random() < .6}
    if rng.random() < .25:
        b['mtag'] = rng.choice([[1.0, 4.0], [4.0, .5], [3.0]])
    if rng.random() < dist_p:
        b['dist'] = [rng.choice([.5, 2.0])]
    if rng.random() < nan_p:
        b['btag'] = list(b['btag'] or [])
        b['btag'].insert(rng.randrange(len(b['btag']) + 1), 99)
    if not (b['poly'] or b['rbf'] or b['lap'] or b['btag']):
        b['rbf'] = [2.0]
    return b


def bucket(spec):
    B = KernelBucket(poly_degree_values=spec['poly'], rbf_sigma_values=spec['rbf'], laplace_gamma_values=spec['lap'],
                     sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=spec['norm'])
    if spec['btag']:
        B.add_parametrized_kernels(BTag, 'c', spec['btag'])
    if spec.get('mtag'):
        B.add_parametrized_kernels(MTag, 'c', spec['mtag'])
    if spec.get('dist'):
        B.add_parametrized_kernels(Dist, 's', spec['dist'])
    return B


def bucket_specs(spec):
    """the kernels of the bucket, in order, as specs for formula()"""
    out = [['lin', {}]]
    out += [['poly', {'degree': v}] for v in spec['poly'] or ()]
    out += [['gauss', {'sigma': v}] for v in spec['rbf'] or ()]
    out += [['lap', {'gamma': v}] for v in spec['lap'] or ()]
    out += [['btag', {'c': v}] for v in spec['btag'] or ()]
    out += [['btag', {'c': v}] for v in spec.get('mtag') or ()]
    out += [['dist', {'s': v}] for v in spec.get('dist') or ()]
    return out


def bformula(spec):
    if spec[0] == 'btag':
        c = spec[1]['c']

        def f(x, y):
            if c == 99 and not np.array_equal(x, y):
                return float('nan')
            return float(np.dot(x, y) + c) ** 2
        return f
    if spec[0] == 'dist':
        return lambda x, y: 1.0 + spec[1]['s'] * float(((np.asarray(x) - np.asarray(y)) ** 2).sum())
    return formula(spec)


# ---------------------------------------------------------------- estimators

def make(cfg, par):
    """a new estimator with the given parameters"""
    t = cfg['t']
    if t in ('km', 'kmr'):
        cls = KernelMachine if t == 'km' else KernelMachineRegressor
        kw = {'learner_id': par['lid']} if 'lid' in par else {}
        return cls(k_func=mk(par['k']), normalized=par['norm'], **kw)
    kw = {k: par[k] for k in ('shrinking', 'tol') if k in par}
    b = par['b'] if isinstance(par['b'], str) else bucket(par['b'])
    if t == 'svc':
        return OptimalKernelSVC(k_bucket=b, method=par['method'], C=par['C'], **kw)
    return OptimalKernelSVR(k_bucket=b, method=par['method'], C=par['C'], epsilon=par.get('epsilon', .05), **kw)


def gen_par(rng, t, cv_p=.08):
    if t in ('km', 'kmr'):
        return {'k': gen_kspec(rng), 'norm': rng.random() < .5}
    b = gen_bucket(rng)
    method = 'cv_risk' if rng.random() < cv_p else 'align/corr'
    if method == 'cv_risk':
        b.update(poly=None, lap=None, btag=None, mtag=None, rbf=[1.0])
    return {'b': b, 'method': method, 'C': rng.choice([.5, .5, 1.0, 1.0, 5.0, 5.0, 1e-3, 60.0])}


def plain_fit(t, par, X, y, sw):
    """the model written down with scikit-learn on matrices of the kernel functions themselves"""
    if t in ('km', 'kmr'):
        f, norm = formula(par['k']), par['norm']
        learner = SVC(kernel='precomputed', C=10) if t == 'km' else SVR(kernel='precomputed', C=10)
    else:
        # the selected kernel: highest centered alignment
        best, bs = None, None
        T = np.outer(y.astype(float), y.astype(float))
        b = par['b']
        if b == 'linear_only':
            b = {'poly': None, 'rbf': None, 'lap': None, 'btag': None, 'norm': True}
        elif isinstance(b, str):
            return None
        for s in bucket_specs(b):
            R = Ref(bformula(s), b['norm'], X)
            try:
                a = align(R.full(), T)
            except NormErr:
                return None
            if bs is not None and abs(a - bs) < 1e-5 and s != best:
                return None         # rounding may decide
            if bs is None or a > bs + 1e-9:
                best, bs = s, a
        f, norm = bformula(best), b['norm']
        kw = {k: par[k] for k in ('shrinking', 'tol') if k in par}
        learner = SVC(C=par['C'], **kw) if t == 'svc' else SVR(C=par['C'], epsilon=par.get('epsilon', .05), **kw)
    K = Ref(f, norm, X).full()
    if not np.isfinite(K).all():
        return None
    learner.fit(K, y, sample_weight=sw)
    return f, norm, learner


def plain_predict(m, X, T):
    """(predictions, mask of the clear ones)"""
    f, norm, learner = m
    K = Ref(f, norm, T, X).full()
    p = learner.predict(K)
    if isinstance(learner, SVR):
        return p, np.ones(len(p), bool)
    shape = learner.decision_function_shape
    learner.decision_function_shape = 'ovo'
    dec = learner.decision_function(K)
    learner.decision_function_shape = shape
    # clear: no vote of a pair of classes is close
    return p, np.abs(dec) > .1 if dec.ndim == 1 else np.abs(dec).min(axis=1) > .1


class Model:
    """one complete fit: what an undisturbed estimator with these parameters and data predicts"""

    def __init__(self, cfg, par, ds, sw, tests):
        X, y = data(ds)
        self.par, self.ds = par, ds
        self.X, self.y = X, y
        self.sw = weights_for(ds, sw)
        est = make(cfg, par)
        est.fit(X, y, sample_weight=self.sw)
        self.classes = None if cfg['t'] in ('kmr', 'svr') else sorted(set(y.tolist()))
        # recent scikit-learn does not take KernelMachine for a classifier: no classes_ then
        self.has_classes = hasattr(est, 'classes_')
        if cfg['t'] in ('svc', 'svr'):
            self.sv = np.array(est.support_)
            self.dual = np.array(est.dual_coef_)
            self.K = np.array(est.opt_kernel_.full)
        self.pred = [np.asarray(copy.deepcopy(est).predict(test_data(t))) for t in tests]
        self.clear = [np.ones(len(p), bool) for p in self.pred]
        # independent of the estimator classes
        if cfg['t'] in ('km', 'kmr') or par['method'].lower() == 'align/corr':
            plain = plain_fit(cfg['t'], par, X, y, self.sw)
            if plain is not None:
                for i, t in enumerate(tests):
                    try:
                        want, ok = plain_predict(plain, X, test_data(t))
                    except NormErr:
                        continue
                    self.clear[i] = ok
                    got = self.pred[i]
                    expect(got.shape == want.shape, 'wrong-prediction', 'shape of the predictions')
                    if cfg['t'] in ('kmr', 'svr'):
                        scale = np.ptp(np.asarray(y, float)) + 1
                        expect(got.dtype.kind == 'f', 'wrong-prediction', lambda: 'an undisturbed fit predicts %s %s, '
                               'scikit-learn on the same kernel %s' % (got.dtype, brief(got), brief(want)))
                        expect(np.abs(got - want).max() <= .05 * scale, 'wrong-prediction',
                               lambda: 'an undisturbed fit predicts %s, scikit-learn on the same kernel %s' % (
                                   brief(got), brief(want)))
                    else:
                        expect((got[ok] == want[ok]).all(), 'wrong-prediction',
                               lambda: 'an undisturbed fit predicts %s, scikit-learn on the same kernel %s' % (
                                   brief(got), brief(want)))

    def agrees(self, i, got):
        got = np.asarray(got)
        want = self.pred[i]
        if got.shape != want.shape:
            return False
        if self.classes is None:
            return bool(np.allclose(got, want, rtol=1e-6, atol=1e-6))
        if got.dtype.kind != want.dtype.kind:
            return False
        c = self.clear[i]
        return bool((got[c] == want[c]).all() and np.isin(got, self.classes).all())


def weights_for(ds, sw):
    if sw is None:
        return None
    return np.round(np.random.RandomState(sw).rand(ds['n']) + .5, 2)


# ---------------------------------------------------------------- C10

BADFIT = ['nany', 'nanx', 'len', 'badsw', 'zerosw', 'oneclass', 'x1d', 'none', 'strx', 'empty']


def bad_fit(kind, ds, t):
    X, y = data(ds)
    sw = None
    if kind == 'nany':
        y = y.astype(float)
        y[0] = np.nan
    elif kind == 'nanx':
        X = X.astype(float)
        X[-1, 0] = np.nan
    elif kind == 'len':
        y = y[:-1]
    elif kind == 'badsw':
        sw = np.ones(len(y) + 1)
    elif kind == 'zerosw':
        sw = np.zeros(len(y))
    elif kind == 'oneclass':
        if t in ('kmr', 'svr'):
            y = y[:-2]
        else:
            y = np.full(len(y), 4, dtype=[int, np.int8, bool, 'U1'][ds['s'] % 4] if t == 'km' else int)
    elif kind == 'x1d':
        X = X[:, 0]
    elif kind == 'none':
        X = None
    elif kind == 'strx':
        X = X.astype(str)
        X[0, 0] = 'zzz'
    elif kind == 'empty':
        X, y = X[:0], y[:0]
    return X, y, sw


class C10:
    rule = ('a seeded history of fits on different data sets, refused fits, parameter changes and predictions on one '
            'estimator (kernel machine or optimal-kernel, classifier or regressor), with kernel errors, interrupts and '
            'allocation failures inside fits and predictions; non-trivial: a prediction checked after a failed or '
            'interrupted fit or a parameter change')

    @staticmethod
    def gen(rng, tier):
        t = rng.choice(TYPES)
        reg = t in ('kmr', 'svr')
        d = rng.choice([2, 2, 3, 3, 5])
        dss = [gen_data(rng, d, reg, True) for _ in range(rng.choice([2, 3]))]
        if rng.random() < .3:
            dss[1]['n'] = dss[0]['n']
        if rng.random() < .3:
            for x in dss[1:]:
                x['lab'] = dss[0]['lab']
        if t == 'km':
            for x in dss:
                x['yt'] = rng.choice(['int', 'int', 'int16', 'small', 'float', 'str'])
        tests = [gen_test(rng, d, dss, True) for _ in range(2)]
        par = gen_par(rng, t)
        ops = []
        if rng.random() < .2:
            ops.append({'op': 'predict', 't': 0})
        nops = rng.choice([2, 4, 6, 8])
        for k in range(nops):
            x = rng.random()
            if x < .34 or (k == 0 and rng.random() < .7):
                o = {'op': 'fit', 'ds': rng.randrange(len(dss)), 'sw': rng.choice([None, None, rng.randrange(99)])}
            elif x < .5:
                o = {'op': 'badfit', 'ds': rng.randrange(len(dss)), 'k': rng.choice(BADFIT)}
            elif x < .7:
                p2 = gen_par(rng, t, 0)
                keys = [k2 for k2 in p2 if rng.random() < .6] or [rng.choice(sorted(p2))]
                o = {'op': 'set', 'p': {k2: p2[k2] for k2 in keys}}
                if rng.random() < .15:
                    o['bad'] = True
            else:
                o = {'op': 'predict', 't': rng.randrange(2), 'bad': rng.choice([None] * 6 + ['dim', 'nan', '1d'])}
            ops.append(o)
        ops.append({'op': 'predict', 't': 0})
        with_uids(ops)
        faults = []
        if rng.random() < .7:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(['kerr', 'intr', 'intr', 'intr', 'alloc'])
                f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites']),
                     'only': [o['u'] for o in ops if o['op'] in ('fit', 'predict')]}
                if kind == 'intr' and rng.random() < .5:
                    f['f2'] = 1 - 10 ** rng.uniform(-4, -.5)       # late in the operation
                    f['mode'] = 'ops'
                f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                            'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]
                faults.append(f)
        return {'cfg': {'t': t, 'dss': dss, 'tests': tests, 'par': par}, 'ops': ops, 'faults': faults}

    @staticmethod
    def real(t, p):
        """JSON parameters -> arguments of set_params"""
        out = {}
        for k, v in p.items():
            if k == 'k':
                out['k_func'] = mk(v)
            elif k == 'norm':
                out['normalized'] = v
            elif k == 'b':
                out['k_bucket'] = bucket(v)
            else:
                out[k] = v
        return out

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        cfg = plan['cfg']
        t = cfg['t']
        tests = [test_data(x) for x in cfg['tests']]
        # undisturbed references for every complete fit of the history, made before it
        par = dict(cfg['par'])
        refs = {}
        badpar = False
        for o in plan['ops']:
            if o['op'] == 'set':
                par.update(o['p'])
                badpar = bool(o.get('bad'))
            elif o['op'] == 'fit':
                o['_bad'] = badpar
                if not badpar:
                    refs[o['u']] = Model(cfg, dict(par), cfg['dss'][o['ds']], o['sw'], cfg['tests'])
        est = make(cfg, cfg['par'])
        cands = []          # complete fits the estimator may be showing; [] = none
        may_raise = True
        disturbed = False
        for o in plan['ops']:
            op = o['op']
            if op == 'fit':
                ds = cfg['dss'][o['ds']]
                X, y = data(ds)
                sw = weights_for(ds, o['sw'])
                out, _ = quiet_op(sim, o['u'], lambda: est.fit(X, y, sample_weight=sw))
                if out[0] == 'ok':
                    expect(not o['_bad'], 'not-refused', 'fit with a bad parameter accepted')
                    expect(out[1] is est, 'wrong-form', 'fit did not return the estimator')
                    cands, may_raise = [refs[o['u']]], False
                else:
                    expect(o['_bad'] or was_faulted(sim), 'unexpected-failure', lambda: 'fit raised %r' % (out[1],))
                    if was_faulted(sim) and not o['_bad']:
                        cands = cands + [refs[o['u']]]
                        sim.probe('fault-in-fit')
                    if not cands or was_faulted(sim):
                        may_raise = True
                    may_raise = disturbed = True
            elif op == 'badfit':
                X, y, sw = bad_fit(o['k'], cfg['dss'][o['ds']], t)
                out, _ = quiet_op(sim, o['u'], lambda: est.fit(X, y, sample_weight=sw))
                expect(out[0] == 'raise', 'not-refused', lambda: 'fit with %s accepted' % o['k'])
                may_raise = disturbed = True
                sim.probe('refused-fit')
            elif op == 'set':
                p = C10.real(t, o['p'])
                if o.get('bad'):
                    p.update({'learner_id': 'nosuch'} if t in ('km', 'kmr') else {'method': 'nosuch'})
                else:
                    p.update({'learner_id': 'SVC' if t == 'km' else 'SVR'} if t in ('km', 'kmr') else
                             {} if 'method' in p else {'method': C10.method_at(plan, o)})
                out, _ = quiet_op(sim, o['u'], lambda: est.set_params(**p))
                expect(out[0] == 'ok', 'unexpected-failure', lambda: 'set_params raised %r' % (out[1],))
                may_raise = disturbed = True
                sim.probe('set_params')
            else:
                T = tests[o['t']]
                bad = o.get('bad')
                if bad == 'dim':
                    T = np.hstack([T, T])
                elif bad == 'nan':
                    T = T.astype(float)
                    T[0, 0] = np.nan
                elif bad == '1d':
                    T = T[:, 0]
                out, _ = quiet_op(sim, o['u'], lambda: est.predict(T))
                if bad:
                    expect(out[0] == 'raise', 'not-refused', lambda: 'predict accepted %s' % bad)
                    continue
                if out[0] == 'raise':
                    expect(may_raise or was_faulted(sim), 'unexpected-failure', lambda: 'predict raised %r' % (out[1],))
                    sim.probe('predict-raised')
                    continue
                expect(cands, 'not-refused', lambda: 'an estimator that was never fitted predicts %s' % brief(out[1]))
                ok = [m for m in cands if m.agrees(o['t'], out[1])]
                expect(ok, 'mixed-model', lambda: '%s: predictions %s are not those of a complete fit: %s' % (
                    t, brief(out[1]), ' or '.join(brief(m.pred[o['t']]) for m in cands)))
                cands = ok
                sim.probe('prediction-checked')
                if disturbed:
                    sim.nontrivial = True
                if t in ('km', 'svc') and cands[0].has_classes:
                    cl = sorted(np.asarray(getattr(est, 'classes_', [])).tolist())
                    expect(any(cl == m.classes for m in cands), 'mixed-model', lambda: 'classes_ %s' % cl)
                if t in ('svc', 'svr'):
                    sh = tuple(est.opt_kernel_.shape)
                    expect(any(sh == m.K.shape for m in cands), 'mixed-model',
                           lambda: 'opt_kernel_ has shape %s' % (sh,))
            sim.state('C10', t, op, len(cands), may_raise, was_faulted(sim))

    @staticmethod
    def method_at(plan, o):
        m = plan['cfg']['par']['method']
        for q in plan['ops']:
            if q is o:
                return m
            if q['op'] == 'set' and 'method' in q['p']:
                m = q['p']['method']
        return m


# ---------------------------------------------------------------- C11

class C11:
    rule = ('1-3 fitted estimators sharing a kernel function or bucket; a seeded history (half of the runs: 2-3 threads) '
            'of predictions on different data, refused and faulted predictions, refits of the other estimators and other '
            'uses of the shared kernel or bucket; non-trivial: a prediction checked after a faulted or refused one, '
            'after another use, or in a run where threads switched')
    threaded = True

    @staticmethod
    def gen(rng, tier):
        t = rng.choice(TYPES)
        reg = t in ('kmr', 'svr')
        d = rng.choice([2, 2, 3, 3, 5])
        ne = rng.choice([1, 2, 2, 3])
        par = gen_par(rng, t, .03)
        ests = []
        for i in range(ne):
            p = dict(par)
            if t in ('km', 'kmr'):
                p['norm'] = rng.random() < .5
            else:
                p['C'] = rng.choice([.5, 1.0, 5.0])
            ests.append({'p': p, 'ds': gen_data(rng, d, reg, True)})
        tests = [gen_test(rng, d, [x['ds'] for x in ests], True) for _ in range(3)]
        if rng.random() < .5 and tests[0]['m']:
            tests[1] = dict(tests[0], keep=[rng.choice(['tail', 'tail', 'head', 'col', 'rev']),
                                            rng.randrange(tests[0]['m']), rng.randrange(1000)])
        threaded = rng.random() < .5
        ops = []

        def op(tid):
            x = rng.random()
            e = rng.randrange(ne)
            if x < .62:
                o = {'op': 'predict', 'e': e, 't': rng.randrange(3)}
            elif x < .74:
                o = {'op': 'badpredict', 'e': e, 'k': rng.choice(['dim', 'nan', '1d', 'empty', 'none'])}
            elif x < .84:
                o = {'op': 'usekernel', 's': rng.randrange(1000), 'e': e}
            elif x < .92 and ne > 1 and not threaded:
                o = {'op': 'refit', 'e': 1 + rng.randrange(ne - 1)}
            else:
                o = {'op': 'same', 'e': e, 't': rng.randrange(3)}
            o['tid'] = tid
            if rng.random() < .3:
                o['buf'] = 1
            return o
        if threaded:
            for tid in range(1, rng.choice([2, 2, 3]) + 1):
                for _ in range(rng.choice([1, 2, 2])):
                    ops.append(op(tid))
        else:
            for _ in range(rng.choice([3, 5, 8])):
                ops.append(op(0))
        with_uids(ops)
        faults = []
        if rng.random() < (.7 if not threaded else .35):
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(['kerr', 'intr', 'intr', 'alloc'])
                f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites']),
                     'only': [o['u'] for o in ops if o['op'] in ('predict', 'same') and o['tid'] <= 1]}
                f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                            'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]
                faults.append(f)
        plan = {'cfg': {'t': t, 'ests': ests, 'tests': tests, 'share': rng.random() < .8}, 'ops': ops, 'faults': faults}
        if threaded:
            plan['sched'] = gen_sched(rng)
        return plan

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        cfg = plan['cfg']
        t = cfg['t']
        tests = [test_data(x) for x in cfg['tests']]
        refs = [Model(cfg, e['p'], e['ds'], None, cfg['tests']) for e in cfg['ests']]
        shared = mk(cfg['ests'][0]['p']['k']) if t in ('km', 'kmr') else bucket(cfg['ests'][0]['p']['b'])
        ests = []
        for e in cfg['ests']:
            est = make(cfg, e['p'])
            if cfg['share']:
                est.set_params(**({'k_func': shared} if t in ('km', 'kmr') else {'k_bucket': shared}))
            X, y = data(e['ds'])
            est.fit(X, y)
            if t in ('svc', 'svr'):
                est.opt_kernel_.set_attr('mine', 'tag')
            ests.append(est)
        touched = [False]
        bufs = {}
        # a bucket can not be attached to another number of samples: no refits after such a use
        refits = any(o['op'] == 'refit' for o in plan['ops'])

        def facts(i):
            """what is public about the fitted model"""
            est, m = ests[i], refs[i]
            if t in ('km', 'svc') and m.has_classes:
                expect(sorted(np.asarray(getattr(est, 'classes_', [])).tolist()) == m.classes, 'model-changed', 'classes_ changed')
            if t in ('svc', 'svr'):
                expect(np.array_equal(est.support_, m.sv) and np.array_equal(est.dual_coef_, m.dual), 'model-changed',
                       'support_ or dual_coef_ changed')
                k = est.opt_kernel_
                expect(tuple(k.shape) == m.K.shape and k.num_samples == len(m.X), 'model-changed',
                       lambda: 'opt_kernel_ is now attached to %s, the training data has %d' % (k.num_samples,
                                                                                               len(m.X)))
                expect(k.get_attr('mine') == 'tag', 'model-changed', 'attributes of opt_kernel_ lost')
                expect(close(k.full, m.K), 'model-changed',
                       lambda: 'opt_kernel_ is %s, after the fit %s' % (brief(k.full), brief(m.K)))

        def one(task, o):
            op = o['op']
            est = ests[o['e']]
            if op in ('predict', 'same'):
                for rep in range(2 if op == 'same' else 1):
                    uid = o['u'] if not rep else o['u'] + '.again'
                    T = tests[o['t']].copy()
                    if 'buf' in o:      # the caller refills one array
                        b = bufs.setdefault((o['tid'], T.shape, T.dtype.kind, T.itemsize), T)
                        b[...] = T
                        T = b
                    out = sim.op(uid, lambda: est.predict(T), task)
                    if out[0] == 'raise':
                        expect(task.fired, 'unexpected-failure', lambda: 'predict raised %r' % (out[1],))
                        touched[0] = True
                        sim.probe('faulted-prediction')
                        continue
                    expect(refs[o['e']].agrees(o['t'], out[1]), 'wrong-prediction', lambda: '%s: predictions %s, '
                           'expected %s' % (t, brief(out[1]), brief(refs[o['e']].pred[o['t']])))
                    if touched[0] or sim.nswitch or sim.sched:
                        sim.nontrivial = True
                    sim.probe('prediction-checked')
            elif op == 'badpredict':
                T = tests[0]
                T = {'dim': np.hstack([T, T]), 'nan': np.full(T.shape, np.nan), '1d': T[:, 0], 'empty': T[:0],
                     'none': None}[o['k']]
                out = sim.op(o['u'], lambda: est.predict(T), task)
                expect(out[0] == 'raise', 'not-refused', lambda: 'predict accepted %s' % o['k'])
                touched[0] = True
            elif op == 'usekernel':
                r = np.random.RandomState(o['s'])
                X = r.randn(4 + o['s'] % 3, tests[0].shape[1])
                if t in ('km', 'kmr'):
                    km = KernelMatrix(shared)
                    km.attach_to(X)
                    sim.op(o['u'], lambda: km.full, task)
                elif o['tid'] <= 1:
                    B = copy.deepcopy(shared) if o['s'] % 3 == 0 or refits else shared
                    if B is shared and B.num_samples is not None:
                        X = r.randn(B.num_samples, tests[0].shape[1])
                    y = r.randn(len(X))
                    sim.op(o['u'], lambda: find_optimal_kernel(B, X, y, method='align/corr'), task)
                touched[0] = True
            elif op == 'refit':
                e = cfg['ests'][o['e']]
                X, y = data(dict(e['ds'], s=e['ds']['s'] + 1))
                sim.op(o['u'], lambda: est.fit(X, y), task)
                X, y = data(e['ds'])
                est.fit(X, y)
                if t in ('svc', 'svr'):
                    est.opt_kernel_.set_attr('mine', 'tag')
                touched[0] = True
            if not sim.sched:
                facts(o['e'])
            sim.state('C11', t, op, bool(task.fired), touched[0])

        for i in range(len(ests)):
            facts(i)
        for o in plan['ops']:
            if not o['tid']:
                one(sim.main, o)
        tids = sorted({o['tid'] for o in plan['ops'] if o['tid']})
        if tids and 'sched' in plan:
            def body(tid):
                def go(task):
                    for o in plan['ops']:
                        if o['tid'] == tid:
                            one(task, o)
                return go
            sim.threads([(x, body(x)) for x in tids], plan['sched'])
        for i, est in enumerate(ests):
            facts(i)
            for j, T in enumerate(tests[:2]):
                out = sim.op('end%d.%d' % (i, j), lambda: est.predict(T))
                expect(out[0] == 'ok', 'unexpected-failure', lambda: 'afterwards predict raised %r' % (out[1],))
                expect(refs[i].agrees(j, out[1]), 'wrong-prediction', lambda: '%s: afterwards predictions %s, expected '
                       '%s' % (t, brief(out[1]), brief(refs[i].pred[j])))
            facts(i)


# ---------------------------------------------------------------- C12

def center(K):
    return K - K.mean(0, keepdims=True) - K.mean(1, keepdims=True) + K.mean()


def align(K, T):
    """centered alignment; 0 when a norm vanishes"""
    a, b = center(np.asarray(K, float)), center(np.asarray(T, float))
    na, nb = np.sqrt((a * a).sum()), np.sqrt((b * b).sum())
    if np.isclose(na, 0) or np.isclose(nb, 0):
        return 0.0
    return float((a * b).sum() / (na * nb))


def cv_score(K, y, est, folds):
    """best mean score of the SVM on this matrix over the C grid"""
    from sklearn.base import clone
    from sklearn.model_selection import KFold, StratifiedKFold
    reg = est == 'SVR'
    split = list((KFold(folds) if reg else StratifiedKFold(folds)).split(K, y))
    best = -np.inf
    for c in np.power(10.0, range(-6, 6)):
        sc = []
        for tr, te in split:
            m = SVR(kernel='precomputed', C=c) if reg else SVC(kernel='precomputed', C=c)
            m.fit(K[np.ix_(tr, tr)], y[tr])
            sc.append(m.score(K[np.ix_(te, tr)], y[te]))
        best = max(best, np.mean(sc))
    return best


class C12:
    rule = ('a seeded history on one kernel bucket: rankings, selections and optimal-kernel fits with different samples '
            'of one size, targets and methods, mixed with reads, refused and faulted rankings; every outcome compared '
            'with scores computed independently; in some runs two or three threads then rank the attached bucket with '
            'different targets at the same time; non-trivial: an outcome checked after another use of the bucket')
    threaded = True

    @staticmethod
    def gen(rng, tier):
        heavy = rng.random() < .12
        b = gen_bucket(rng, .0 if heavy else .3, 0. if heavy else .4)
        if heavy:
            b.update(poly=None, lap=None)
            if rng.random() < .6:
                b.update(btag=None, mtag=[rng.choice([.1, .5]), 4.0])
        d = rng.choice([2, 2, 3, 3, 5])
        n = rng.choice([8, 9, 10, 12]) if rng.random() < .93 else rng.choice([17, 26, 40])
        reg = rng.random() < .5
        dss = [dict(gen_data(rng, d, reg, True), n=n) for _ in range(3)]
        for x in dss:       # single precision is not compared with formulas
            x['xt'] = 'int' if x['xt'] == 'f4' else x['xt']
        if rng.random() < .15:
            dss[1]['const'] = True
        ops = []
        for k in range(rng.choice([2, 3, 5]) if not heavy else 2):
            x = rng.random()
            ds = rng.randrange(3)
            m = 'cv_risk' if heavy and rng.random() < .7 else rng.choice(['align/corr', 'align/corr', 'ALIGN/corr'])
            if x < .3:
                o = {'op': 'rank', 'ds': ds, 'y': rng.randrange(3), 'm': m}
            elif x < .6:
                o = {'op': 'find', 'ds': ds, 'm': m}
            elif x < .78:
                o = {'op': 'est', 'ds': ds, 'm': m, 'reg': reg}
            elif x < .86:
                o = {'op': 'bad', 'ds': ds, 'k': rng.choice(['len', 'method', 'bucket', 'wrongn', 'nany', '1d'])}
            else:
                o = {'op': 'read', 'i': rng.choice([None, None, rng.random()]),
                     'rs': [rng.choice([['full'], ['centered'], ['normed'], ['frob'], ['sparse'], ['diag'], ['normalize'],
                                        ['idx', 1, ['s', None, 4, None]],
                                        ['idx', ['s', None, None, None], ['s', None, None, None]]])
                            for _ in range(rng.choice([1, 2, 3]))]}
            if o['op'] == 'rank' and rng.random() < .4:
                o['stay'] = True
            o['folds'] = rng.choice([3, 3, 2])
            o['yf'] = rng.choice(['array', 'array', 'list', 'tuple'])
            ops.append(o)
        par = rng.random() < .3
        if par:
            for tid in range(1, rng.choice([2, 2, 3]) + 1):
                for _ in range(rng.choice([1, 2])):
                    o = {'op': rng.choice(['prank', 'prank', 'prank', 'pread']), 'tid': tid, 'y': rng.randrange(3),
                         'yf': rng.choice(['array', 'list']), 'i': rng.random(),
                         'r': rng.choice([['full'], ['centered'], ['frob'], ['normed']])}
                    ops.append(o)
        with_uids(ops)
        faults = []
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(['kerr', 'intr', 'alloc'])
                f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites']),
                     'only': [o['u'] for o in ops if o['op'] in ('rank', 'find', 'est', 'read')]}
                f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                            'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]
                faults.append(f)
        plan = {'cfg': {'b': b, 'dss': dss, 'reg': reg}, 'ops': ops, 'faults': faults}
        if par:
            plan['cfg']['pds'] = rng.randrange(3)
            plan['sched'] = gen_sched(rng)
        return plan

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        cfg = plan['cfg']
        B = bucket(cfg['b'])
        members = list(B)
        specs = bucket_specs(cfg['b'])
        norm = cfg['b']['norm']
        cache = {}
        uses = 0

        def xy(i):
            ds = cfg['dss'][i]
            X, y = data(ds)
            if ds.get('const'):
                y = np.full(len(y), y[0])
            return X, y

        def mats(i):
            if ('m', i) not in cache:
                X, _ = xy(i)
                cache['m', i] = [Ref(bformula(s), norm, X).full() for s in specs]
            return cache['m', i]

        def scores(i, j, m, folds, est):
            """independent scores of every kernel on sample i with targets j; NaN: can not be computed"""
            key = (i, j, m.lower(), folds, est)
            if key not in cache:
                _, y = xy(j)
                if m.lower() == 'align/corr':
                    T = np.outer(y.astype(float), y.astype(float))
                    cache[key] = [align(K, T) if np.isfinite(K).all() else np.nan for K in mats(i)]
                else:
                    X, _ = xy(i)
                    raw = []
                    for s in bucket(cfg['b']):
                        s.attach_to(X)
                        K = s.full
                        raw.append(cv_score(K, y, est, folds) if np.isfinite(K).all() else np.nan)
                    cache[key] = raw
            return np.array(cache[key])

        def scaled(raw):
            sp = raw.max() - raw.min()
            return np.zeros(len(raw)) if np.isclose(sp, 0) else 100 * (raw - raw.min()) / sp

        def check_best(km, want, X, what, own=True):
            ids = [i for i, x in enumerate(members) if x is km]
            if own:
                expect(len(ids) == 1, 'wrong-selection', what + ': the selected kernel is not in the bucket')
                i = ids[0]
            else:
                kk = [i for i, s in enumerate(members) if type(s.kernel) is type(km.kernel) and
                      str(s.kernel) == str(km.kernel) and getattr(s.kernel, 'c', 0) == getattr(km.kernel, 'c', 0)]
                expect(len(kk) >= 1, 'wrong-selection', what + ': the selected kernel is not from the bucket')
                i = max(kk, key=lambda q: -np.inf if np.isnan(want[q]) else want[q])
            if np.isnan(want).all():
                return
            expect(not np.isnan(want[i]), 'wrong-selection', lambda: '%s selected kernel %d whose score can not be '
                   'computed; scores %s' % (what, i, want))
            tol = 1e-9 * max(1, np.nanmax(np.abs(want)))
            expect(want[i] >= np.nanmax(want) - tol, 'wrong-selection',
                   lambda: '%s selected kernel %d; scores %s' % (what, i, want))
            expect(km.num_samples == len(X), 'wrong-attachment', what + ': size of the selected kernel matrix')
            K = Ref(bformula(specs[i]), norm, X).full()
            expect(close(km.full, K), 'wrong-attachment', lambda: '%s: the selected kernel matrix is %s, expected %s' % (
                what, brief(km.full), brief(K)))

        attached = None
        yform = {'array': np.array, 'list': list, 'tuple': tuple}
        for o in plan['ops']:
            op = o['op']
            if 'tid' in o:
                continue
            if op == 'rank':
                if o.get('stay') and attached is not None:
                    o = dict(o, ds=attached)        # as the bucket is, read or ranked before
                    X, _ = xy(o['ds'])
                    sim.probe('ranked-as-attached')
                else:
                    X, _ = xy(o['ds'])
                    B.attach_to(X)
                    attached = o['ds']
                _, y = xy(o['y'])
                est = 'SVR' if cfg['reg'] else 'SVC'
                kw = {} if o['m'].lower() == 'align/corr' else {'num_folds': o['folds'], 'estimator_name': est}
                if cfg['dss'][o['y']].get('const') and kw:
                    continue
                want = scores(o['ds'], o['y'], o['m'], o['folds'], est)
                out, _ = quiet_op(sim, o['u'], lambda: rank_kernels(B, yform[o['yf']](y), method=o['m'], **kw))
                if out[0] == 'ok':
                    got = np.asarray(out[1], float)
                    if kw:
                        want = scaled(want)
                    expect(got.shape == (len(specs),), 'wrong-scores', 'shape %s' % (got.shape,))
                    fin = np.isfinite(want)
                    expect(close(got[fin], want[fin], rtol=1e-6, scale=100.0), 'wrong-scores',
                           lambda: 'ranking by %s gave %s, expected %s' % (o['m'], got, want))
                    expect(not np.isfinite(got[~fin]).any() or not fin.any() or
                           not (got[~fin & np.isfinite(got)] > want[fin].max()).any(), 'wrong-scores',
                           lambda: 'a score that can not be computed is the highest: %s' % got)
                    sim.probe('ranking-checked')
                    sim.nontrivial = sim.nontrivial or uses > 0
                else:
                    expect(was_faulted(sim) or np.isnan(want).any(), 'unexpected-failure',
                           lambda: 'ranking raised %r' % (out[1],))
            elif op == 'find':
                X, y = xy(o['ds'])
                cv = o['m'].lower() != 'align/corr'
                if cv and cfg['dss'][o['ds']].get('const'):
                    continue
                est = 'SVR' if cfg['reg'] else 'SVC'
                kw = {'num_folds': o['folds'], 'estimator_name': est} if cv else {}
                want = scores(o['ds'], o['ds'], o['m'], o['folds'], est)
                out, _ = quiet_op(sim, o['u'], lambda: find_optimal_kernel(B, X, yform[o['yf']](y), method=o['m'], **kw))
                if out[0] == 'ok':
                    attached = o['ds']
                    check_best(out[1], want, X, 'find_optimal_kernel')
                    sim.probe('selection-checked')
                    sim.nontrivial = sim.nontrivial or uses > 0
                else:
                    attached = None
                    expect(was_faulted(sim) or np.isnan(want).all() or (cv and np.isnan(want).any()),
                           'unexpected-failure', lambda: 'selection raised %r' % (out[1],))
            elif op == 'est':
                X, y = xy(o['ds'])
                if cfg['dss'][o['ds']].get('const'):
                    continue
                before = (B.size, [id(x) for x in B], B.num_samples, [x.num_samples for x in B],
                          [id(x.kernel) for x in B])
                cls = OptimalKernelSVR if o['reg'] else OptimalKernelSVC
                m = cls(k_bucket=B, method=o['m'])
                want = scores(o['ds'], o['ds'], o['m'], 3, 'SVR' if o['reg'] else 'SVC')
                out, _ = quiet_op(sim, o['u'], lambda: m.fit(X, y))
                after = (B.size, [id(x) for x in B], B.num_samples, [x.num_samples for x in B],
                         [id(x.kernel) for x in B])
                expect(before == after and m.k_bucket is B, 'bucket-altered', 'the bucket given was altered by fit')
                if attached is not None and B.num_samples is not None:
                    for i, x in enumerate(members):
                        if not np.isfinite(mats(attached)[i]).all():
                            continue
                        expect(close(x.full, mats(attached)[i]), 'bucket-altered',
                               lambda: 'matrix %d of the bucket given was altered by fit' % i)
                if out[0] == 'ok':
                    expect(not any(m.opt_kernel_ is x for x in members), 'bucket-altered',
                           'the selected kernel matrix is shared with the bucket given')
                    check_best(m.opt_kernel_, want, X, 'estimator fit (%s)' % o['m'], own=False)
                    sim.probe('estimator-checked')
                    sim.nontrivial = sim.nontrivial or uses > 0
                else:
                    expect(was_faulted(sim) or np.isnan(want).all() or
                           (o['m'].lower() != 'align/corr' and np.isnan(want).any()), 'unexpected-failure',
                           lambda: 'estimator with method %s raised %r' % (o['m'], out[1]))
            elif op == 'bad':
                X, y = xy(o['ds'])
                k = o['k']
                a = [B, X, y, 'align/corr']
                if k == 'len':
                    a[2] = y[:-1]
                elif k == 'method':
                    a[3] = 'nosuch'
                elif k == 'bucket':
                    a[0] = list(B)
                elif k == 'wrongn':
                    if B.num_samples is None:
                        continue
                    a[1], a[2] = X[:-1], y[:-1]
                elif k == '1d':
                    a[1] = X[:, 0]
                elif k == 'nany':
                    a[2] = np.where(np.arange(len(y)) == 1, np.nan, y.astype(float))
                out, _ = quiet_op(sim, o['u'], lambda: find_optimal_kernel(a[0], a[1], a[2], method=a[3]))
                if k != 'bucket':
                    attached = None
                if k != 'nany':
                    expect(out[0] == 'raise', 'not-refused', lambda: 'find_optimal_kernel accepted %s' % k)
            else:
                if B.num_samples is None:
                    continue
                for q, x in enumerate(members if o['i'] is None else [members[int(o['i'] * len(members))]]):
                    for r in o['rs']:
                        quiet_op(sim, '%s.%d%s' % (o['u'], q, r[0]), lambda: read(x, r))
            uses += 1
            expect(B.size == len(specs) and all(x is y for x, y in zip(B, members)), 'bucket-altered',
                   'members of the bucket changed')
            sim.state('C12', op, o.get('m'), uses, was_faulted(sim), len(specs))

        tids = sorted({o['tid'] for o in plan['ops'] if 'tid' in o})
        if tids and 'sched' in plan:
            ds = cfg['pds']
            B.attach_to(xy(ds)[0])
            wants = {j: scores(ds, j, 'align/corr', 3, None) for j in range(3)}

            def body(tid):
                def go(task):
                    for o in plan['ops']:
                        if o.get('tid') != tid:
                            continue
                        if o['op'] == 'pread':
                            sim.op(o['u'], lambda: read(members[int(o['i'] * len(members))], o['r']), task)
                            continue
                        y = yform[o['yf']](xy(o['y'])[1])
                        out = sim.op(o['u'], lambda: rank_kernels(B, y, method='align/corr'), task)
                        expect(out[0] == 'ok', 'unexpected-failure', lambda: 'ranking raised %r' % (out[1],))
                        got, want = np.asarray(out[1], float), wants[o['y']]
                        fin = np.isfinite(want)
                        expect(got.shape == want.shape and close(got[fin], want[fin], rtol=1e-6, scale=100.0),
                               'wrong-scores', lambda: 'concurrent ranking gave %s, expected %s' % (got, want))
                        sim.probe('concurrent-ranking-checked')
                        sim.nontrivial = True
                return go
            sim.threads([(t, body(t)) for t in tids], plan['sched'])


# ---------------------------------------------------------------- C13

PSD_SPECS = [['lin', {}], ['poly', {'degree': 2}], ['poly', {'degree': 3}], ['gauss', {'sigma': 2.0}],
             ['gauss', {'sigma': .5}], ['lap', {'gamma': 1.0}], ['chi2', {'gamma': 1.0}], ['tag', {'c': 2.0, 'd': 2}],
             ['fn', {'c': 1.0}]]


def fingerprint():
    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2], st[3], st[4]), random.getstate()


class C13:
    rule = ('each operation (matrix reads, rankings, selection, fits and predictions, validity checks, composites, '
            'similarities) runs twice, under different states of the global generators, the second time with foreign '
            'draws and reseedings injected at arbitrary points; non-trivial: an injection fired inside an operation')

    @staticmethod
    def gen(rng, tier):
        d = rng.choice([2, 2, 3, 3, 5])
        ops = []
        heavy = rng.random() < .1
        for _ in range(rng.choice([1, 2, 3])):
            k = rng.choices(['matrix', 'rank', 'find', 'machine', 'opt', 'psd', 'bucket', 'combo'],
                            [3, 2, 2, 3, 2 if not heavy else 4, 3, .7, 1])[0]
            o = {'op': k, 's1': rng.randrange(10 ** 6), 's2': rng.randrange(10 ** 6), 'reg': rng.random() < .5}
            o['ds'] = gen_data(rng, d, o['reg'])
            o['t'] = gen_test(rng, d)
            o['k'] = gen_kspec(rng)
            o['norm'] = rng.random() < .5
            o['b'] = gen_bucket(rng)
            o['m'] = 'cv_risk' if heavy else 'align/corr'
            if heavy:
                o['b'].update(poly=None, lap=None, btag=None, mtag=None, rbf=[1.0])
            o['psd'] = rng.randrange(len(PSD_SPECS))
            o['neg'] = rng.random() < .4
            o['negk'] = rng.randrange(3)
            ops.append(o)
        with_uids(ops)
        faults = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            faults.append({'kind': 'rng', 'exc': rng.choice(['draw', 'draw', 'seed']), 'val': rng.randrange(1000),
                           'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites'])})
        return {'cfg': {'d': d}, 'ops': ops, 'faults': faults}

    @staticmethod
    def work(o):
        """the operation; returns named results"""
        X, y = data(o['ds'])
        T = test_data(o['t'])
        op = o['op']
        if op == 'matrix':
            km = KernelMatrix(mk(o['k']), normalized=o['norm'])
            km.attach_to(X)
            res = {'full': km.full, 'frob': km.frob_norm, 'centered': km.centered, 'item': km[1, 0]}
            km.attach_to(X, sample_two=T)
            res['cross'] = km.full
            return res
        if op == 'rank':
            B = bucket(o['b'])
            B.attach_to(X)
            return {'scores': rank_kernels(B, y, method=o['m'], **(
                {} if o['m'] == 'align/corr' else {'estimator_name': 'SVR' if o['reg'] else 'SVC'}))}
        if op == 'find':
            B = bucket(o['b'])
            k = find_optimal_kernel(B, X, y, method=o['m'], **(
                {} if o['m'] == 'align/corr' else {'estimator_name': 'SVR' if o['reg'] else 'SVC'}))
            return {'selected': str(k.kernel), 'matrix': k.full}
        if op == 'machine':
            m = (KernelMachineRegressor if o['reg'] else KernelMachine)(k_func=mk(o['k']), normalized=o['norm'])
            m.fit(X, y)
            return {'predictions': m.predict(T), 'train': m.predict(X)}
        if op == 'opt':
            m = (OptimalKernelSVR if o['reg'] else OptimalKernelSVC)(k_bucket=bucket(o['b']), method=o['m'])
            m.fit(X, y)
            return {'selected': str(m.opt_kernel_.kernel), 'predictions': m.predict(T), 'sv': m.support_,
                    'dual': m.dual_coef_}
        if op == 'psd':
            k = [NegDist(), HalfValid(0), HalfValid(1)][o['negk']] if o['neg'] else mk(PSD_SPECS[o['psd']])
            return {'is_psd': bool(k.is_psd())}
        if op == 'bucket':
            from kernelmethods.sampling import ideal_kernel, make_kernel_bucket
            return {'names': [str(k.kernel) for k in make_kernel_bucket('light')], 'ideal': ideal_kernel(y)}
        from kernelmethods.base import AverageKernel, SumKernel
        from kernelmethods.sampling import pairwise_similarity
        B = bucket(o['b'])
        B.attach_to(X)
        a, s = AverageKernel(B), SumKernel(B)
        a.fit()
        s.fit()
        return {'avg': a.full, 'sum': s.full, 'pair': pairwise_similarity(B, metric='align')}

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        for o in plan['ops']:
            states, res = [], []
            for i, (uid, seed) in enumerate((('base.' + o['u'], o['s1']), (o['u'], o['s2']))):
                np.random.seed(seed)
                random.seed(seed + 1)
                out, _ = quiet_op(sim, uid, lambda: C13.work(o))
                expect(out[0] == 'ok', 'unexpected-failure', lambda: '%s raised %r' % (o['op'], out[1]))
                states.append(fingerprint())
                res.append(out[1])
            fired = list(sim.main.fired)
            if not any(f['exc'] == 'seed' for f in fired) and o['s1'] != o['s2']:
                expect(states[0][0] != states[1][0], 'reset', lambda: '%s put the generator of numpy into a fixed state'
                       % o['op'])
                expect(states[0][1] != states[1][1], 'reset', lambda: '%s put the generator of random into a fixed '
                       'state' % o['op'])
            for name in res[0]:
                a, b = res[0][name], res[1][name]
                if isinstance(a, (str, bool, list)):
                    same = a == b
                else:
                    same = np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)
                expect(same, 'depends-on-rng', lambda: '%s: %s is %s or %s, depending on the random state' % (
                    o['op'], name, brief(a) if not isinstance(a, (str, bool, list)) else a,
                    brief(b) if not isinstance(b, (str, bool, list)) else b))
            if o['op'] == 'psd':
                expect(res[0]['is_psd'] is (not o['neg']), 'wrong-verdict', lambda: 'is_psd() of %s is %s' % (
                    ['negdist', '1-d^2/2', 'indefinite form'][o['negk']] if o['neg'] else PSD_SPECS[o['psd']], res[0]['is_psd']))
            if fired:
                sim.nontrivial = True
                sim.probe('rng-perturbed:' + o['op'])
            sim.state('C13', o['op'], len(fired), o['norm'])
