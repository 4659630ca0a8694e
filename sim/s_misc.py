"""Interrupts, copies and pickles, the PSD check: C14 C15 C16."""
import copy
import os
import pickle
import struct
import warnings

import numpy as np

import core
from core import HarnessError, Violation
from kernels import NegDist, Picky, Tag
from kmops import (attach, build, check_value, formula, full_check, gen_attach, gen_read, judge, kinds_for, mk, quiet_op,
                   rand_kernel, rand_sample, read, shape_of, was_faulted)
from model import NormErr, Ref, brief, close, expect
from s_est import as_type
from s_est import (C10, Model, bucket, data, gen_bucket, gen_data, gen_kspec, gen_par, gen_test, make, test_data)
from s_km import SCHED_FAULTS, weights, with_uids
from s_set import sym
from kernelmethods import numeric_kernels as nk
from kernelmethods import operations as kops
from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor, OptimalKernelSVC, OptimalKernelSVR
from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelFromCallable, KernelMatrix,
                                KernelMatrixPrecomputed, KernelSet, ProductKernel, SumKernel, WeightedAverageKernel)
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.ranking import find_optimal_kernel, get_estimator, rank_kernels
from kernelmethods.sampling import (KernelBucket, correlation_km, ideal_kernel, make_kernel_bucket,
                                    pairwise_similarity)


# ---------------------------------------------------------------- C14

def _fn(x, y):
    return float(np.dot(x, y))


def cast(X, o):
    xt = o.get('xt')
    if xt == 'u1':
        return np.clip(np.abs(np.round(90 * X)) + 1, 1, 255).astype(np.uint8)
    return as_type(X, xt)


def _km(o, n=3, two=False, norm=None):
    km = KernelMatrix(mk(o['k']), normalized=o['norm'] if norm is None else norm)
    X = cast(np.random.RandomState(o['s']).randn(n, 3), o)
    if two:
        km.attach_to(X, sample_two=cast(np.random.RandomState(o['s'] + 1).randn(n + o['s'] % 3 - 1, 3), o))
    else:
        km.attach_to(X)
    return km


def _set(o, pre=False):
    ks = [_km(o, 3), _km(dict(o, k=['tag', {'c': 3.0}]), 3)]
    return KernelSet(ks + ([KernelMatrixPrecomputed(sym(3, o['s']))] if pre else []))


def _attached_bucket(o):
    B = bucket(o['b'])
    X, y = data(o['ds'])
    B.attach_to(X)
    return B, y


def _fitted(o, reg, opt):
    X, y = data(o['ds'])
    if opt:
        m = (OptimalKernelSVR if reg else OptimalKernelSVC)(k_bucket=bucket(o['b']), method='align/corr')
    else:
        m = (KernelMachineRegressor if reg else KernelMachine)(k_func=mk(o['k']), normalized=o['norm'])
    return m, X, y


def c14_ops():
    """name -> prepare(o) -> the operation (a callable)"""
    def kmread(o):
        two = o['s'] % 4 == 0
        km = _km(o, 3, two)
        r = o['r']
        if o['s'] % 3 == 0:
            try:
                read(km, o['r2'], km.shape)
            except Exception:
                pass
        return lambda: read(km, r, km.shape)

    def kattach(o):
        km = _km(o, 3)
        X = np.random.RandomState(o['s']).randn(4, 3)
        return lambda: km.attach_to(X) if o['s'] % 2 else km.attach_to(X, sample_two=X)

    def precomp(o):
        A = sym(4, o['s'])

        def go():
            P = KernelMatrixPrecomputed(A if o['s'] % 3 else A.tolist(), name='x' if o['s'] % 2 else None)
            return P.full, P.diag, P.size, len(P), str(P), repr(P), P[0, 1], P[:, 2]
        return go

    def precompitem(o):
        P = KernelMatrixPrecomputed(sym(4, o['s']))
        ix = [(0, 1), (slice(None), 0), (9, 9), 'x', ([0, 1], [1, 2]), None, (0, 0, 0)][o['s'] % 7]
        return lambda: P[ix]

    def const(o):
        C = ConstantKernelMatrix(4, 1.5)
        return lambda: (C.full, C.diag, C[0, 1], C[:, 0], C[[0, 1], 2], str(C), len(C), C.shape)

    def setops(o):
        S = _set(o)
        T = _set(o)
        which = o['s'] % 8
        X = np.random.RandomState(o['s']).randn(3, 3)
        return [lambda: S.append(sym(3, 1)), lambda: S.extend(T), lambda: S.take([0, 1]), lambda: S.set_attr('a', [1, 2]),
                lambda: S.attach_to(X, attr_name='q', attr_value=1), lambda: (str(S), repr(S), list(S), len(S), S[0]),
                lambda: list(S.get_kernel_funcs([0, 1])), lambda: KernelSet([_km(o), _km(o)])][which]

    def comp(o):
        S = _set(o, True)
        c = [SumKernel(S), ProductKernel(S), AverageKernel(S), WeightedAverageKernel(S, [1, 2, 3])][o['s'] % 4]
        w = [1.0, 2.0, 3.0]
        return lambda: (c.fit(w) if o['s'] % 8 == 0 else c.fit(), c.full, str(c))

    def lincomb(o):
        S = _set(o)
        return lambda: kops.linear_combination(S, [1, 2], norm_weights=bool(o['s'] % 2))

    def mkbucket(o):
        if o['s'] % 3 == 0:
            return lambda: make_kernel_bucket('light')
        if o['s'] % 3 == 1:
            return lambda: bucket(o['b'])
        return lambda: KernelBucket(poly_degree_values=[2, 'bad', 3], rbf_sigma_values=[1.0, -1.0, 2.0])

    def addpar(o):
        B = bucket(o['b'])
        vals = [[1, 2, 3], [1, -1, 2], ['x', 13, 4], [14, 1], (5,)][o['s'] % 5]
        return lambda: B.add_parametrized_kernels(Picky, 'q', vals)

    def rank(o):
        B, y = _attached_bucket(o)
        return lambda: rank_kernels(B, y, method='align/corr')

    def rankcv(o):
        B, y = _attached_bucket(o)
        return lambda: rank_kernels(B, y, method='cv_risk', estimator_name='SVR' if o['ds']['reg'] else 'SVC')

    def find(o):
        B = bucket(o['b'])
        X, y = data(o['ds'])
        return lambda: find_optimal_kernel(B, X, y, method='align/corr')

    def fit(opt):
        def prep(o):
            m, X, y = _fitted(o, o['ds']['reg'], opt)
            if o['s'] % 3 == 0:
                m.fit(X, y)
            return lambda: m.fit(X, y)
        return prep

    def fitlight(o):
        X, y = data(o['ds'])
        m = (OptimalKernelSVR if o['ds']['reg'] else OptimalKernelSVC)(
            k_bucket='light' if o['s'] % 3 else 'nosuch', method='align/corr')
        return lambda: m.fit(X, y)

    def predict(opt):
        def prep(o):
            m, X, y = _fitted(o, o['ds']['reg'], opt)
            m.fit(X, y)
            T = test_data(o['t'])
            return lambda: m.predict(T)
        return prep

    def params(o):
        m, X, y = _fitted(o, o['ds']['reg'], bool(o['s'] % 2))
        return lambda: m.set_params(**m.get_params())

    def psd(o):
        A = sym(4, o['s']) if o['s'] % 2 else np.diag([1.0, -1.0, 2.0])
        return lambda: kops.is_PSD(A, verbose=bool(o['s'] % 3 == 0))

    def kpsd(o):
        k = mk(o['k'])
        return lambda: k.is_psd()

    def opers(o):
        A, B = sym(4, o['s']), sym(4, o['s'] + 1)
        bad = np.zeros((3, 3))
        return [lambda: kops.center_km(A), lambda: kops.normalize_km(A), lambda: kops.normalize_km(bad),
                lambda: kops.normalize_km(A, method='nosuch'), lambda: kops.normalize_km_2sample(
                    A, np.diag(A), np.diag(A)), lambda: kops.frobenius_norm(A), lambda: kops.alignment_centered(A, B),
                lambda: kops.alignment_centered(A, np.ones((4, 4)), value_if_zero_division=0.0),
                lambda: correlation_km(A, B), lambda: ideal_kernel(np.array([1, 2, 3])),
                lambda: get_estimator('svr'), lambda: kops.frobenius_product(A, B)][o['s'] % 12]

    def pairwise(o):
        B, y = _attached_bucket(o)
        return lambda: pairwise_similarity(B, metric='corr' if o['s'] % 2 else 'align')

    def kfunc(o):
        x, y = np.arange(1.0, 4), np.array([2.0, 1.0, .5])
        ks = [nk.LinearKernel(), nk.PolyKernel(), nk.GaussianKernel(), nk.LaplacianKernel(), nk.Chi2Kernel(),
              nk.SigmoidKernel(), nk.HadamardKernel(), KernelFromCallable(_fn)]
        k = ks[o['s'] % len(ks)]
        if o['s'] % 5 == 0:
            return lambda: (k(list(x), list(y)), str(k), '{}'.format(k), repr(k))
        return lambda: k(x, y)

    def convert(o):
        from kernelmethods.utils import check_input_arrays, ensure_ndarray_1D, ensure_ndarray_2D
        x, y = np.array(['1', '2', '3']), np.array([1, 2.5, 3], dtype=object)
        X = np.array([['1', '2'], ['3', '4']])
        ks = [nk.LinearKernel(), nk.PolyKernel(), nk.GaussianKernel(), nk.LaplacianKernel(), nk.HadamardKernel()]
        k = ks[o['s'] % len(ks)]
        x = [x, y, x.tolist(), (1, 2, 3), np.array([1, 2, 3], dtype=np.int8)][o['s'] // 7 % 5]
        fs = [lambda: k(x, y), lambda: ensure_ndarray_1D(x, np.float64), lambda: ensure_ndarray_2D(X, np.float64),
              lambda: ensure_ndarray_2D(X.astype(object)), lambda: check_input_arrays(x, y, ensure_dtype=np.number),
              lambda: ensure_ndarray_1D(x)]
        return fs[o['s'] // 50 % len(fs)]

    def kctor(o):
        cls = [nk.LinearKernel, nk.PolyKernel, nk.GaussianKernel, nk.LaplacianKernel, nk.Chi2Kernel, nk.SigmoidKernel,
               nk.HadamardKernel, MatchCountKernel][o['s'] % 8]
        return lambda: (cls(), KernelFromCallable(_fn))

    def match(o):
        k = MatchCountKernel(return_perc=bool(o['s'] % 2))
        return lambda: k(np.array(['a', 'b']), np.array(['a', 'c']))

    def strings(o):
        km = _km(o)
        return lambda: (str(km), repr(km), len(km), km.size, km.num_samples, km.attributes())

    return {'kmread': (kmread, 6), 'attach': (kattach, 2), 'precomp': (precomp, 1), 'precompitem': (precompitem, 1),
            'const': (const, 1), 'setops': (setops, 3), 'comp': (comp, 2), 'lincomb': (lincomb, 1),
            'mkbucket': (mkbucket, 1), 'addpar': (addpar, 2), 'rank': (rank, 1.5), 'rankcv': (rankcv, .25),
            'find': (find, 1.5), 'fit': (fit(False), 2), 'optfit': (fit(True), 2), 'fitlight': (fitlight, .5),
            'predict': (predict(False), 1.5), 'optpredict': (predict(True), 1.5), 'params': (params, .5),
            'psd': (psd, 2), 'kpsd': (kpsd, 1), 'opers': (opers, 2), 'pairwise': (pairwise, 1), 'kfunc': (kfunc, 1.5),
            'kctor': (kctor, .7), 'convert': (convert, .8), 'match': (match, .5), 'strings': (strings, .5)}


C14_OPS = c14_ops()


class C14:
    rule = ('each run draws 2-5 public operations of any module (28 kinds) and interrupts each of them with '
            'KeyboardInterrupt or SystemExit at a seeded point inside it: at a bytecode-level point of the package, in '
            'the user kernel, in a kernel constructor, in the eigen solver; non-trivial: an interrupt fired')

    @staticmethod
    def gen(rng, tier):
        names = sorted(C14_OPS)
        ops = []
        d = rng.choice([2, 2, 3, 3, 5])
        for _ in range(rng.choice([2, 3, 5])):
            nm = rng.choices(names, [C14_OPS[x][1] for x in names])[0]
            reg = rng.random() < .5
            o = {'op': nm, 's': rng.randrange(1000), 'k': gen_kspec(rng), 'norm': rng.random() < .5,
                 'b': gen_bucket(rng), 'ds': gen_data(rng, d, reg), 't': gen_test(rng, d),
                 'r': gen_read(rng, (3, 3), False), 'r2': gen_read(rng, (3, 3), False)}
            if nm == 'rankcv':
                o['b'].update(poly=None, lap=None, btag=[2.0], rbf=None)
            ops.append(o)
        with_uids(ops)
        faults = []
        for o in ops:
            kind = 'intr'
            if rng.random() < .25:
                kind = {'psd': 'eig', 'kpsd': 'eig', 'addpar': 'ctor'}.get(o['op'], 'kerr')
            f = {'kind': kind, 'exc': rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'SystemExit']),
                 'f1': 0, 'f2': rng.random(), 'mode': rng.choice(['ops', 'sites']), 'only': [o['u']]}
            if rng.random() < .2:
                f['f2'] = rng.choice([0.0, .999999])
            faults.append(f)
        return {'cfg': {}, 'ops': ops, 'faults': faults}

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        for o in plan['ops']:
            work = C14_OPS[o['op']][0](o)
            with open(os.devnull, 'w') as null:
                import contextlib
                with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                    out, _ = quiet_op(sim, o['u'], work)
            if not sim.main.fired:
                expect(out[0] == 'ok' or isinstance(out[1], Exception), 'wrong-exception', repr(out[1]))
                continue
            f = sim.main.fired[-1]
            where = sim.fired[-1][3]
            expect(out[0] == 'raise', 'swallowed', lambda: '%s injected in %s (at %s) was swallowed: the operation '
                   'returned %s' % (f['exc'], o['op'], where, str(out[1])[:100]))
            expect(out[1] is sim.main.last_exc, 'replaced', lambda: '%s injected in %s (at %s) came out as %r' % (
                f['exc'], o['op'], where, out[1]))
            sim.nontrivial = True
            sim.probe('interrupted:' + o['op'])
            sim.state('C14', o['op'], f['kind'], f['exc'], where)


# ---------------------------------------------------------------- C16

class C16:
    rule = ('each run checks 2-5 matrices of known spectrum (built as Q diag Q^T), non-finite, huge, non-square or '
            'asymmetric ones, or kernels, some with the eigen solver failing (no convergence, invalid input, no memory, '
            'NaN or minus infinite eigenvalues) in every attempt; non-trivial: a solver fault fired')

    @staticmethod
    def gen(rng, tier):
        ops = []
        for _ in range(rng.choice([2, 3, 5])):
            k = rng.choices(['spec', 'kernel', 'odd', 'kernelneg'], [6, .8, 3, .3])[0]
            o = {'op': k, 's': rng.randrange(10 ** 6), 'n': rng.choice([1, 2, 3, 5, 8, 20]),
                 'verbose': rng.random() < .4}
            o['tol'] = rng.choice([None, None, 1e-6, 1e-3, 1e-9, 1.0])
            tol = o['tol'] or 1e-6
            o['eig'] = rng.choice([['min', rng.choice([-1.0, -10 * tol, -3 * tol, -.3 * tol, 0.0, 1e-8, .5, 3.0])]])
            o['many'] = rng.choice([0, 0, 1, 3])
            o['scale'] = rng.choice([1.0, 1.0, 10.0])
            o['odd'] = rng.choice(['inf', 'ninf', 'nan', 'rect', 'asym', 'huge', 'infdiag', 'list', 'allinf', 'denorm',
                                   'int', 'f32'])
            o['k'] = rng.randrange(8)
            ops.append(o)
        with_uids(ops)
        faults = []
        for o in ops:
            if rng.random() < .6:
                faults.append({'kind': 'eig', 'exc': rng.choice(['LinAlgError', 'ValueError', 'MemoryError', 'nan', 'nan',
                                                                 'ninf', 'RuntimeError', 'FloatingPointError',
                                                                 'TypeError']),
                               'every': True, 'pos': rng.randrange(20), 'f1': 0, 'f2': 0, 'mode': 'ops',
                               'only': [o['u']]})
        return {'cfg': {}, 'ops': ops, 'faults': faults}

    @staticmethod
    def matrix(o):
        """(matrix, verdict or None when the property does not say, args are valid)"""
        n, r = o['n'], np.random.RandomState(o['s'])
        tol = o['tol'] or 1e-6
        if o['op'] == 'spec':
            lam = np.abs(r.randn(n)) * o['scale'] + .01
            lam[0] = o['eig'][1]
            for j in range(1, min(n, 1 + o['many'])):
                lam[j] = abs(lam[j]) if o['eig'][1] >= 0 else o['eig'][1] * (1 + j)
            Q, _ = np.linalg.qr(r.randn(n, n))
            A = (Q * lam) @ Q.T
            A = (A + A.T) / 2
            gap = 1e-13 * np.abs(lam).max() * n * 50
            if lam.min() < -tol - gap:
                return A, False
            if lam.min() > -tol + gap:
                return A, True
            return A, None
        A = sym(max(2, n), o['s'] % 1000)
        k = o['odd']
        if k == 'inf':
            A[0, -1] = A[-1, 0] = np.inf
        elif k == 'ninf':
            A[0, 0] = -np.inf
        elif k == 'nan':
            A[0, -1] = A[-1, 0] = np.nan
        elif k == 'rect':
            return np.ones((3, 4)), False
        elif k == 'asym':
            A[0, -1] += 1.0
        elif k == 'huge':
            return A * 1e300, None
        elif k == 'infdiag':
            A[0, 0] = np.inf
        elif k == 'allinf':
            A[:] = np.inf
        elif k == 'list':
            return A.tolist(), 'TypeError'
        elif k == 'denorm':
            return np.eye(len(A)) * 1e-310, True
        elif k == 'int':
            return np.array([[2, 1], [1, 2]]), True
        elif k == 'f32':
            return (np.eye(3) * 2).astype(np.float32), True
        return A, False

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        import contextlib
        for o in plan['ops']:
            if o['op'] in ('kernel', 'kernelneg'):
                k = NegDist() if o['op'] == 'kernelneg' else [
                    nk.LinearKernel(), nk.GaussianKernel(), nk.LaplacianKernel(), nk.PolyKernel(2), nk.Chi2Kernel(), Tag(),
                    Tag(c=1.0, d=2), KernelFromCallable(_fn)][o['k']]
                want = o['op'] == 'kernel'
                work = lambda: k.is_psd()          # noqa: E731
            else:
                A, want = C16.matrix(o)
                kw = {} if o['tol'] is None else {'tolerance': o['tol']}
                if o['verbose']:
                    kw['verbose'] = True
                A0 = copy.deepcopy(A)
                work = lambda: (kops.is_PSD if o['s'] % 2 else kops.is_positive_semidefinite)(A, **kw)  # noqa: E731
            with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
                out, _ = quiet_op(sim, o['u'], work)
            what = '%s (%s%s)' % (o['op'], o['odd'] if o['op'] == 'odd' else '', o['eig'])
            if want == 'TypeError':
                expect(out[0] == 'raise' and isinstance(out[1], TypeError), 'not-refused', 'a list was accepted')
                continue
            fired = list(sim.main.fired)
            expect(out[0] == 'ok', 'raised', lambda: '%s: the check raised %r%s' % (
                what, out[1], ', eigen solver: ' + fired[0]['exc'] if fired else ''))
            got = out[1]
            expect(isinstance(got, (bool, np.bool_)), 'wrong-form', lambda: '%s: the answer is %r' % (what, got))
            if fired:
                sim.nontrivial = True
                sim.probe('solver-' + fired[0]['exc'])
                expect(not got, 'certified', lambda: '%s: True although the eigenvalue computation %s' % (
                    what, {'nan': 'gave NaN', 'ninf': 'gave -infinity'}.get(
                        fired[0]['exc'], 'raised ' + fired[0]['exc'])))
            elif sim.main.eig_bad:
                expect(not got, 'certified', what + ': True although the solver gave NaN or -infinity')
            elif want is not None:
                expect(bool(got) == want, 'wrong-verdict', lambda: '%s: %s, expected %s' % (what, got, want))
            sim.state('C16', o['op'], o['odd'] if o['op'] == 'odd' else o['eig'][1], len(fired), bool(got))
