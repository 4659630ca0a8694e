"""Kernel functions supplied by the harness (the "user code" of the simulation), sample makers and
independent formulas.  Import only after core.load()."""
import numpy as np

import core
from kernelmethods.base import BaseKernelFunction, KernelFromCallable
from kernelmethods import numeric_kernels as nk
from kernelmethods.categorical import MatchCountKernel

BAD = {'nan': float('nan'), 'inf': float('inf'), 'ninf': float('-inf')}


def _hook(name, x, y):
    """kernel evaluation seam: faults, schedule point, evaluation log"""
    t = core.current()
    if t is None or not t.active:
        return None, None
    return t, t.kernel(name)


def _log(t, name, x, y, val):
    if t is not None:
        t.sim.evals.append((t.op, name, _rid(x), _rid(y), val))


def _rid(v):
    a = np.asarray(v).ravel()
    return float(a[0]) if a.size and a.dtype.kind in 'ifu' else None


def _ret(val, rt):
    if rt == 'np':
        return np.float64(val)
    if rt == '0d':
        return np.array(float(val))
    if rt == 'i' and float(val).is_integer():
        return int(val)
    return float(val)


class Tag(BaseKernelFunction):
    """(<x, y> + c) ** d"""

    def __init__(self, c=2.0, d=1, rt='f', mute=False, skip_input_checks=False):
        super().__init__(name='tag')
        self.c, self.d, self.rt = c, d, rt
        self.mute = mute        # does not say its parameters
        self.skip_input_checks = skip_input_checks

    def __call__(self, x, y):
        t, over = _hook('tag', x, y)
        if over is not None:
            v = BAD[over['exc']]
            _log(t, str(self), x, y, v)
            return v
        v = _ret((np.dot(np.asarray(x, float), np.asarray(y, float)) + self.c) ** self.d, self.rt)
        _log(t, str(self), x, y, float(v))
        return v

    def __str__(self):
        return 'tag' if self.mute else 'tag(c={},d={})'.format(self.c, self.d)


class Wrap(BaseKernelFunction):
    """a library kernel called through the seam"""

    def __init__(self, inner):
        super().__init__(name='wrap')
        self.inner = inner

    def __call__(self, x, y):
        t, over = _hook('wrap', x, y)
        v = BAD[over['exc']] if over is not None else self.inner(x, y)
        _log(t, str(self), x, y, float(v))
        return v

    def __str__(self):
        return 'wrap({})'.format(str(self.inner))


def fn_tag(x, y, c=2.0, d=1):
    t, over = _hook('fn_tag', x, y)
    v = BAD[over['exc']] if over is not None else \
        float(np.dot(np.asarray(x, float), np.asarray(y, float)) + c) ** d
    _log(t, 'fn', x, y, v)
    return v


class HalfValid(BaseKernelFunction):
    """indefinite on many points, but not always on a handful: 1 - |x-y|^2 / 2, or an indefinite bilinear form"""

    def __init__(self, s=0, skip_input_checks=False):
        super().__init__(name='halfvalid')
        self.s = s

    def __call__(self, x, y):
        _hook('halfvalid', x, y)
        x, y = np.asarray(x), np.asarray(y)
        if self.s:
            return float(np.dot(x, y)) - .3 * float(np.sum(x)) * float(np.sum(y))
        return 1.0 - .5 * float(np.sum((x - y) ** 2))

    def __str__(self):
        return 'halfvalid'


class NegDist(BaseKernelFunction):
    """clearly not PSD"""

    def __init__(self, s=1.0, skip_input_checks=False):
        super().__init__(name='negdist')
        self.s = s

    def __call__(self, x, y):
        _hook('negdist', x, y)
        return -self.s * float(np.sum((np.asarray(x) - np.asarray(y)) ** 2)) - 1.0

    def __str__(self):
        return 'negdist'


class Picky(BaseKernelFunction):
    """a kernel that refuses some parameter values, and whose constructor can be made to fail"""

    def __init__(self, q=1, other=0, skip_input_checks=False):
        t = core.current()
        if t is not None and t.active:
            t.ctor('picky')
        if isinstance(q, str):
            raise TypeError('q must be a number')
        if q < 0:
            raise ValueError('q must not be negative')
        if q == 13:
            raise ZeroDivisionError('13')
        if q == 14:
            raise KeyError('14')
        if q == 15:
            raise AssertionError()
        if q == 16:
            raise StopIteration()
        if q == 17:
            raise MemoryError('17')
        if q == 18:
            raise UserWarning('18')
        super().__init__(name='picky')
        self.q = q
        self.other = other
        self.skip_input_checks = skip_input_checks

    def __call__(self, x, y):
        return float(np.dot(x, y)) + self.q

    def __str__(self):
        return 'picky({})'.format(self.q)


_LIB = {'lin': nk.LinearKernel, 'poly': nk.PolyKernel, 'gauss': nk.GaussianKernel,
        'lap': nk.LaplacianKernel, 'chi2': nk.Chi2Kernel, 'sig': nk.SigmoidKernel,
        'had': nk.HadamardKernel, 'match': MatchCountKernel}


def mk(spec):
    """kernel object from a JSON spec [kind, params]"""
    kind, p = spec[0], dict(spec[1])
    if kind == 'tag':
        return Tag(**p)
    if kind == 'fn':
        return KernelFromCallable(fn_tag, **p)
    if kind == 'neg':
        return NegDist(**p)
    if kind.startswith('w:'):
        return Wrap(_LIB[kind[2:]](**p))
    return _LIB[kind](**p)


def formula(spec):
    """the same kernel, written down independently of the library"""
    kind, p = spec[0], dict(spec[1])
    kind = kind[2:] if kind.startswith('w:') else kind

    def num(f):
        return lambda x, y: float(f(np.asarray(x, float), np.asarray(y, float)))

    if kind in ('tag', 'fn'):
        c, d = p.get('c', 2.0), p.get('d', 1)
        return num(lambda x, y: (x @ y + c) ** d)
    if kind == 'neg':
        s = p.get('s', 1.0)
        return num(lambda x, y: -s * ((x - y) ** 2).sum() - 1.0)
    if kind == 'lin':
        return num(lambda x, y: x @ y)
    if kind == 'poly':
        g, b, d = p.get('gamma', 1.0), p.get('b', 1.0), p.get('degree', 3)
        return num(lambda x, y: (b + g * (x @ y)) ** d)
    if kind == 'gauss':
        s = p.get('sigma', 2.0)
        return num(lambda x, y: np.exp(-((x - y) ** 2).sum() / (2 * s ** 2)))
    if kind == 'lap':
        g = p.get('gamma', 1.0)
        return num(lambda x, y: np.exp(-g * np.abs(x - y).sum()))
    if kind == 'chi2':
        g = p.get('gamma', 1.0)

        def chi2(x, y):
            s = x + y
            ok = s != 0
            return np.exp(-g * ((x - y)[ok] ** 2 / s[ok]).sum())
        return num(chi2)
    if kind == 'sig':
        g, o = p.get('gamma', 1.0), p.get('offset', 1.0)
        return num(lambda x, y: np.tanh(o + g * (x @ y)))
    if kind == 'had':
        a = p.get('alpha', 3)

        def had(x, y):
            u, v = np.abs(x) ** a, np.abs(y) ** a
            den = 2 * (u + v)
            ok = den > 0
            return ((u * v)[ok] / den[ok]).sum()
        return num(had)
    if kind == 'match':
        perc = p.get('return_perc', True)

        def match(x, y):
            n = sum(1 for a, b in zip(x, y) if a == b)
            return n / len(x) if perc else float(n)
        return match
    raise KeyError(kind)


# ---------------------------------------------------------------- samples

def sample(spec):
    """ndarray from a JSON spec {k, n, d, s, form}"""
    k, n, d = spec['k'], spec['n'], spec['d']
    r = np.random.RandomState(spec['s'])
    if k == 'int':
        X = r.randint(-3, 4, size=(n, d))
    elif k in ('u1', 'i1', 'i2'):       # images, counts
        lo, hi = {'u1': (0, 256), 'i1': (-128, 128), 'i2': (-400, 400)}[k]
        X = r.randint(lo, hi, size=(n, d)).astype(k)
    elif k == 'flt':
        X = np.round(r.randn(n, d), 3)
    elif k == 'f32':
        X = (r.randint(-8, 9, size=(n, d)) / 4.0).astype(np.float32)   # sums of products are exact
    elif k == 'pos':
        X = np.round(np.abs(r.randn(n, d)) + 0.05, 3)
    elif k == 'dup':
        X = np.round(r.randn(n, d), 2)
        for i in range(1, n):
            if r.rand() < 0.5:
                X[i] = X[r.randint(0, i)]
    elif k == 'zero':
        X = np.round(r.randn(n, d), 2)
        X[r.randint(0, n)] = 0
    elif k == 'big':
        X = np.round(r.randn(n, d) * 1e3, 1)
    elif k == 'small':
        X = np.round(r.randn(n, d) * 0.02, 5)
    elif k == 'id':
        X = r.randint(-2, 3, size=(n, d)).astype(float)
        X[:, 0] = spec.get('id0', 1) + np.arange(n)
    elif k == 'str':
        X = r.choice(list('abc'), size=(n, d))
    else:
        raise KeyError(k)
    form = spec.get('form', 'C')
    if form == 'F':
        X = np.asfortranarray(X)
    elif form == 'view':
        big = np.zeros((2 * n, d), dtype=X.dtype)
        big[::2] = X
        X = big[::2]
    elif form == 'ro':
        X = X.copy()
        X.setflags(write=False)
    elif form == '3d':
        X = X.reshape(n, d, 1)
    return X


def rand_sample(rng, n, d, kinds=None, forms=('C', 'C', 'C', 'F', 'view', 'ro', '3d')):
    k = rng.choice(kinds or ['int', 'flt', 'flt', 'f32', 'pos', 'dup', 'zero', 'big', 'small', rng.choice(['u1', 'u1', 'i1', 'i2'])])
    return {'k': k, 'n': n, 'd': d, 's': rng.randrange(10 ** 6), 'form': rng.choice(list(forms))}


def rand_kernel(rng, kinds=('num',), seam=0.7, rts=('f', 'f', 'np', '0d', 'i')):
    """a random kernel spec; kinds: num (any real data), pos, str"""
    k = rng.choice(list(kinds))
    if k == 'str':
        name, p = 'match', {'return_perc': rng.random() < .5}
    else:
        name = rng.choice(['tag', 'tag', 'fn', 'lin', 'poly', 'gauss', 'lap', 'sig', 'had'] +
                          (['chi2', 'chi2'] if k == 'pos' else []))
        if name == 'tag':
            return ['tag', {'c': rng.choice([1.0, 2.0, 3.0, 5.0, 7.5]), 'd': rng.choice([1, 1, 2]),
                            'rt': rng.choice(list(rts)), 'mute': rng.random() < .25}]
        if name == 'fn':
            return ['fn', {'c': rng.choice([1.0, 2.5, 4.0])} if rng.random() < .7 else {}]
        p = {'lin': lambda: {}, 'poly': lambda: {'degree': rng.choice([2, 3]), 'gamma': rng.choice([.5, 1.0]),
                                                 'b': rng.choice([1.0, 2.0])},
             'gauss': lambda: {'sigma': rng.choice([.5, 1.0, 2.0, 4.0])},
             'lap': lambda: {'gamma': rng.choice([.25, .5, 1.0])},
             'chi2': lambda: {'gamma': rng.choice([.5, 1.0])},
             'sig': lambda: {'gamma': rng.choice([.25, .5]), 'offset': rng.choice([1.0, 2.0])},
             'had': lambda: {'alpha': rng.choice([1, 2, 3])}}[name]()
        if name != 'lin' and rng.random() < .1:
            p = {}
    return [('w:' if rng.random() < seam else '') + name, p]
