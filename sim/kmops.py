"""Reads of kernel matrices: generation, execution against the library, judgement against the model."""
import warnings

import numpy as np
from scipy.sparse import issparse

import core
from core import Violation
from kernels import formula, mk, rand_kernel, rand_sample, sample
from model import NormErr, Ref, brief, close, expect
from kernelmethods.base import KernelMatrix
from kernelmethods.config import KernelMethodsWarning


# ---------------------------------------------------------------- generation

def gen_index(rng, n, full_p=0.15, wide=False):
    k = rng.random()
    if wide and full_p < 1 and rng.random() < .2:
        a = rng.randrange(1, n + 1)
        x = rng.choice(['neg', 'back', 'end', 'far', 'gen', 'fs', 'i32', 'u8'])
        if x == 'neg':
            return ['s', -a, rng.choice([None, n + 5]), rng.choice([None, 1, 3])]
        if x == 'back':
            return ['s', rng.choice([None, n - 1, n + 3]), None, rng.choice([-1, -1, -2])]
        if x == 'end':
            return ['s', rng.choice([None, 0, -n]), rng.choice([-a + 1 or None, n]), None]
        if x == 'far':
            return ['s', rng.choice([None, rng.randrange(n)]), 10 ** 6, rng.choice([None, 3, n])]
        return [x, [rng.randrange(n) for _ in range(a)]]
    if wide and full_p == 1 and rng.random() < .15:
        return rng.choice([['s', None, None, -1], ['s', -n, None, None], ['gen', list(range(n))],
                           ['i32', list(range(n - 1, -1, -1))], ['s', None, n + 2, None]])
    if k < full_p:
        return rng.choice([['s', None, None, None], ['l', list(range(n))], ['r', 0, n], ['s', 0, n, 1],
                           ['a', list(range(n - 1, -1, -1))]])
    k = rng.random()
    if k < 0.25:
        return rng.randrange(n)
    if k < 0.33:
        return ['np', rng.randrange(n)]
    if k < 0.6:
        a = rng.randrange(n)
        b = rng.randrange(a + 1, n + 2)
        return ['s', rng.choice([a, a, None]), b, rng.choice([None, None, 1, 2])]
    m = rng.randrange(1, n + 1)
    ids = [rng.randrange(n) for _ in range(m)]
    return [rng.choice(['l', 't', 'a', 'set', 'l']), ids]


BADS = ['str', 'neg', 'over', 'three', 'float', 'none', 'empty', 'emptyslice', 'linover', 'linneg', 'onlist',
        'strdim', 'nonedim', 'overlist', 'neglist', 'floatlist', 'boolidx', 'overcol', 'dict']


def gen_read(rng, shape, two, w=None):
    """one read of an attached matrix"""
    n, m = shape
    w = w or {}
    kinds = ['elem', 'lin', 'idx', 'full', 'sparse', 'diag', 'normed', 'normalize', 'centered', 'center',
             'frob', 'meta', 'all', 'bad']
    wt = [w.get(k, d) for k, d in zip(kinds, [6, 3, 8, 6, 4, 3, 4, 1.5, 3, 1, 4, 2, 3, 2])]
    k = rng.choices(kinds, wt)[0]
    if k == 'elem':
        return ['elem', rng.randrange(n), rng.randrange(m)]
    if k == 'lin':
        return ['lin', rng.randrange(n * m)]
    if k == 'idx':
        return ['idx', gen_index(rng, n, wide=True), gen_index(rng, m, wide=True), rng.choice(['t', 't', 't', 'l'])]
    if k == 'all':
        return ['idx', gen_index(rng, n, 1.0, True), gen_index(rng, m, 1.0, True), 't']
    if k == 'bad':
        return ['bad', rng.choice(BADS)]
    return [k]


def _index(ix, ):
    if isinstance(ix, int):
        return ix
    k = ix[0]
    if k == 'np':
        return np.int64(ix[1])
    if k == 's':
        return slice(*ix[1:])
    if k == 'l':
        return list(ix[1])
    if k == 't':
        return tuple(ix[1])
    if k == 'a':
        return np.array(ix[1])
    if k == 'set':
        return set(ix[1])
    if k == 'r':
        return range(ix[1], ix[2])
    if k == 'gen':
        return (i for i in ix[1])
    if k == 'fs':
        return frozenset(ix[1])
    if k == 'i32':
        return np.array(ix[1], dtype=np.int32)
    if k == 'u8':
        return np.array(ix[1], dtype=np.uint8 if max(ix[1]) < 200 else np.uint16)
    raise KeyError(k)


def ids_of(ix, n):
    if isinstance(ix, int):
        return [ix]
    if ix[0] == 'np':
        return [ix[1]]
    if ix[0] == 's':
        return sorted(list(range(n))[slice(*ix[1:])])
    if ix[0] == 'r':
        return list(range(ix[1], ix[2]))
    return sorted(set(ix[1]))


def _bad_index(kind, shape):
    n, m = shape
    return {'str': 'ab', 'neg': (-1, 0), 'over': (n, 0), 'overcol': (0, m), 'three': (0, 0, 0), 'float': (0.5, 0),
            'none': None, 'empty': ([], 0), 'emptyslice': (slice(n, n + 3), 0), 'linover': n * m,
            'linneg': -n * m - 1, 'onlist': [0], 'strdim': ('a', 0), 'nonedim': (None, 0),
            'overlist': (0, [0, m]), 'neglist': ([0, -1], 0), 'floatlist': (0, [0.5]), 'boolidx': (True, 'x'),
            'dict': ({}, 0)}[kind]


def read(km, r, shape=(1, 1)):
    """execute one read against the library"""
    k = r[0]
    if k == 'elem':
        return km[r[1], r[2]]
    if k == 'lin':
        return km[r[1]]
    if k == 'idx':
        a, b = _index(r[1]), _index(r[2])
        return km[[a, b]] if len(r) > 3 and r[3] == 'l' else km[a, b]
    if k == 'full':
        return km.full
    if k == 'sparse':
        return km.full_sparse
    if k == 'diag':
        return km.diagonal()
    if k == 'normed':
        return km.normed_km
    if k == 'normalize':
        return km.normalize()
    if k == 'centered':
        return km.centered
    if k == 'center':
        return km.center()
    if k == 'frob':
        return km.frob_norm
    if k == 'meta':
        return (km.size, len(km), tuple(km.shape), km.num_samples)
    if k == 'str':
        return str(km)
    if k == 'bad':
        return km[_bad_index(r[1], shape)]
    raise KeyError(k)


# ---------------------------------------------------------------- judgement

def refused(ref, r):
    """the model says this read is refused"""
    if ref is None:
        return r[0] not in ('str', 'nsamp')
    if r[0] == 'bad':
        return True
    if r[0] in ('diag', 'centered', 'center'):
        return ref.two
    if r[0] in ('normed', 'normalize') or (r[0] in ('full', 'sparse') and ref.normalized):
        try:
            ref.normed()
        except NormErr:
            return True
    return False


def dense(v):
    return isinstance(v, np.ndarray) and not isinstance(v, np.matrix)


def sparse_array(v):
    return np.asarray(v.todense())


def check_value(ref, r, v, who=''):
    """v must be what the model says"""
    k = r[0]
    tag = '%s%s' % (who, r)

    def same(a, b, scale=None):
        expect(close(a, b, rtol=ref.rtol, scale=scale), 'wrong-value',
               lambda: '%s gave %s, expected %s' % (tag, brief(a), brief(b)))

    n, m = ref.shape
    if k in ('elem', 'lin', 'idx'):
        if k == 'elem':
            rows, cols = [r[1]], [r[2]]
        elif k == 'lin':
            rows, cols = [r[1] // m], [r[1] % m]
        else:
            rows, cols = ids_of(r[1], n), ids_of(r[2], m)
        expect(dense(v), 'wrong-form', lambda: '%s gave a %s' % (tag, type(v)))
        same(v, ref.raw()[np.ix_(rows, cols)])
    elif k == 'full':
        expect(dense(v), 'wrong-form', lambda: '%s gave a %s' % (tag, type(v)))
        same(v, ref.full())
    elif k == 'sparse':
        if ref.normalized:
            expect(dense(v), 'wrong-form', lambda: '%s gave a %s' % (tag, type(v)))
            same(v, ref.full())
        else:
            expect(issparse(v), 'wrong-form', lambda: '%s gave a %s' % (tag, type(v)))
            a = sparse_array(v)
            R = ref.raw()
            expect(a.shape == R.shape, 'wrong-value', lambda: '%s has shape %s' % (tag, a.shape))
            same(np.triu(a), np.triu(R))
            if ref.two:
                low = np.tril(a, -1)
                same(low, np.where(low == 0, 0.0, np.tril(R, -1)))
            else:
                same(np.tril(a, -1), np.zeros_like(a))
    elif k == 'diag':
        expect(dense(v), 'wrong-form', lambda: '%s gave a %s' % (tag, type(v)))
        same(v, ref.raw().diagonal())
    elif k == 'normed':
        expect(dense(v), 'wrong-form', lambda: '%s gave a %s' % (tag, type(v)))
        same(v, ref.normed())
    elif k == 'centered':
        expect(dense(v), 'wrong-form', lambda: '%s gave a %s' % (tag, type(v)))
        R = ref.raw()
        fin = np.abs(R[np.isfinite(R)])
        same(v, ref.centered(), scale=100 * (fin.max() if fin.size else 1.0))
    elif k == 'frob':
        same(v, ref.frob())
    elif k == 'meta':
        want = (n * m, n * m, (n, m), (n, m) if ref.two else n)
        got = (int(v[0]), int(v[1]), tuple(int(x) for x in v[2]),
               tuple(int(x) for x in v[3]) if ref.two else int(v[3]) if np.ndim(v[3]) == 0 else tuple(v[3]))
        expect(got == want, 'wrong-size', lambda: '%s gave %s, expected %s' % (tag, got, want))


def judge(ref, r, out, fired=False, who=''):
    """out: ('ok', v) or ('raise', e); fired: a fault was injected in this operation"""
    if out[0] == 'raise':
        if refused(ref, r) or fired:
            if not isinstance(out[1], Exception) and not fired:
                raise Violation('wrong-exception', '%s%s raised %r' % (who, r, out[1]))
            return
        if ref is not None and ref.near_norm_edge():
            return
        raise Violation('unexpected-failure', '%s%s raised %r' % (who, r, out[1]))
    if refused(ref, r):
        if ref is not None and r[0] not in ('bad', 'diag', 'centered', 'center') and ref.near_norm_edge():
            return
        raise Violation('not-refused', '%s%s is invalid but gave %s' % (who, r, str(out[1])[:200]))
    if r[0] in ('normalize', 'center', 'str'):
        return
    check_value(ref, r, out[1], who)


def full_check(sim, km, ref, uid, who='', skip=()):
    """read everything once more (fault free) and compare"""
    if ref is None:
        return
    for r in (['meta'], ['elem', ref.shape[0] - 1, 0], ['lin', ref.shape[0] * ref.shape[1] - 1],
              ['idx', ['s', None, None, None], ['s', None, None, None]], ['full'], ['frob'],
              ['sparse'], ['normed'], ['centered'], ['diag']):
        if r[0] in skip:
            continue
        out = quiet_op(sim, '%s.%s' % (uid, r[0]), lambda: read(km, r))[0]
        judge(ref, r, out, who=who + 'afterwards: ')


def quiet_op(sim, uid, fn, task=None, werr=False):
    """run an operation capturing warnings (single-threaded scenarios only)"""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('error' if werr else 'always')
        out = sim.op(uid, fn, task)
    return out, [w for w in ws if issubclass(w.category, KernelMethodsWarning)]


def was_faulted(sim, task=None):
    t = task or sim.main
    return bool(t.fired)


# ---------------------------------------------------------------- shapes

def gen_n(rng, big=0.02):
    if rng.random() < big:
        return rng.choice([21, 33, 50, 50, 70, 70, 104, 130])
    return rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 11, 16] if rng.random() < .3 else [1, 2, 2, 3, 3, 4, 4, 5, 6, 8])


def gen_attach(rng, d=None, kinds=None, two_p=0.4, big=0.02, pool=None):
    """JSON description of an attachment: one or two samples"""
    d = d or rng.choice([1, 2, 3, 3, 4, 6])
    n = gen_n(rng, big)
    kk = kinds
    a = {'x': rand_sample(rng, n, d, kk)}
    if rng.random() < two_p:
        m = rng.choice([n, n, gen_n(rng, big), max(1, n - 1), n + 1])
        mode = rng.random()
        if mode < 0.12:
            a['y'] = 'same'
        elif mode < 0.2:
            a['y'] = dict(a['x'])
        else:
            k2 = [a['x']['k']] if kk is None else kk
            a['y'] = rand_sample(rng, m, d, k2)
    a['n1'] = 'nm%06d' % rng.randrange(10 ** 6)
    a['n2'] = 'mm%06d' % rng.randrange(10 ** 6)
    return a


def shape_of(a):
    n = a['x']['n']
    if 'y' not in a:
        return (n, n)
    return (n, n if a['y'] == 'same' else a['y']['n'])


def kinds_for(rng):
    """(sample kinds, kernel kinds)"""
    k = rng.random()
    if k < 0.08:
        return ['str'], ('str',)
    if k < 0.2:
        return ['pos'], ('pos',)
    return None, ('num',)


def build(a):
    X = sample(a['x'])
    if 'y' not in a:
        return X, None
    return X, (X if a['y'] == 'same' else sample(a['y']))


def attach(km, a, X, Y):
    if Y is None:
        return km.attach_to(X, name_one=a['n1'])
    if a['n2'] is None:
        return km.attach_to(sample_one=X, name_one=a['n1'], sample_two=Y)
    return km.attach_to(sample_one=X, name_one=a['n1'], sample_two=Y, name_two=a['n2'])
