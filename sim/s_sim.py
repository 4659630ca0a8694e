"""Scenarios on constant and precomputed matrices (C21) and on pairwise similarities (C25)."""
import warnings

import numpy as np

from core import Violation
from kmops import _index, build, formula, gen_index, gen_read, ids_of, judge, mk, rand_kernel, rand_sample, read
from model import NormErr, Ref, brief, close, expect
from s_km import SCHED_FAULTS, gen_sched, with_uids
from s_set import sym
from kernelmethods.base import ConstantKernelMatrix, KernelMatrix, KernelMatrixPrecomputed, KernelSet
from kernelmethods.sampling import KernelBucket, pairwise_similarity


def threads_of(sim, plan, one):
    tids = sorted({o['tid'] for o in plan['ops'] if o['tid']})
    if not tids or 'sched' not in plan:
        return

    def body(tid):
        def go(task):
            for o in plan['ops']:
                if o['tid'] == tid:
                    one(task, o)
        return go
    sim.threads([(t, body(t)) for t in tids], plan['sched'])


def fault(rng, ops, kinds=('intr', 'alloc')):
    kind = rng.choice(kinds)
    return {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites']),
            'only': [o['u'] for o in ops if o['tid'] <= 1],
            'exc': {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                    'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]}


# ---------------------------------------------------------------- C21

REFUSED = ['nonsym', 'rect', 'vec', 'cube', 'complex', 'nan', 'scalar', 'almost', 'lower']


class C21:
    rule = ('a seeded history of constructions (accepted and refused), reads of all views and set memberships of constant '
            'and precomputed matrices, with interrupts and allocation failures inside operations, and reads from 2-3 '
            'threads; non-trivial: a fault fired or threads switched, or at least two views were read')
    threaded = True

    @staticmethod
    def gen(rng, tier):
        obs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            n = rng.choice([1, 2, 3, 3, 4, 5, 8, 17])
            if obs and rng.random() < .3:      # like an earlier one, but for its type, or its value
                obs.append(dict(obs[0]))
                if obs[0]['t'] == 'pre':
                    obs[-1]['s'] += 1
                elif rng.random() < .5:
                    obs[-1]['v'] = obs[0]['v'] + 1
                else:
                    obs[-1]['dt'] = 'f4'
                continue
            if rng.random() < .5:
                obs.append({'t': 'pre', 'n': n, 's': rng.randrange(1000), 'name': rng.choice([None, 'P7', '']),
                            'form': rng.choice(['f8', 'i8', 'f4', 'list', 'F', 'view', 'ro', 'neg', 'zero', 'real', 'bool',
                                                'offdiag', 'huge', 'close'])})
            else:
                obs.append({'t': 'const', 'n': n, 'v': rng.choice([0.0, 1.0, -2.5, 3, 1e-3, 1e9, 7]),
                            'dt': rng.choice([None, None, 'float', 'int', 'f4', 'i8']), 'name': rng.choice([None, 'C7', ''])})
                if obs[-1]['dt'] in ('int', 'i8'):
                    obs[-1]['v'] = rng.choice([0, 1, 3, -2])
        ops = []

        def op(tid=0):
            i = rng.randrange(len(obs))
            n = obs[i]['n']
            x = rng.random()
            if x < .1 and not tid:
                o = {'op': 'refuse', 'k': rng.choice(REFUSED), 'n': rng.choice([2, 3, 5]), 's': rng.randrange(1000)}
            elif x < .2 and not tid:
                o = {'op': 'set', 'i': i, 'raw': rng.random() < .4, 'grow': rng.choice([0, 0, 1, 3])}
            else:
                v = rng.choice(['full', 'full', 'diag', 'size', 'elem', 'elem', 'block', 'block', 'bad', 'str'])
                o = {'op': 'read', 'i': i, 'v': v}
                if v == 'elem':
                    o['ix'] = [rng.randrange(n), rng.randrange(n)]
                elif v == 'block':
                    o['ix'] = [gen_index(rng, n), gen_index(rng, n)]
                elif v == 'bad':
                    o['b'] = rng.choice(['over', 'str', 'three', 'strdim', 'overlist'])
            o['tid'] = tid
            return o

        for _ in range(rng.choice([2, 4, 7, 10])):
            ops.append(op())
        threaded = rng.random() < .4
        if threaded:
            for t in range(1, rng.choice([2, 2, 3]) + 1):
                for _ in range(rng.choice([1, 2, 3])):
                    ops.append(op(t))
        with_uids(ops)
        faults = [fault(rng, ops)] if rng.random() < .6 else []
        plan = {'cfg': {'obs': obs}, 'ops': ops, 'faults': faults}
        if threaded:
            plan['sched'] = gen_sched(rng)
        return plan

    @staticmethod
    def matrix(c):
        """(what is passed to the constructor, the values it stands for)"""
        A = sym(c['n'], c['s'])
        f = c['form']
        if f in ('i8', 'f4'):
            A = np.round(A).astype(f)
        elif f == 'F':
            A = np.asfortranarray(A)
        elif f == 'view':
            big = np.zeros((2 * c['n'], 2 * c['n']))
            big[::2, ::2] = A
            A = big[::2, ::2]
        elif f == 'ro':
            A.setflags(write=False)
        elif f == 'neg':
            A = -A
        elif f == 'zero':
            A = np.zeros_like(A)
        elif f == 'real':
            A = A.astype(complex)
        elif f == 'bool':
            A = A > A.mean()
        elif f == 'offdiag':
            A = A - np.diag(np.diag(A))
        elif f == 'huge':
            A = A * 1e200
        elif f == 'close':      # symmetric up to rounding
            A = A * (1 + 1e-13 * np.random.RandomState(c['s']).randn(c['n'], c['n']))
        if f == 'list':
            return A.tolist(), A
        return A, np.array(A, copy=True)

    @staticmethod
    def bad_matrix(o):
        r = np.random.RandomState(o['s'])
        n = o['n']
        A = sym(n, o['s'])
        k = o['k']
        if k == 'nonsym':
            return r.randn(n, n) + np.triu(np.full((n, n), 3.0), 1)
        if k == 'lower':
            A[n - 1, 0] += 1.0
            return A
        if k == 'almost':
            i, j = (0, n - 1) if o['s'] % 2 else (n - 1, n - 2)
            A[i, j] += .01 * max(1.0, abs(A[i, j]))
            return A
        if k == 'rect':
            return r.randn(n, n + 1)
        if k == 'vec':
            return r.randn(n)
        if k == 'cube':
            return np.zeros((n, n, n)) if o['s'] % 2 else np.zeros((n, n, 1))
        if k == 'complex':
            B = A.astype(complex)
            B[0, 1] = B[1, 0] = 1 + .5j
            return B
        if k == 'nan':
            A[0, n - 1] = A[n - 1, 0] = np.nan
            return A
        return 3.0

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        obs = []
        views = set()
        for i, c in enumerate(plan['cfg']['obs']):
            if c['t'] == 'pre':
                arg, want = C21.matrix(c)
                mkob = lambda: KernelMatrixPrecomputed(arg) if c['name'] is None else \
                    KernelMatrixPrecomputed(arg, name=c['name'])     # noqa: E731
            else:
                want = np.full((c['n'], c['n']), c['v'], dtype=c['dt'] or 'float')
                kw = {} if c['dt'] is None else {'dtype': c['dt']}
                if c['name'] is not None:
                    kw['name'] = c['name']
                mkob = lambda: ConstantKernelMatrix(c['n'], c['v'], **kw)     # noqa: E731
            out = sim.op('new%d' % i, mkob)
            if out[0] == 'raise':
                expect(bool(sim.main.fired), 'unexpected-failure', lambda: '%s was refused: %r' % (c, out[1]))
                out = sim.op('renew%d' % i, mkob)
                expect(out[0] == 'ok', 'unexpected-failure', lambda: 'refused after an interruption: %r' % (out[1],))
            obs.append((out[1], want, c))

        def same(a, b):
            a = np.asarray(a)
            return a.shape == b.shape and bool((a == b).all())

        def check(o, out, task, who=''):
            ob, want, c = obs[o['i']]
            n, v = c['n'], o['v']
            tag = '%s%s of %s' % (who, {k: o[k] for k in o if k in ('v', 'ix', 'b')}, c)
            if v == 'bad':
                expect(out[0] == 'raise', 'not-refused', lambda: '%s gave %s' % (tag, out[1]))
                return
            if out[0] == 'raise':
                expect(bool(task.fired), 'unexpected-failure', lambda: '%s raised %r' % (tag, out[1]))
                return
            got = out[1]
            views.add(v)
            if v == 'str':
                nm = c['name'] if c['name'] is not None else {'pre': 'Precomputed', 'const': 'Constant'}[c['t']]
                expect(all(nm in g and str(n) in g for g in got), 'wrong-description', lambda: '%s gave %s' % (tag, got))
                return
            if v == 'size':
                expect(all(int(g) == n for g in got), 'wrong-size', lambda: '%s gave %s' % (tag, got))
                return
            if v == 'full':
                w = want
            elif v == 'diag':
                w = want.diagonal()
            elif v == 'elem':
                w = want[o['ix'][0], o['ix'][1]] if c['t'] == 'pre' else want[:1, :1]
            else:
                rows, cols = (ids_of(x, n) for x in o['ix'])
                w = want[np.ix_(rows, cols)]
                if c['t'] == 'pre':
                    w = want[C21.rows(o['ix'][0], n)][:, C21.rows(o['ix'][1], n)]
            expect(same(got, np.asarray(w)), 'wrong-value', lambda: '%s gave %s, expected %s' % (tag, brief(got), brief(w)))
            if v == 'full' and c['t'] == 'const':
                expect(np.asarray(got).dtype == want.dtype, 'wrong-value', lambda: '%s has dtype %s' % (
                    tag, np.asarray(got).dtype))

        def do(o):
            ob, want, c = obs[o['i']]
            v = o['v']
            if v == 'full':
                return ob.full
            if v == 'diag':
                return ob.diag
            if v == 'size':
                return ob.size, len(ob), ob.num_samples
            if v == 'str':
                return str(ob), repr(ob)
            if v == 'elem':
                return ob[o['ix'][0], o['ix'][1]]
            if v == 'block':
                if c['t'] == 'pre':         # numpy's own outer indexing
                    return ob[C21.rows(o['ix'][0], c['n'])[:, None], C21.rows(o['ix'][1], c['n'])]
                return ob[_index(o['ix'][0]), _index(o['ix'][1])]
            n = c['n']
            return ob[{'over': (n, 0), 'str': 'ab', 'three': (0, 0, 0), 'strdim': (0, 'x'), 'overlist': ([0, n], 0)}[o['b']]]

        def one(task, o):
            if o['op'] == 'read':
                out = sim.op(o['u'], lambda: do(o), task)
                check(o, out, task, 'thread %d: ' % task.tid if o['tid'] else '')
            elif o['op'] == 'refuse':
                A = C21.bad_matrix(o)
                out = sim.op(o['u'], lambda: KernelMatrixPrecomputed(A), task)
                expect(out[0] == 'raise', 'not-refused', lambda: 'a precomputed matrix of %s was accepted' % o['k'])
            else:
                ob, want, c = obs[o['i']]
                if c['t'] == 'const':
                    return
                want = np.asarray(want)
                item = want.copy() if o['raw'] else ob

                def grow():
                    S = KernelSet(name='S')
                    for _ in range(o['grow']):
                        S.append(sym(c['n'], 5))
                    S.append(item)
                    return S
                out = sim.op(o['u'], grow, task)
                if out[0] == 'raise':
                    expect(bool(task.fired), 'unexpected-failure', lambda: 'set of %s raised %r' % (c, out[1]))
                    return
                S = out[1]
                expect(S.size == o['grow'] + 1 and S.num_samples == c['n'], 'wrong-size', lambda: 'set holds %s of %s' % (
                    S.size, S.num_samples))
                got = S[o['grow']].full
                expect(same(got, want), 'wrong-value', lambda: 'member of a set is %s, expected %s' % (brief(got), brief(want)))
            sim.state('C21', o['op'], o.get('v'), len(views))

        for o in plan['ops']:
            if not o['tid']:
                one(sim.main, o)
        threads_of(sim, plan, one)
        fired = bool(sim.nswitch) or bool(plan['faults'])
        for i, (ob, want, c) in enumerate(obs):
            for v in ('size', 'full', 'diag', 'elem', 'str', 'full'):
                o = {'op': 'read', 'i': i, 'v': v, 'ix': [c['n'] - 1, 0]}
                out = sim.op('end%d.%s' % (i, v), lambda: do(o))
                check(o, out, sim.main, 'afterwards: ')
        sim.nontrivial = fired or len(views) >= 2

    @staticmethod
    def rows(ix, n):
        return np.array(ids_of(ix, n))


# ---------------------------------------------------------------- C25

def corr(a, b):
    """(value, trusted)"""
    a, b = a.ravel(), b.ravel()
    da, db = a - a.mean(), b - b.mean()
    na, nb = np.sqrt((da ** 2).sum()), np.sqrt((db ** 2).sum())
    if a.size < 2 or na <= 1e-6 * (1 + np.abs(a).max()) or nb <= 1e-6 * (1 + np.abs(b).max()):
        return 0.0, False
    return float((da / na) @ (db / nb)), True


def align(a, b):
    def cen(K):
        return K - K.mean(0, keepdims=True) - K.mean(1, keepdims=True) + K.mean()
    ca, cb = cen(a), cen(b)
    na, nb = np.sqrt((ca ** 2).sum()), np.sqrt((cb ** 2).sum())
    if na <= 1e-6 * (1 + np.abs(a).max()) or nb <= 1e-6 * (1 + np.abs(b).max()):
        return 0.0, False
    return float((ca / na).ravel() @ (cb / nb).ravel()), True


class C25:
    rule = ('a seeded history of pairwise similarities, member reads, re-attachments, additions and refused requests on a '
            'kernel set or bucket, with kernel errors, interrupts and allocation failures inside operations, and 2-3 '
            'threads comparing and reading at once; non-trivial: a fault fired, threads switched, or a re-attachment')
    threaded = True

    @staticmethod
    def gen(rng, tier):
        n = rng.choice([2, 3, 3, 4, 5, 8])
        d = rng.choice([1, 2, 3])
        nm = rng.choice([1, 2, 3, 4, 6])
        bucket = rng.random() < .4
        mem = []
        for i in range(nm):
            if not bucket and rng.random() < .15:
                mem.append({'t': 'pre', 's': rng.randrange(1000)})
            else:
                mem.append({'t': 'km', 'k': rand_kernel(rng, ('num',), .9), 'norm': rng.random() < .5})
        kinds = ['flt', 'flt', 'int', 'pos', 'dup']
        att = {'x': rand_sample(rng, n, d, kinds), 'n1': 'a'}
        ops = []

        def op(tid=0):
            x = rng.random()
            if x < .5:
                o = {'op': 'sim', 'm': rng.choice(['corr', 'align']), 'dflt': rng.random() < .2}
            elif x < .56:
                o = {'op': 'badsim', 'm': rng.choice(['xyz', 'Corr ', ''])}
            elif x < .8 or tid:
                o = {'op': 'touch', 'm': rng.randrange(nm), 'r': gen_read(rng, (n, n), False)}
            elif x < .92:
                o = {'op': 'attach', 'a': {'x': rand_sample(rng, n, d, kinds), 'n1': 'b'}}
            else:
                o = {'op': 'grow', 's': rng.randrange(1000)}
            o['tid'] = tid
            return o

        for _ in range(rng.choice([1, 3, 5, 7])):
            ops.append(op())
        threaded = rng.random() < .4
        if threaded:
            for t in range(1, rng.choice([2, 2, 3]) + 1):
                for _ in range(rng.choice([1, 2])):
                    ops.append(op(t))
        with_uids(ops)
        faults = []
        if rng.random() < .6:
            faults = [fault(rng, ops, ('kerr', 'intr', 'alloc')) for _ in range(rng.choice([1, 1, 2]))]
        plan = {'cfg': {'n': n, 'mem': mem, 'att': att, 'bucket': bucket}, 'ops': ops, 'faults': faults}
        if threaded:
            plan['sched'] = gen_sched(rng)
        return plan

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        cfg = plan['cfg']
        n = cfg['n']
        X, _ = build(cfg['att'])
        members, refs = [], []
        if cfg['bucket']:
            S = KernelBucket(poly_degree_values=None, rbf_sigma_values=[1.0], laplace_gamma_values=None,
                             sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=False)
            S.attach_to(X)
            members = list(S)
            specs = [(['lin', {}], False), (['gauss', {'sigma': 1.0}], False)]
        else:
            S, specs = None, []
        for i, c in enumerate(cfg['mem']):
            if c['t'] == 'pre':
                members.append(KernelMatrixPrecomputed(sym(n, c['s'])))
                specs.append(sym(n, c['s']))
            else:
                km = KernelMatrix(mk(c['k']), normalized=c['norm'], name='m%d' % i)
                km.attach_to(X)
                members.append(km)
                specs.append((c['k'], c['norm']))
                if S is not None:
                    S.append(km)
        if S is None:
            S = KernelSet(members, name='S')

        def attached(Xn):
            refs[:] = [s if isinstance(s, np.ndarray) else Ref(formula(s[0]), s[1], Xn) for s in specs]
        attached(X)
        allkm = [all(not isinstance(s, np.ndarray) for s in specs)]
        threaded_now = [False]

        def mats():
            return [r if isinstance(r, np.ndarray) else r.full() for r in refs]

        def check(metric, out, task, who=''):
            try:
                M = mats()
                ok = all(np.isfinite(K).all() for K in M)
            except NormErr:
                M, ok = None, False
            edge = any(isinstance(r, Ref) and r.normalized and r.near_norm_edge() for r in refs)
            if out[0] == 'raise':
                expect(M is None or task.fired or edge, 'unexpected-failure', lambda: '%s%s raised %r' % (who, metric, out[1]))
                return
            if edge:
                return
            expect(M is not None, 'not-refused', lambda: '%s%s accepted a set that can not be normalized' % (who, metric))
            if not ok:
                return
            got = np.asarray(out[1])
            k = len(M)
            expect(got.shape == (k, k), 'wrong-size', lambda: '%s%s has shape %s for %d kernels' % (who, metric, got.shape, k))
            f = {'corr': corr, 'align': align}[metric]
            for i in range(k):
                for j in range(k):
                    w, sure = f(M[i], M[j])
                    if sure:
                        expect(abs(got[i, j] - w) <= 1e-5, 'wrong-similarity',
                               lambda: '%s%s of kernels %d and %d is %s, expected %s' % (who, metric, i, j, got[i, j], w))
            expect(np.array_equal(got, got.T, equal_nan=True), 'wrong-similarity', lambda: '%s%s is not symmetric: %s' % (
                who, metric, brief(got)))

        def one(task, o):
            who = 'thread %d: ' % task.tid if o['tid'] else ''
            if o['op'] == 'sim':
                m = 'corr' if o.get('dflt') else o['m']
                out = sim.op(o['u'], lambda: pairwise_similarity(S) if o.get('dflt') else
                             pairwise_similarity(S, metric=o['m']), task)
                check(m, out, task, who)
                if task.fired:
                    sim.probe('fault-in-similarity')
                    sim.nontrivial = True
                sim.state('C25', m, len(refs), out[0])
            elif o['op'] == 'badsim':
                out = sim.op(o['u'], lambda: pairwise_similarity(S, metric=o['m']), task)
                expect(out[0] == 'raise', 'not-refused', lambda: 'metric %r accepted' % o['m'])
            elif o['op'] == 'touch':
                k = o['m'] % len(members)
                if isinstance(members[k], KernelMatrix):
                    out = sim.op(o['u'], lambda: read(members[k], o['r'], (n, n)), task)
                    judge(refs[k], o['r'], out, bool(task.fired), who)
            elif o['op'] == 'attach':
                if not allkm[0] or o['tid']:
                    return
                X2, _ = build(o['a'])
                out = sim.op(o['u'], lambda: S.attach_to(X2), task)
                if out[0] == 'raise':
                    expect(bool(task.fired), 'unexpected-failure', lambda: 'attach raised %r' % (out[1],))
                    out = sim.op(o['u'] + 'again', lambda: S.attach_to(X2), task)
                    expect(out[0] == 'ok', 'unexpected-failure', lambda: 'attach again raised %r' % (out[1],))
                attached(X2)
                sim.probe('reattached')
                sim.nontrivial = True
            elif o['op'] == 'grow':
                if o['tid'] or len(refs) > 8:
                    return
                A = sym(n, o['s'])
                out = sim.op(o['u'], lambda: S.append(A), task)
                if out[0] == 'ok':
                    refs.append(A.copy())
                    specs.append(A.copy())
                    members.append(S[S.size - 1])
                    allkm[0] = False
                else:
                    expect(bool(task.fired), 'unexpected-failure', lambda: 'append raised %r' % (out[1],))
                    if S.size > len(refs):      # interrupted just after it took effect
                        refs.append(A.copy())
                        specs.append(A.copy())
                        members.append(S[S.size - 1])
                        allkm[0] = False

        for o in plan['ops']:
            if not o['tid']:
                one(sim.main, o)
        if 'sched' in plan:
            for r in refs:
                if isinstance(r, Ref):
                    r.raw()
            threads_of(sim, plan, one)
            if sim.nswitch:
                sim.nontrivial = True
        for m in ('corr', 'align'):
            out = sim.op('end.' + m, lambda: pairwise_similarity(S, metric=m))
            check(m, out, sim.main, 'afterwards: ')
        for k, km in enumerate(members):
            if isinstance(km, KernelMatrix):
                out = sim.op('endm%d' % k, lambda: km.full)
                judge(refs[k], ['full'], out, who='afterwards: ')
