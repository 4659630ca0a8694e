"""Copies, pickles and crashes: C15."""
import copy
import os
import pickle
import struct
import warnings

import numpy as np

import core
from core import HarnessError
from kmops import (attach, build, gen_attach, gen_read, judge, kinds_for, quiet_op, rand_kernel, rand_sample, read,
                   refused, sample, shape_of, was_faulted)
from kernels import formula, mk
from model import NormErr, Ref, brief, close, expect
from s_est import (C10, Model, TYPES, bad_fit, bformula, BTag, bucket, bucket_specs, BADFIT, data, gen_bucket, gen_data,
                   gen_par, gen_test, make, test_data, weights_for)
from s_km import SCHED_FAULTS, weights, with_uids
from s_set import sym
from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelMatrix, KernelMatrixPrecomputed, KernelSet,
                                ProductKernel, SumKernel, WeightedAverageKernel)

PRE_READS = ['full', 'diag', 'len', 'size', 'el', 'row', 'str']


# ---------------------------------------------------------------- the other machine

class Peer:
    """a process forked before the history starts: it has the code and nothing else.  It is given a
    checkpoint (bytes), restores it and answers reads."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.r, self.w = r2, w1

    @staticmethod
    def put(fd, obj):
        b = pickle.dumps(obj)
        b = struct.pack('<Q', len(b)) + b
        while b:
            n = os.write(fd, b)
            b = b[n:]

    @staticmethod
    def get(fd):
        def take(n):
            out = b''
            while len(out) < n:
                c = os.read(fd, n - len(out))
                if not c:
                    raise EOFError
                out += c
            return out
        return pickle.loads(take(struct.unpack('<Q', take(8))[0]))

    @staticmethod
    def serve(r, w):
        warnings.simplefilter('ignore')
        objs = []
        while True:
            try:
                cmd, arg = Peer.get(r)
            except EOFError:
                return
            try:
                if cmd == 'load':
                    objs.append(pickle.loads(arg))
                    out = ('ok', len(objs) - 1)
                else:
                    i, what = arg
                    out = ('ok', perform(objs[i], what))
                    pickle.dumps(out)
            except BaseException as e:
                out = ('raise', RuntimeError('%s: %s' % (type(e).__name__, e)))
            Peer.put(w, out)

    def ask(self, cmd, arg):
        Peer.put(self.w, (cmd, arg))
        return Peer.get(self.r)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def perform(obj, what):
    """one observation of an object; what is JSON-like"""
    k = what[0]
    if k == 'km':
        return read(obj, what[1], what[2])
    if k == 'attrs':
        return dict(obj.attributes()), [obj.get_attr(x, 'none!') for x in ('a0', 'a1', 'zz')]
    if k == 'name':
        return obj.name
    if k == 'member':
        return perform(obj[what[1]], what[2])
    if k == 'iter':
        return len(list(obj)), len(obj), obj.size, obj.num_samples
    if k == 'sattr':
        return obj.get_attr(what[1], 'none!')
    if k == 'pre':
        return {'full': lambda: obj.full, 'diag': lambda: obj.diag, 'len': lambda: len(obj), 'size': lambda: obj.size,
                'el': lambda: obj[0, 1], 'row': lambda: obj[1, :], 'str': lambda: str(obj)}[what[1]]()
    if k == 'comp':
        return getattr(obj, what[1])
    if k == 'call':
        return obj(np.array(what[1]), np.array(what[2]))
    if k == 'str':
        return str(obj)
    if k == 'predict':
        return np.asarray(obj.predict(test_data(what[1])))
    if k == 'ests':
        return (type(obj.k_func).__name__, str(obj.k_func), obj.normalized) if hasattr(obj, 'k_func') else \
            (str(obj.k_bucket.size), obj.method, obj.C)
    raise KeyError(k)


class C15:
    rule = ('a seeded history on a kernel matrix, kernel set, bucket, composite, precomputed or constant matrix, kernel '
            'function or estimator, some operations failed or interrupted, with checkpoints (deepcopy or pickle, '
            'protocols 2-5) at 1-4 positions; each restored object continues with a history of its own next to, or '
            'instead of, the original, and some checkpoints are restored in a process that never saw the history (crash); '
            'each object is checked against its own model; non-trivial: a restored object was checked after the '
            'original changed or was lost')

    # ------------------------------------------------------------ generation
    @staticmethod
    def gen(rng, tier):
        kind = rng.choices(['km', 'set', 'bucket', 'comp', 'pre', 'const', 'kfn', 'est'], [8, 4, 2, 3, 1, .5, 1, 3])[0]
        cfg = {'kind': kind, 'crash': rng.random() < .4}
        ops = []
        nops = rng.choice([4, 6, 9, 12])
        if kind == 'km':
            skinds, kkinds = kinds_for(rng)
            d = rng.choice([1, 2, 3])
            cfg.update(k=rand_kernel(rng, kkinds, .7), norm=rng.random() < .5)
            atts = [gen_attach(rng, d, skinds, big=0) for _ in range(3)]
            w = weights(rng)
            if rng.random() < .9:
                ops.append({'op': 'attach', 'a': atts[0]})
            cur = atts[0]
            for _ in range(nops):
                o = {'op': rng.choices(['read', 'attach', 'attr', 'badattach', 'snap', 'drop'], [8, 1.5, 2, .5, 3, .5])[0]}
                if o['op'] == 'attach':
                    o['a'] = cur = rng.choice(atts)
                elif o['op'] == 'read':
                    o['r'] = gen_read(rng, shape_of(cur), 'y' in cur, w)
                elif o['op'] == 'attr':
                    o.update(n='a%d' % rng.randrange(2), v=rng.choice([1, 'x', [1, 2], None, {'p': [3]}]))
                    o['mut'] = rng.random() < .3
                ops.append(o)
        elif kind in ('set', 'comp'):
            n = rng.choice([2, 3, 4])
            cfg['n'] = n
            cfg['mem'] = [{'k': rand_kernel(rng, ('num',), .8), 'norm': rng.random() < .4, 'pre': rng.random() < .12,
                           's': rng.randrange(999)} for _ in range(rng.choice([2, 2, 3] if kind == 'comp' else [1, 2, 3]))]
            cfg['att'] = rand_sample(rng, n, 3, ['flt', 'pos', 'int', 'dup'])
            cfg['c'] = rng.choice(['sum', 'prod', 'avg', 'wavg'])
            cfg['w'] = [round(rng.uniform(.1, 2), 2) for _ in range(4)]
            w = weights(rng)
            for _ in range(nops):
                o = {'op': rng.choices(['sread', 'sattach', 'sattr', 'append', 'snap', 'drop', 'mattach', 'cfit', 'cread'],
                                       [6, 1, 2, 1.5 if kind == 'set' else 0, 3, .5, 1.5,
                                        3 if kind == 'comp' else 0, 3 if kind == 'comp' else 0])[0]}
                o['j'] = rng.randrange(9)
                if o['op'] == 'sread':
                    o['r'] = gen_read(rng, (n, n), False, w)
                elif o['op'] in ('sattach', 'mattach'):
                    o['x'] = rand_sample(rng, n, 3, ['flt', 'pos', 'int', 'dup'])
                    if rng.random() < .4:
                        o['at'] = rng.randrange(99)
                elif o['op'] == 'sattr':
                    o.update(n='a%d' % rng.randrange(2), v=rng.choice(['one', 'each']), b=rng.randrange(99))
                elif o['op'] == 'append':
                    o.update(k=rand_kernel(rng, ('num',), .8), norm=rng.random() < .4, s=rng.randrange(999),
                             pre=rng.random() < .15, x=rand_sample(rng, n, 3, ['flt', 'int']))
                elif o['op'] == 'cread':
                    o['v'] = rng.choice(['full', 'composite_KM'])
                ops.append(o)
        elif kind == 'bucket':
            cfg['b'] = gen_bucket(rng)
            cfg['n'] = n = rng.choice([2, 3, 4])
            w = weights(rng)
            for _ in range(nops):
                o = {'op': rng.choices(['sread', 'sattach', 'sattr', 'addpar', 'snap', 'drop', 'mattach'],
                                       [6, 2, 1, 1.5, 3, .5, .7])[0], 'j': rng.randrange(9)}
                if o['op'] == 'sread':
                    o['r'] = gen_read(rng, (n, n), False, w)
                elif o['op'] in ('sattach', 'mattach'):
                    o['x'] = rand_sample(rng, n, 3, ['flt', 'pos', 'int', 'dup'])
                elif o['op'] == 'sattr':
                    o.update(n='a%d' % rng.randrange(2), v=rng.choice(['one', 'each']), b=rng.randrange(99))
                elif o['op'] == 'addpar':
                    o['c'] = [rng.choice([1.0, 2.0, 4.0]) for _ in range(rng.choice([1, 2]))]
                ops.append(o)
        elif kind in ('pre', 'const'):
            cfg.update(n=rng.choice([2, 3, 5]), s=rng.randrange(999), v=rng.choice([0.0, 1.0, -2.5]))
            for _ in range(nops):
                o = {'op': rng.choices(['pread', 'snap', 'drop'], [5, 3, .5])[0], 'r': rng.choice(PRE_READS)}
                ops.append(o)
        elif kind == 'kfn':
            skinds, kkinds = kinds_for(rng)
            cfg.update(k=rand_kernel(rng, kkinds, .4), x=rand_sample(rng, 4, 3, skinds or ['flt', 'int', 'pos'], ('C',)))
            for _ in range(nops):
                o = {'op': rng.choices(['call', 'snap', 'drop', 'kstr'], [5, 3, .5, 1])[0], 'i': rng.randrange(4),
                     'j': rng.randrange(4)}
                ops.append(o)
        else:
            t = rng.choice(TYPES)
            reg = t in ('kmr', 'svr')
            d = rng.choice([2, 3])
            cfg.update(t=t, dss=[gen_data(rng, d, reg) for _ in range(2)], tests=[gen_test(rng, d) for _ in range(2)],
                       par=gen_par(rng, t, .04))
            if rng.random() < .85:
                ops.append({'op': 'fit', 'ds': 0, 'sw': None})
            for _ in range(min(nops, 6)):
                o = {'op': rng.choices(['fit', 'predict', 'badfit', 'set', 'snap', 'drop', 'usebucket'],
                                       [1.5, 2, 1, 1, 3, .5, .7])[0]}
                if o['op'] == 'fit':
                    o.update(ds=rng.randrange(2), sw=rng.choice([None, rng.randrange(99)]))
                elif o['op'] == 'predict':
                    o['t'] = rng.randrange(2)
                elif o['op'] == 'badfit':
                    o.update(ds=rng.randrange(2), k=rng.choice(BADFIT))
                elif o['op'] == 'set':
                    p2 = gen_par(rng, t, 0)
                    o['p'] = {k2: p2[k2] for k2 in [rng.choice(sorted(p2))] if k2 != 'method'}
                elif o['op'] == 'usebucket':
                    o['x'] = rand_sample(rng, 5, 3, ['flt'])
                ops.append(o)
        if not any(o['op'] == 'snap' for o in ops):
            ops.insert(rng.randrange(1, len(ops) + 1), {'op': 'snap'})
        nsnap = 0
        for o in ops:
            o['rep'] = rng.random()
            if o['op'] == 'snap':
                nsnap += 1
                o['how'] = rng.choice(['deep', 'deep', 2, 3, 4, 5, 5])
                if nsnap > 4:
                    o['op'] = 'nop'
                o['crash'] = cfg['crash'] and rng.random() < .6
        with_uids(ops)
        faults = []
        if rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                kk = rng.choice(['kerr', 'intr', 'alloc'])
                f = {'kind': kk, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites']),
                     'only': [o['u'] for o in ops if o['op'] in ('read', 'sread', 'cfit', 'predict', 'fit', 'call')]}
                f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                            'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kk]
                faults.append(f)
        return {'cfg': cfg, 'ops': ops, 'faults': faults}

    # ------------------------------------------------------------ run
    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        peer = Peer() if any(o.get('crash') for o in plan['ops']) else None
        try:
            Replicas(sim, plan, peer).run()
        finally:
            if peer is not None:
                peer.close()


def cp_state(st):
    """copy of a model; references (Ref) and arrays are never changed"""
    if isinstance(st, dict):
        return {k: copy.deepcopy(v) if k == 'attrs' else cp_state(v) for k, v in st.items()}
    if isinstance(st, list):
        return [cp_state(x) for x in st]
    return st


class Replicas:
    def __init__(self, sim, plan, peer):
        self.sim, self.plan, self.peer = sim, plan, peer
        self.cfg = plan['cfg']
        self.kind = self.cfg['kind']
        self.reps = []
        self.lost = []

    # -------------------------------------------------------- creation
    def create(self):
        cfg, kind = self.cfg, self.kind
        if kind == 'km':
            return KernelMatrix(mk(cfg['k']), normalized=cfg['norm'], name='N1'), {'ref': None, 'attrs': {}}
        if kind in ('set', 'comp'):
            obs, mem = zip(*[self.member(c, sample(cfg['att'])) for c in cfg['mem']])
            S = KernelSet(list(obs), name='S')
            if kind == 'set':
                return S, {'mem': list(mem)}
            w = cfg['w'][:len(mem)]
            cls = {'sum': SumKernel, 'prod': ProductKernel, 'avg': AverageKernel}
            C = WeightedAverageKernel(S, w) if cfg['c'] == 'wavg' else cls[cfg['c']](S)
            return C, {'mem': list(mem), 'comp': None}
        if kind == 'bucket':
            B = bucket(cfg['b'])
            return B, {'mem': [{'spec': s, 'norm': cfg['b']['norm'], 'ref': None, 'attrs': {}}
                               for s in bucket_specs(cfg['b'])]}
        if kind == 'pre':
            A = sym(cfg['n'], cfg['s'])
            P = KernelMatrixPrecomputed(A.copy(), name='P')
            return P, {'A': A, 'sz': (len(P), P.size)}
        if kind == 'const':
            P = ConstantKernelMatrix(cfg['n'], cfg['v'], name='C')
            return P, {'A': np.full((cfg['n'], cfg['n']), cfg['v']), 'sz': (len(P), P.size)}
        if kind == 'kfn':
            return mk(cfg['k']), {}
        return make(cfg, cfg['par']), {'par': dict(cfg['par']), 'seen': None}

    def member(self, c, X):
        if c['pre']:
            A = sym(self.cfg['n'], c['s'])
            P = KernelMatrixPrecomputed(A.copy())
            return P, {'A': A, 'sz': (len(P), P.size)}
        km = KernelMatrix(mk(c['k']), normalized=c['norm'], name='m')
        km.attach_to(X)
        return km, {'spec': c['k'], 'norm': c['norm'], 'ref': Ref(formula(c['k']), c['norm'], X), 'attrs': {}}

    # -------------------------------------------------------- members of sets
    def setof(self, rep):
        return rep['o'].km_set if self.kind == 'comp' else rep['o']

    # -------------------------------------------------------- observation of one replica
    def observe(self, rep, what, uid, faultable=False):
        if rep.get('remote') is not None:
            return self.peer.ask('do', (rep['remote'], what)), False
        out, _ = quiet_op(self.sim, uid, lambda: perform(rep['o'], what))
        return out, was_faulted(self.sim)

    def need(self, out, who, what):
        expect(out[0] == 'ok', 'unexpected-failure', lambda: '%s: %s raised %r' % (who, what, out[1]))
        return out[1]

    def check_km(self, rep, st, uid, path, who):
        """everything that can be read of a kernel matrix (path: how to reach it)"""
        def wrap(w):
            return w if path is None else ['member', path, w]

        if 'A' in st:
            self.check_pre(rep, st, uid, wrap, who)
            return
        out, _ = self.observe(rep, wrap(['attrs']), uid + '.at')
        a, q = self.need(out, who, 'attributes')
        expect(a == st['attrs'], 'wrong-attributes', lambda: '%s: attributes %s, expected %s' % (who, a, st['attrs']))
        expect(q == [st['attrs'].get(x, 'none!') for x in ('a0', 'a1', 'zz')], 'wrong-attributes',
               lambda: '%s: get_attr %s' % (who, q))
        ref = st['ref']
        if ref is None:
            out, _ = self.observe(rep, wrap(['km', ['full'], (1, 1)]), uid + '.un')
            expect(out[0] == 'raise', 'not-refused', who + ': reading a matrix that was never attached')
            return
        for r in (['meta'], ['elem', ref.shape[0] - 1, 0], ['idx', ['s', None, None, None], ['s', None, None, None], 't'],
                  ['full'], ['frob'], ['sparse'], ['normed'], ['centered'], ['diag']):
            out, _ = self.observe(rep, wrap(['km', r, ref.shape]), '%s.%s' % (uid, r[0]))
            judge(ref, r, out, who=who + ': ')

    def check_pre(self, rep, st, uid, wrap, who):
        A = st['A']
        for k in PRE_READS:
            self.judge_pre(st, k, self.observe(rep, wrap(['pre', k]), uid + '.' + k)[0], who)

    def judge_pre(self, st, k, out, who):
        A = st['A']
        v = self.need(out, who, k)
        if k == 'str':
            return
        want = {'full': lambda: A, 'diag': lambda: A.diagonal(), 'len': lambda: st['sz'][0], 'size': lambda: st['sz'][1],
                'el': lambda: A[0, 1], 'row': lambda: A[1, :]}[k]()
        expect(close(np.ravel(v), np.ravel(want)), 'wrong-value', lambda: '%s: %s gave %s, expected %s' % (
            who, k, brief(v), brief(want)))

    def check(self, rep, uid, who):
        """compare everything the replica shows with its model"""
        st, kind = rep['st'], self.kind
        if kind == 'km':
            self.check_km(rep, st, uid, None, who)
            out, _ = self.observe(rep, ['name'], uid + '.nm')
            expect(self.need(out, who, 'name') == 'N1', 'wrong-value', who + ': the name changed')
        elif kind in ('set', 'bucket'):
            self.check_set(rep, st, uid, who)
        elif kind == 'comp':
            if rep.get('remote') is None:
                for j, m in enumerate(st['mem']):
                    sub = dict(rep, o=rep['o'].km_set)
                    self.check_km(sub, m, '%s.%d' % (uid, j), j, '%s, member %d' % (who, j))
            for v in ('full', 'composite_KM'):
                self.judge_comp(st, v, self.observe(rep, ['comp', v], uid + '.' + v)[0], who)
        elif kind in ('pre', 'const'):
            self.check_pre(rep, st, uid, lambda w: w, who)
        elif kind == 'kfn':
            for i in range(4):
                self.judge_call(i, 3 - i, self.observe(rep, self.callspec(i, 3 - i), '%s.%d' % (uid, i))[0], who)
        else:
            for i in range(2):
                self.judge_pred(st, i, self.observe(rep, ['predict', self.cfg['tests'][i]], '%s.p%d' % (uid, i))[0], who)
            out, _ = self.observe(rep, ['ests'], uid + '.pa')
            self.judge_par(st, self.need(out, who, 'parameters'), who)

    def check_set(self, rep, st, uid, who):
        out, _ = self.observe(rep, ['iter'], uid + '.it')
        n = len(st['mem'])
        v = self.need(out, who, 'members')
        expect(v[:3] == (n, n, n), 'wrong-size', lambda: '%s: (members, len, size) = %s, expected %d' % (who, v[:3], n))
        for j, m in enumerate(st['mem']):
            self.check_km(rep, m, '%s.%d' % (uid, j), j, '%s, member %d' % (who, j))
        if not any('A' in m for m in st['mem']):
            out, _ = self.observe(rep, ['sattr', 'a0'], uid + '.sa')
            got = self.need(out, who, 'get_attr')
            want = [m['attrs'].get('a0', 'none!') for m in st['mem']]
            expect(got == want, 'wrong-attributes', lambda: '%s: attributes %s, expected %s' % (who, got, want))

    def callspec(self, i, j):
        X = sample(self.cfg['x'])
        return ['call', X[i].tolist(), X[j].tolist()]

    def judge_call(self, i, j, out, who):
        X = sample(self.cfg['x'])
        want = formula(self.cfg['k'])(X[i], X[j])
        got = self.need(out, who, 'the kernel')
        expect(close(float(got), want), 'wrong-value', lambda: '%s: k(x%d, x%d) = %s, expected %s' % (
            who, i, j, got, want))

    def judge_comp(self, st, v, out, who):
        if st['comp'] is None:
            expect(out[0] == 'raise', 'not-refused', lambda: '%s: %s before any fit' % (who, v))
            return
        if isinstance(st['comp'], str):
            return
        got = self.need(out, who, v)
        expect(close(np.asarray(got), st['comp'], rtol=1e-6), 'wrong-value', lambda: '%s: %s is %s, expected %s' % (
            who, v, brief(got), brief(st['comp'])))

    def judge_pred(self, st, i, out, who):
        want = st['seen'][i] if st['seen'] is not None else 'raise'
        if isinstance(want, str):
            expect(out[0] == 'raise', 'not-refused', lambda: '%s: predicts %s, the original raised' % (
                who, brief(out[1])))
            return
        got = self.need(out, who, 'predict')
        # the same computation on the same state
        ok = got.shape == want.shape and np.allclose(got, want, rtol=1e-7, atol=1e-9)
        expect(ok, 'wrong-prediction', lambda: '%s: predicts %s, the original %s' % (who, brief(got), brief(want)))

    def judge_par(self, st, v, who):
        p = st['par']
        if self.cfg['t'] in ('km', 'kmr'):
            k = mk(p['k'])
            expect(v == (type(k).__name__, str(k), p['norm']), 'wrong-parameters', lambda: '%s: %s' % (who, v))
        else:
            expect(v == (str(len(bucket_specs(p['b']))), p['method'], p['C']), 'wrong-parameters',
                   lambda: '%s: %s' % (who, v))

    # -------------------------------------------------------- operations
    def run(self):
        sim = self.sim
        o, st = self.create()
        self.reps.append({'o': o, 'st': st, 'id': 0})
        changed = lost = restored = False
        for op in self.plan['ops']:
            live = [r for r in self.reps if r.get('remote') is None]
            rep = live[int(op['rep'] * len(live))] if live else None
            k = op['op']
            if k == 'nop' or rep is None:
                continue
            if k == 'snap':
                self.snap(op, rep)
                restored = True
            elif k == 'drop':
                if len(live) > 1:
                    self.reps = [r for r in self.reps if r is not rep]
                    rep['o'] = None
                    lost = True
                    sim.probe('original-lost')
            else:
                self.step(op, rep)
                changed = changed or restored
            sim.state('C15', self.kind, k, len(self.reps), was_faulted(sim))
        for n, rep in enumerate(self.reps):
            who = '%s %d%s' % (self.kind, rep['id'], ' (restored%s)' % (
                ' after a crash' if rep.get('remote') is not None else '') if rep['id'] else '')
            self.check(rep, 'end%d' % n, who)
        if restored and (changed or lost):
            sim.nontrivial = True

    def snap(self, op, rep):
        sim = self.sim
        how = op['how']
        if op.get('crash') and how == 'deep':
            how = 4
        if how == 'deep':
            out, _ = quiet_op(sim, op['u'], lambda: copy.deepcopy(rep['o']))
        else:
            out, _ = quiet_op(sim, op['u'], lambda: pickle.dumps(rep['o'], protocol=how))
        expect(out[0] == 'ok', 'not-copied', lambda: '%s could not be copied (%s): %r' % (self.kind, how, out[1]))
        new = {'st': cp_state(rep['st']), 'id': rep['id'] + len(self.reps)}
        if self.kind == 'est':
            # what the original shows at this moment
            seen = []
            for i in range(2):
                o2, _ = quiet_op(sim, '%s.o%d' % (op['u'], i),
                                 lambda: perform(rep['o'], ['predict', self.cfg['tests'][i]]))
                seen.append(o2[1] if o2[0] == 'ok' else 'raise')
            rep['st']['seen'] = new['st']['seen'] = seen
        who = '%s restored from a copy (%s)' % (self.kind, how)
        if op.get('crash'):
            res = self.peer.ask('load', out[1])
            expect(res[0] == 'ok', 'not-restored', lambda: '%s: the checkpoint could not be read by a new process: %r' % (
                self.kind, res[1]))
            new['remote'] = res[1]
            sim.probe('crash-restore')
        else:
            if how == 'deep':
                new['o'] = out[1]
            else:
                o2, _ = quiet_op(sim, op['u'] + '.ld', lambda: pickle.loads(out[1]))
                expect(o2[0] == 'ok', 'not-restored', lambda: '%s: the checkpoint could not be read: %r' % (
                    self.kind, o2[1]))
                new['o'] = o2[1]
            expect(type(new['o']) is type(rep['o']), 'wrong-form', who)
            sim.probe('restore-' + str(how))
        self.reps.append(new)
        if op['rep'] < .5:
            self.check(new, op['u'] + '.c', who)

    def step(self, op, rep):
        sim, cfg, st, k = self.sim, self.cfg, rep['st'], op['op']
        u = op['u']
        who = '%s %d: ' % (self.kind, rep['id'])
        if k == 'attach':
            X, Y = build(op['a'])
            out, _ = quiet_op(sim, u, lambda: attach(rep['o'], op['a'], X, Y))
            self.need(out, who, 'attach')
            st['ref'] = Ref(formula(cfg['k']), cfg['norm'], X, Y)
            st['attrs'] = {}
        elif k == 'badattach':
            X = np.ones((2, 3))
            out, _ = quiet_op(sim, u, lambda: rep['o'].attach_to(X, sample_two=np.ones((2, 4))))
            expect(out[0] == 'raise', 'not-refused', who + 'samples of different dimension')
        elif k == 'read':
            out, fired = self.observe(rep, ['km', op['r'], st['ref'].shape if st['ref'] is not None else (1, 1)], u)
            if st['ref'] is None:
                expect(out[0] == 'raise', 'not-refused', who + 'read before attachment')
            elif op['r'][0] in ('elem', 'idx', 'lin') and self.outside(op['r'], st['ref'].shape):
                pass
            else:
                judge(st['ref'], op['r'], out, fired, who)
        elif k == 'attr':
            v = copy.deepcopy(op['v'])
            old = rep['o'].get_attr(op['n'])
            if op['mut'] and isinstance(old, list) and op['n'] in st['attrs']:
                old.append(7)
                st['attrs'][op['n']].append(7)
            else:
                out, _ = quiet_op(sim, u, lambda: rep['o'].set_attr(op['n'], v))
                self.need(out, who, 'set_attr')
                st['attrs'][op['n']] = copy.deepcopy(v)
        elif k in ('sread', 'mattach'):
            j = op['j'] % len(st['mem'])
            m = st['mem'][j]
            S = self.setof(rep)
            if 'A' in m:
                out, fired = self.observe(dict(rep, o=S), ['member', j, ['pre', 'full']], u)
                if not fired:
                    self.judge_pre(m, 'full', out, who)
            elif k == 'mattach':
                if self.kind == 'bucket' and m['ref'] is None:
                    return
                X = sample(op['x'])
                out, _ = quiet_op(sim, u, lambda: S[j].attach_to(X))
                self.need(out, who, 'attach')
                m['ref'] = Ref(self.mform(m), m['norm'], X)
                m['attrs'] = {}
            else:
                out, fired = self.observe(dict(rep, o=S), ['member', j, ['km', op['r'], (cfg['n'], cfg['n'])]], u)
                if m['ref'] is None:
                    expect(out[0] == 'raise', 'not-refused', who + 'read before attachment')
                else:
                    judge(m['ref'], op['r'], out, fired, who)
        elif k == 'sattach':
            if any('A' in m for m in st['mem']):
                return
            X = sample(op['x'])
            kw = {'attr_name': 'a1', 'attr_value': op['at']} if 'at' in op else {}
            S = self.setof(rep)
            out, _ = quiet_op(sim, u, lambda: S.attach_to(X, **kw))
            self.need(out, who, 'attach')
            for m in st['mem']:
                m['ref'] = Ref(self.mform(m), m['norm'], X)
                m['attrs'] = {'a1': op['at']} if 'at' in op else {}
        elif k == 'sattr':
            if any('A' in m for m in st['mem']):
                return
            vals = [op['b'] + i for i in range(len(st['mem']))] if op['v'] == 'each' else [op['b']] * len(st['mem'])
            arg = vals if op['v'] == 'each' else op['b']
            S = self.setof(rep)
            out, _ = quiet_op(sim, u, lambda: S.set_attr(op['n'], arg))
            self.need(out, who, 'set_attr')
            for m, v in zip(st['mem'], vals):
                m['attrs'][op['n']] = v
        elif k == 'append':
            X = sample(op['x'])
            ob, m = self.member(op, X)
            out, _ = quiet_op(sim, u, lambda: rep['o'].append(ob))
            self.need(out, who, 'append')
            st['mem'].append(m)
        elif k == 'addpar':
            if any(m['ref'] is not None for m in st['mem']):
                return
            out, _ = quiet_op(sim, u, lambda: rep['o'].add_parametrized_kernels(BTag, 'c', op['c']))
            self.need(out, who, 'add_parametrized_kernels')
            for c in op['c']:
                st['mem'].append({'spec': ['btag', {'c': c}], 'norm': cfg['b']['norm'], 'ref': None, 'attrs': {}})
        elif k == 'cfit':
            try:
                want = self.combined(st)
            except NormErr:
                want = None
            out, _ = quiet_op(sim, u, lambda: rep['o'].fit())
            edge = any('ref' in m and m['ref'].normalized and m['ref'].near_norm_edge() for m in st['mem'])
            if out[0] == 'ok':
                expect(want is not None or edge, 'not-refused', who + 'fit')
                st['comp'] = want if want is not None else 'may'
            else:
                expect(want is None or was_faulted(sim) or edge, 'unexpected-failure', lambda: who + 'fit raised %r' % (
                    out[1],))
                if st['comp'] is not None or edge:
                    st['comp'] = 'may'
        elif k == 'cread':
            out, _ = self.observe(rep, ['comp', op['v']], u)
            self.judge_comp(st, op['v'], out, who)
        elif k == 'pread':
            out, _ = self.observe(rep, ['pre', op['r']], u)
            self.judge_pre(st, op['r'], out, who)
        elif k == 'call':
            out, fired = self.observe(rep, self.callspec(op['i'], op['j']), u)
            if not fired:
                self.judge_call(op['i'], op['j'], out, who)
        elif k == 'kstr':
            out, _ = self.observe(rep, ['str'], u)
            self.need(out, who, 'str')
        else:
            self.est_step(op, rep, who)

    def est_step(self, op, rep, who):
        sim, cfg, st, k, u = self.sim, self.cfg, rep['st'], op['op'], op['u']
        if k == 'fit':
            ds = cfg['dss'][op['ds']]
            X, y = data(ds)
            out, _ = quiet_op(sim, u, lambda: rep['o'].fit(X, y, sample_weight=weights_for(ds, op['sw'])))
            expect(out[0] == 'ok' or was_faulted(sim), 'unexpected-failure', lambda: '%s fit raised %r' % (who, out[1]))
            self.refresh(rep, u)
            if out[0] == 'ok' and rep['id']:
                # a restored object is fitted like any other
                m = Model(cfg, dict(st['par']), ds, op['sw'], cfg['tests'])
                for i in range(2):
                    expect(not isinstance(st['seen'][i], str) and m.agrees(i, st['seen'][i]), 'wrong-prediction',
                           lambda: '%sa restored and fitted estimator predicts %s, a new one %s' % (
                               who, st['seen'][i], m.pred[i]))
        elif k == 'badfit':
            X, y, sw = bad_fit(op['k'], cfg['dss'][op['ds']], cfg['t'])
            out, _ = quiet_op(sim, u, lambda: rep['o'].fit(X, y, sample_weight=sw))
            expect(out[0] == 'raise', 'not-refused', lambda: who + 'fit with %s accepted' % op['k'])
            self.refresh(rep, u)
        elif k == 'set':
            out, _ = quiet_op(sim, u, lambda: rep['o'].set_params(**C10.real(cfg['t'], op['p'])))
            self.need(out, who, 'set_params')
            st['par'].update(op['p'])
            self.refresh(rep, u)
        elif k == 'usebucket':
            if cfg['t'] in ('svc', 'svr'):
                # the user goes on using the bucket handed to the estimator (through its parameters)
                B = rep['o'].k_bucket
                out, _ = quiet_op(sim, u, lambda: B.set_attr('a0', 5))
                self.refresh(rep, u)
        elif k == 'predict':
            out, fired = self.observe(rep, ['predict', cfg['tests'][op['t']]], u)
            if not fired and st['seen'] is not None:
                self.judge_pred(st, op['t'], out, who)

    def refresh(self, rep, u):
        """what this estimator predicts now"""
        seen = []
        for i in range(2):
            o2, _ = quiet_op(self.sim, '%s.s%d' % (u, i), lambda: perform(rep['o'], ['predict', self.cfg['tests'][i]]))
            seen.append(o2[1] if o2[0] == 'ok' else 'raise')
        rep['st']['seen'] = seen

    # -------------------------------------------------------- helpers
    def mform(self, m):
        return bformula(m['spec'])

    def combined(self, st):
        M = [m['A'] if 'A' in m else m['ref'].full() for m in st['mem']]
        t = self.cfg['c']
        if t == 'prod':
            return np.prod(np.array(M), axis=0)
        if t == 'avg':
            return np.sum(np.array(M), axis=0) / len(M)
        w = self.cfg['w'] if t == 'wavg' else [1.0] * len(M)
        return np.sum([a * b for a, b in zip(w, M)], axis=0)

    @staticmethod
    def outside(r, shape):
        """the read was generated for another attachment (of another replica): bounds may not fit"""
        n, m = shape
        if r[0] == 'elem':
            return r[1] >= n or r[2] >= m
        if r[0] == 'lin':
            return r[1] >= n * m
        for ix, k in ((r[1], n), (r[2], m)):
            if isinstance(ix, int) and ix >= k:
                return True
            if not isinstance(ix, int):
                if ix[0] == 'np' and ix[1] >= k or ix[0] in ('l', 't', 'a', 'set', 'gen', 'fs', 'i32', 'u8') and max(ix[1]) >= k:
                    return True
                if ix[0] == 'r' and ix[2] > k:
                    return True
                if ix[0] == 's' and not list(range(k))[slice(*ix[1:])]:
                    return True
        return False
