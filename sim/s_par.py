"""Scenarios on estimator parameters (C23) and on fits running at the same time (C24)."""
import copy
import warnings

import numpy as np
from sklearn.base import clone
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import cross_val_score

from kmops import formula, mk, quiet_op, was_faulted
from model import Ref, brief, close, expect
from s_est import (BADFIT, TYPES, Model, bad_fit, bformula, bucket, bucket_specs, data, gen_bucket, gen_data, gen_kspec,
                   gen_par, gen_test, make, test_data)
from s_km import SCHED_FAULTS, gen_sched, with_uids
from kernelmethods.base import KernelSet, KernelMatrix, AverageKernel, ProductKernel, SumKernel
from kernelmethods.ranking import find_optimal_kernel, rank_kernels
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

NAMES = {'km': ['k_func', 'learner_id', 'normalized'], 'kmr': ['k_func', 'learner_id', 'normalized'],
         'svc': ['k_bucket', 'method', 'C', 'shrinking', 'tol'],
         'svr': ['k_bucket', 'method', 'C', 'epsilon', 'shrinking', 'tol']}
KEY = {'k': 'k_func', 'lid': 'learner_id', 'norm': 'normalized', 'b': 'k_bucket'}


def gen_full(rng, t):
    """all the parameters of an estimator"""
    if t in ('km', 'kmr'):
        return {'k': gen_kspec(rng), 'norm': rng.random() < .5,
                'lid': rng.choice(['SVC', 'svc', 'SVM', 'svm'] if t == 'km' else ['SVR', 'svr'])}
    p = {'b': gen_bucket(rng) if rng.random() < .75 else rng.choice(['linear_only', 'linear_only', 'Linear_Only', 'light']),
         'method': rng.choice(['align/corr', 'align/corr', 'ALIGN/corr']), 'C': rng.choice([.5, 1.0, 5.0, 2, 1e-4, 60.0]),
         'shrinking': rng.random() < .7, 'tol': rng.choice([1e-3, 1e-3, 1e-4])}
    if t == 'svr':
        p['epsilon'] = rng.choice([.05, .1, .2, 0.0])
    return p


def folds_for(y, reg, k):
    """train/test splits in which every class is in every part"""
    part = np.empty(len(y), int)
    if reg:
        part[:] = np.arange(len(y)) % k
    else:
        for c in sorted(set(y.tolist())):
            i = np.flatnonzero(y == c)
            part[i] = np.arange(len(i)) % k
    return [(np.flatnonzero(part != q), np.flatnonzero(part == q)) for q in range(k)]


def bucket_facts(b):
    return (b.size, tuple(id(x) for x in b), b.num_samples, tuple(x.num_samples for x in b),
            tuple((str(x.kernel), getattr(x.kernel, 'c', 0)) for x in b), b.name)


class C23:
    rule = ('a seeded history of fits, refused fits, predictions, scores, parameter changes (set_params and attributes), '
            'clones and cross-validations on one estimator of each kind, with kernel errors, interrupts and allocation '
            'failures inside them; parameters are compared after every step, clones and fits with fresh estimators; '
            'non-trivial: parameters checked after a fit or a fault, then used by a clone or fit')
    assumptions = ['unknown parameter names given to set_params are not judged',
                   'an interrupted set_params may have set some of the parameters, each to the old or the new value']

    @staticmethod
    def gen(rng, tier):
        t = rng.choice(TYPES)
        reg = t in ('kmr', 'svr')
        d = rng.choice([2, 2, 3])
        dss = [gen_data(rng, d, reg, True) for _ in range(2)]
        for x in dss:
            x['n'] = min(x['n'], 12)
        tests = [gen_test(rng, d, dss, True)]
        ops = []
        for k in range(rng.choice([3, 5, 7, 9])):
            x = rng.random()
            if x < .26:
                o = {'op': 'fit', 'ds': rng.randrange(2)}
            elif x < .34:
                o = {'op': 'badfit', 'ds': rng.randrange(2), 'k': rng.choice(BADFIT)}
            elif x < .55:
                p2 = gen_full(rng, t)
                keys = [k2 for k2 in p2 if rng.random() < .5] or [rng.choice(sorted(p2))]
                rng.shuffle(keys)
                o = {'op': 'set', 'p': [[k2, p2[k2]] for k2 in keys], 'how': rng.choice(['set', 'set', 'attr'])}
            elif x < .65:
                o = {'op': 'predict'}
            elif x < .7:
                o = {'op': 'score', 'ds': rng.randrange(2)}
            elif x < .86:
                o = {'op': 'clone', 'go': rng.random() < .6}
            elif x < .93:
                o = {'op': 'cvs', 'ds': rng.randrange(2), 'k': rng.choice([2, 2, 3])}
            else:
                o = {'op': 'reset'}         # a parameter round trip
            ops.append(o)
        ops.append({'op': 'fit', 'ds': rng.randrange(2)})
        with_uids(ops)
        faults = []
        if rng.random() < .6:
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(['kerr', 'intr', 'intr', 'intr', 'alloc'])
                f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(),
                     'mode': rng.choice(['points', 'ops', 'sites', 'sites']), 'only': [o['u'] for o in ops]}
                if kind == 'intr' and rng.random() < .3:
                    f['f2'] = 1 - 10 ** rng.uniform(-4, -.5)
                    f['mode'] = 'ops'
                f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                            'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]
                faults.append(f)
        return {'cfg': {'t': t, 'dss': dss, 'tests': tests, 'par': gen_full(rng, t)}, 'ops': ops, 'faults': faults}

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        cfg = plan['cfg']
        t = cfg['t']
        reg = t in ('kmr', 'svr')
        T = test_data(cfg['tests'][0])
        models = {}

        def arg(k, v):
            """JSON parameter -> (name, value)"""
            if k == 'k':
                return 'k_func', mk(v)
            if k == 'b':
                return 'k_bucket', v if isinstance(v, str) else bucket(v)
            return KEY.get(k, k), v

        def model(par, ds):
            key = repr((sorted(par.items(), key=repr), ds))
            if key not in models:
                models[key] = Model(cfg, dict(par), cfg['dss'][ds], None, cfg['tests'])
            return models[key]

        def same_kernel(a, b):
            return type(a) is type(b) and str(a) == str(b) and getattr(a, 'c', 0) == getattr(b, 'c', 0)

        class Inst:
            """an estimator, with what its parameters must be"""

            def __init__(self, est, par):
                self.est, self.par = est, dict(par)         # JSON
                got = est.get_params()
                expect(sorted(got) == sorted(NAMES[t]), 'wrong-params', lambda: 'get_params names %s' % sorted(got))
                self.want = dict(got)                       # the very values
                self.facts = {}
                self.note()
                self.fit = None                             # model, 'any' or None: not fitted

            def note(self):
                b = self.want.get('k_bucket')
                self.facts = bucket_facts(b) if isinstance(b, KernelBucket) else None

            def check(self, what):
                for deep in (True, False):
                    got = self.est.get_params(deep=deep)
                    expect(sorted(got) == sorted(self.want), 'wrong-params', lambda: '%s: get_params names %s' % (
                        what, sorted(got)))
                    for n, v in self.want.items():
                        g = got[n]
                        ok = g is v if n in ('k_func',) or isinstance(v, KernelBucket) else \
                            (type(g) is type(v) and g == v)
                        expect(ok, 'wrong-params', lambda: '%s: parameter %s is %r, it was set to %r' % (
                            what, n, g, v))
                        expect(getattr(self.est, n) is g or getattr(self.est, n) == g, 'wrong-params',
                               lambda: '%s: attribute %s is %r' % (what, n, getattr(self.est, n)))
                b = self.want.get('k_bucket')
                if isinstance(b, KernelBucket):
                    expect(bucket_facts(b) == self.facts, 'wrong-params', lambda: '%s: the bucket given has changed: '
                           '%s, before %s' % (what, bucket_facts(b), self.facts))

        def params_match(got, par, what):
            """parameters (of a clone or a new estimator) against their JSON"""
            for k, v in par.items():
                n, w = arg(k, v)
                g = got[n]
                if n == 'k_func':
                    ok = same_kernel(g, w)
                elif isinstance(w, KernelBucket):
                    ok = isinstance(g, KernelBucket) and g.size == w.size and g.num_samples is None and \
                        all(same_kernel(x.kernel, y.kernel) for x, y in zip(g, w)) and g.name == w.name
                else:
                    ok = type(g) is type(w) and g == w
                expect(ok, 'wrong-params', lambda: '%s: parameter %s is %r, expected %r' % (what, n, g, w))

        def refused(est, what):
            """not fitted"""
            try:
                p = est.predict(T)
            except Exception:
                return
            expect(False, 'fitted-clone', '%s predicts %s without a fit' % (what, brief(p)))

        inst = Inst(make(cfg, cfg['par']), cfg['par'])
        params_match(inst.want, cfg['par'], 'a new estimator')
        inst.check('a new estimator')
        others = []
        used = False
        for o in plan['ops']:
            op = o['op']
            est = inst.est
            what = '%s %s' % (t, op)
            if op == 'fit':
                ref = model(inst.par, o['ds'])
                X, y = data(cfg['dss'][o['ds']])
                out, _ = quiet_op(sim, o['u'], lambda: est.fit(X, y))
                if out[0] == 'ok':
                    inst.fit = ref
                    got = np.asarray(est.predict(T))
                    expect(ref.agrees(0, got), 'wrong-model', lambda: '%s: a fit with parameters %s predicts %s, a fresh '
                           'estimator with these %s' % (t, inst.par, brief(got), brief(ref.pred[0])))
                    sim.probe('fit-checked')
                    sim.nontrivial = sim.nontrivial or used
                else:
                    expect(was_faulted(sim), 'unexpected-failure', lambda: 'fit raised %r' % (out[1],))
                    inst.fit = 'any'
                used = True
            elif op == 'badfit':
                X, y, sw = bad_fit(o['k'], cfg['dss'][o['ds']], t)
                out, _ = quiet_op(sim, o['u'], lambda: est.fit(X, y, sample_weight=sw))
                expect(out[0] == 'raise', 'not-refused', lambda: 'fit with %s accepted' % o['k'])
                inst.fit = 'any'
                used = True
            elif op == 'set':
                new = [arg(k, v) for k, v in o['p']]

                def change():
                    if o['how'] == 'set':
                        return est.set_params(**dict(new))
                    for n, v in new:
                        setattr(est, n, v)
                    return est
                out, _ = quiet_op(sim, o['u'], change)
                if out[0] == 'ok':
                    expect(out[1] is est, 'wrong-form', 'set_params did not return the estimator')
                    inst.want.update(new)
                    inst.par.update(dict((k, v) for k, v in o['p']))
                else:
                    expect(was_faulted(sim), 'unexpected-failure', lambda: 'set_params raised %r' % (out[1],))
                    got = est.get_params()
                    for (n, v), (k, j) in zip(new, o['p']):
                        old = inst.want[n]
                        if got[n] is v or (n not in ('k_func', 'k_bucket') and got[n] == v):
                            inst.want[n] = v
                            inst.par[k] = j
                        else:
                            expect(got[n] is old or got[n] == old, 'wrong-params',
                                   lambda: 'an interrupted set_params left %s = %r' % (n, got[n]))
                    sim.probe('interrupted-set')
                inst.note()
                if inst.fit is not None:
                    inst.fit = 'any'
            elif op in ('predict', 'score'):
                if op == 'predict':
                    out, _ = quiet_op(sim, o['u'], lambda: est.predict(T))
                else:
                    X, y = data(cfg['dss'][o['ds']])
                    out, _ = quiet_op(sim, o['u'], lambda: est.score(X, y))
                if out[0] == 'ok':
                    expect(inst.fit is not None, 'fitted-clone', '%s without a fit gives %s' % (op, brief(out[1])))
                    if op == 'predict' and inst.fit != 'any':
                        expect(inst.fit.agrees(0, out[1]), 'wrong-model', lambda: '%s predicts %s, expected %s' % (
                            t, brief(out[1]), brief(inst.fit.pred[0])))
                else:
                    expect(was_faulted(sim) or inst.fit in (None, 'any'), 'unexpected-failure',
                           lambda: '%s raised %r' % (op, out[1]))
            elif op == 'clone':
                out, _ = quiet_op(sim, o['u'], lambda: clone(est))
                if out[0] == 'ok':
                    new = out[1]
                    expect(type(new) is type(est) and new is not est, 'wrong-form', 'clone of another type')
                    params_match(new.get_params(), inst.par, 'a clone')
                    refused(new, 'a clone')
                    other = Inst(new, inst.par)
                    sim.probe('clone-checked')
                    sim.nontrivial = sim.nontrivial or used
                    if o['go']:
                        inst.check(what)
                        others.append(inst)
                        inst = other
                else:
                    expect(was_faulted(sim), 'unexpected-failure', lambda: 'clone raised %r' % (out[1],))
            elif op == 'cvs':
                X, y = data(cfg['dss'][o['ds']])
                cv = folds_for(y, reg, o['k'])
                want = []
                for tr, te in cv:
                    m = make(cfg, inst.par).fit(X[tr], y[tr])
                    p = m.predict(X[te])
                    want.append(r2_score(y[te], p) if reg else accuracy_score(y[te], p))
                out, _ = quiet_op(sim, o['u'], lambda: cross_val_score(est, X, y, cv=cv, error_score='raise'))
                if out[0] == 'ok':
                    expect(close(np.asarray(out[1]), np.array(want), rtol=1e-6, scale=1e-3), 'wrong-model',
                           lambda: '%s: cross-validation gives %s, fresh estimators %s' % (t, out[1], want))
                    sim.probe('cv-checked')
                    sim.nontrivial = sim.nontrivial or used
                else:
                    expect(was_faulted(sim), 'unexpected-failure', lambda: 'cross_val_score raised %r' % (out[1],))
                if inst.fit is None:
                    refused(est, 'an estimator that was only cross-validated')
            else:
                out, _ = quiet_op(sim, o['u'], lambda: est.set_params(**est.get_params()))
                expect(out[0] == 'ok' or was_faulted(sim), 'unexpected-failure', lambda: 'set_params raised %r' % (
                    out[1],))
            inst.check(what)
            sim.state('C23', t, op, inst.fit is None, inst.fit == 'any', was_faulted(sim), len(others))
        for i in others:
            i.check('%s, after the use of a clone' % t)
            if i.fit is None:
                refused(i.est, 'the original of a clone')
            elif i.fit != 'any':
                got = i.est.predict(T)
                expect(i.fit.agrees(0, got), 'wrong-model', lambda: 'after the use of a clone the original predicts %s, '
                       'expected %s' % (brief(got), brief(i.fit.pred[0])))


# ---------------------------------------------------------------- C24

STRATEGY = {'linear_only': [['lin', {}]],
            'light': [['lin', {}]] + [['poly', {'degree': v}] for v in (2, 3)] +
                     [['gauss', {'sigma': v}] for v in (.125, .5, 2)] + [['lap', {'gamma': v}] for v in (.125, .5, 2)] +
                     [['sig', {}]] * 6}


class C24:
    rule = ('2-3 threads, each with estimators, buckets and sets of its own over shared kernel functions, buckets (only '
            'given, never attached) and data arrays: fits, predictions, selections, rankings, bucket constructions and '
            'combinations under a seeded scheduler, in some runs with an error or interrupt in one thread; every outcome '
            'compared with the same operation done alone; non-trivial: threads switched during a checked operation')
    threaded = True

    @staticmethod
    def gen(rng, tier):
        d = rng.choice([2, 2, 3])
        reg = rng.random() < .4
        nd = rng.choice([1, 2, 2])
        dss = [gen_data(rng, d, reg) for _ in range(nd)]
        for x in dss:
            x['n'] = min(x['n'], 10)
        if nd == 2 and rng.random() < .4:
            dss[1]['n'] = dss[0]['n']
        b = gen_bucket(rng)
        k = gen_kspec(rng)
        tests = [gen_test(rng, d, dss) for _ in range(2)]
        for x in tests:
            x['m'] = min(x['m'], 8)
        ops = []
        nt = rng.choice([2, 2, 3])
        for tid in range(1, nt + 1):
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.random()
                if x < .55:
                    t = rng.choice(['kmr', 'svr', 'kmr'] if reg else ['km', 'km', 'svc'])
                    par = {'k': k if rng.random() < .7 else gen_kspec(rng), 'norm': rng.random() < .5} \
                        if t in ('km', 'kmr') else \
                        {'b': b if rng.random() < .6 else
                         rng.choice([gen_bucket(rng), 'linear_only', 'linear_only', 'light']), 'method': 'align/corr',
                         'C': rng.choice([.5, 1.0, 5.0, 1e-3])}
                    o = {'op': 'fit', 't': t, 'par': par, 'ds': rng.randrange(nd), 'T': rng.randrange(2)}
                elif x < .7:
                    o = {'op': 'find', 'ds': rng.randrange(nd), 'rank': rng.random() < .5, 'b': b}
                elif x < .85:
                    o = {'op': 'comp', 'ds': rng.randrange(nd), 'k': rng.choice(['sum', 'prod', 'avg']),
                         'ks': [k if rng.random() < .5 else gen_kspec(rng) for _ in range(rng.choice([2, 3]))],
                         'norm': rng.random() < .5}
                else:
                    o = {'op': 'make', 'ds': rng.randrange(nd),
                         'b': b if rng.random() < .4 else rng.choice([gen_bucket(rng), 'linear_only', 'light'])}
                o['tid'] = tid
                ops.append(o)
        with_uids(ops)
        faults = []
        if rng.random() < .3:
            kind = rng.choice(['kerr', 'intr', 'alloc'])
            faults.append({'kind': kind, 'f1': rng.random(), 'f2': rng.random(),
                           'mode': rng.choice(['points', 'ops', 'sites', 'sites']),
                           'only': [o['u'] for o in ops if o['tid'] == 1],
                           'exc': {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                                   'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]})
        return {'cfg': {'dss': dss, 'tests': tests, 'k': k, 'b': b}, 'ops': ops, 'faults': faults,
                'sched': gen_sched(rng)}

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        cfg = plan['cfg']
        shared_k, shared_b = mk(cfg['k']), bucket(cfg['b'])
        facts = bucket_facts(shared_b)
        XY = [data(ds) for ds in cfg['dss']]
        tests = [test_data(x) for x in cfg['tests']]
        ctx = {}

        def kern(spec):
            return shared_k if spec == cfg['k'] else mk(spec)
        for o in plan['ops']:
            c = ctx[o['u']] = {}
            X, y = XY[o['ds']]
            if o['op'] == 'fit':
                est = make({'t': o['t']}, o['par'])
                if o['t'] in ('km', 'kmr'):
                    est.set_params(k_func=kern(o['par']['k']))
                elif o['par']['b'] == cfg['b']:
                    est.set_params(k_bucket=shared_b)
                c['est'] = est
                c['ref'] = Model({'t': o['t']}, o['par'], cfg['dss'][o['ds']], None, cfg['tests'])
            elif o['op'] == 'find':
                alone = bucket(o['b'])
                alone.attach_to(X)
                c['scores'] = np.asarray(rank_kernels(alone, y, method='align/corr'), float)
                c['B'] = bucket(o['b'])
                if o['rank']:
                    c['B'].attach_to(X)
            elif o['op'] == 'comp':
                kms = [KernelMatrix(kern(s), normalized=o['norm']) for s in o['ks']]
                for km in kms:
                    km.attach_to(X)
                c['set'] = KernelSet(kms)
                refs = [Ref(formula(s), o['norm'], X).full() for s in o['ks']]
                tot = np.ones_like(refs[0]) if o['k'] == 'prod' else np.zeros_like(refs[0])
                for r in refs:
                    tot = tot * r if o['k'] == 'prod' else tot + r
                c['want'] = tot / len(refs) if o['k'] == 'avg' else tot
                c['comp'] = {'sum': SumKernel, 'prod': ProductKernel, 'avg': AverageKernel}[o['k']](c['set'])

        def one(task, o):
            op, c = o['op'], ctx[o['u']]
            X, y = XY[o['ds']]
            if op == 'fit':
                est, ref = c['est'], c['ref']
                out = sim.op(o['u'], lambda: est.fit(X, y), task)
                if out[0] == 'ok':
                    out = sim.op(o['u'] + '.p', lambda: est.predict(tests[o['T']]), task)
                    expect(out[0] == 'ok', 'unexpected-failure', lambda: 'predict raised %r' % (out[1],))
                    expect(ref.agrees(o['T'], out[1]), 'wrong-model', lambda: '%s fitted while others were: predictions '
                           '%s, fitted alone %s' % (o['t'], brief(out[1]), brief(ref.pred[o['T']])))
                    c['ok'] = True
                    sim.probe('fit-checked')
                else:
                    expect(task.fired, 'unexpected-failure', lambda: 'fit raised %r' % (out[1],))
            elif op == 'find':
                B = c['B']
                want = c['scores']
                if o['rank']:
                    out = sim.op(o['u'], lambda: rank_kernels(B, y, method='align/corr'), task)
                    if out[0] == 'ok':
                        expect(close(np.asarray(out[1], float), want, rtol=1e-6, scale=1.0), 'wrong-scores',
                               lambda: 'a ranking gave %s, alone %s' % (out[1], want))
                else:
                    out = sim.op(o['u'], lambda: find_optimal_kernel(B, X, y, method='align/corr'), task)
                    if out[0] == 'ok':
                        i = [q for q, x in enumerate(B) if x is out[1]]
                        expect(len(i) == 1 and want[i[0]] >= np.nanmax(want) - 1e-9, 'wrong-selection',
                               lambda: 'selected %s, scores alone %s' % (i, want))
                        expect(out[1].num_samples == len(X), 'wrong-selection', 'size of the selected kernel matrix')
                expect(out[0] == 'ok' or task.fired, 'unexpected-failure', lambda: 'ranking raised %r' % (out[1],))
                sim.probe('ranking-checked')
            elif op == 'comp':
                out = sim.op(o['u'], lambda: (c['comp'].fit(), c['comp'].composite_KM)[1], task)
                if out[0] == 'ok':
                    expect(close(out[1], c['want']), 'wrong-combination', lambda: '%s kernel %s, expected %s' % (
                        o['k'], brief(out[1]), brief(c['want'])))
                    sim.probe('combination-checked')
                else:
                    expect(task.fired, 'unexpected-failure', lambda: 'fit of the %s kernel raised %r' % (o['k'], out[1]))
            else:
                if isinstance(o['b'], str):
                    specs, norm = STRATEGY[o['b']], True
                    out = sim.op(o['u'], lambda: make_kernel_bucket(o['b']), task)
                else:
                    specs, norm = bucket_specs(o['b']), o['b']['norm']
                    out = sim.op(o['u'], lambda: bucket(o['b']), task)
                if out[0] == 'ok':
                    B = out[1]
                    if not task.fired:
                        expect(B.size == len(specs), 'wrong-bucket', lambda: 'a bucket of %d kernels, expected %d' % (
                            B.size, len(specs)))
                        out = sim.op(o['u'] + '.a', lambda: (B.attach_to(X), [km.full for km in B])[1], task)
                        expect(out[0] == 'ok', 'unexpected-failure', lambda: 'reading a new bucket raised %r' % (out[1],))
                        for s, K in zip(specs, out[1]):
                            if s[0] == 'sig':       # can not always be normalized
                                continue
                            want = Ref(bformula(s), norm, X).full()
                            expect(close(K, want), 'wrong-bucket', lambda: 'kernel %s of a bucket built while others '
                                   'were gives %s, expected %s' % (s, brief(K), brief(want)))
                        sim.probe('bucket-checked')
            if sim.sched and sim.sched.nswitch:
                sim.nontrivial = True
            sim.state('C24', op, bool(task.fired), o['tid'])

        tids = sorted({o['tid'] for o in plan['ops']})

        def body(tid):
            def go(task):
                for o in plan['ops']:
                    if o['tid'] == tid:
                        one(task, o)
            return go
        sim.threads([(x, body(x)) for x in tids], plan['sched'])
        expect(bucket_facts(shared_b) == facts, 'bucket-altered', 'the shared bucket was altered')
        for o in plan['ops']:
            c = ctx[o['u']]
            if c.get('ok'):
                for j, T in enumerate(tests):
                    got = c['est'].predict(T)
                    expect(c['ref'].agrees(j, got), 'wrong-model', lambda: '%s fitted while others were: afterwards '
                           'predictions %s, fitted alone %s' % (o['t'], brief(got), brief(c['ref'].pred[j])))
