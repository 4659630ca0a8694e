"""Scenarios on kernel sets, composite kernels and buckets: C06 C08 C09 C17."""
import warnings

import numpy as np
from scipy.sparse import issparse

from core import Violation
from kernels import Picky
from kmops import (attach, build, formula, gen_attach, gen_read, judge, mk, quiet_op, rand_kernel, rand_sample, read,
                   sample, shape_of, was_faulted)
from model import NormErr, Ref, brief, close, expect
from s_km import SCHED_FAULTS, gen_sched, weights, with_uids
from kernelmethods import config as kcfg
from kernelmethods import numeric_kernels as nk
from kernelmethods import operations as kops
from kernelmethods import sampling as ksamp
from kernelmethods import utils as kutils
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.base import (AverageKernel, ConstantKernelMatrix, KernelMatrix, KernelMatrixPrecomputed, KernelSet,
                                ProductKernel, SumKernel, WeightedAverageKernel)
from kernelmethods.config import KernelMethodsWarning
from kernelmethods.operations import linear_combination
from kernelmethods.ranking import rank_kernels
from kernelmethods.sampling import KernelBucket, make_kernel_bucket, pairwise_similarity


def sym(n, s):
    A = np.round(np.random.RandomState(s).randn(n, n), 2)
    return A @ A.T + n * np.eye(n)


# ---------------------------------------------------------------- C08

JUNK = ['text', 'none', 'num', 'kernel', 'nonsym', 'rect', 'vec', 'list']


class C08:
    rule = ('a seeded history of valid and invalid appends, extends, takes, attribute changes and set attachments over '
            '2-4 kernel sets sharing members, some operations interrupted at an arbitrary point; '
            'non-trivial: at least two members accepted and one operation refused or interrupted')

    @staticmethod
    def gen(rng, tier):
        n = rng.choice([2, 3, 4, 4, 8])
        pool = []
        for i in range(rng.choice([4, 6, 9])):
            t = rng.choices(['km', 'kmu', 'kmbad', 'km2', 'arr', 'arrbad', 'pre', 'junk'], [8, 2, 2, 1, 2, 1, 1.5, 2])[0]
            it = {'t': t, 's': rng.randrange(1000)}
            if t == 'junk':
                it['j'] = rng.choice(JUNK)
            pool.append(it)
        sets = []
        for i in range(rng.choice([2, 2, 3])):
            c = rng.choice(['empty', 'empty', 'ns', 'list', 'one', 'bucket'])
            sets.append({'c': c, 'init': [rng.randrange(len(pool)) for _ in range(rng.choice([1, 2, 3]))]})
        ops = []
        nset = len(sets)
        for _ in range(rng.choice([4, 8, 12, 18])):
            k = rng.choices(['append', 'extend', 'take', 'setattr', 'attach', 'index', 'reattach', 'funcs'],
                            [8, 4, 3, 4, 1, 1.5, .7, 1.5])[0]
            o = {'op': k, 's': rng.randrange(nset)}
            if k == 'append':
                o['i'] = rng.randrange(len(pool))
            elif k == 'extend':
                o['o'] = rng.choice([rng.randrange(nset), rng.randrange(nset), 'junk', o['s']])
            elif k in ('take', 'funcs'):
                o['f'] = [rng.random() for _ in range(rng.choice([1, 2, 3, 3, 5, 9]))]
                o['bad'] = rng.choice([None, None, None, 'neg', 'over'])
                o['form'] = rng.choice(['list', 'tuple', 'array', 'scalar'])
                if k == 'take':
                    nset += 1
            elif k == 'setattr':
                o['n'] = 'k%d' % rng.randrange(3)
                o['v'] = rng.choice(['one', 'str', 'list', 'list', 'array', 'short', 'long', 'tuple'])
                o['b'] = rng.randrange(100)
            elif k == 'attach':
                o['a'] = rng.randrange(1000)
                o['attr'] = rng.random() < .4
            elif k == 'index':
                o['k'] = rng.choice(['neg', 'over', 'float', 'str', 'none', 'npint'])
            elif k == 'reattach':
                o['i'] = rng.randrange(len(pool))
            ops.append(o)
        with_uids(ops)
        faults = []
        if rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append({'kind': rng.choice(['intr', 'intr', 'alloc']), 'exc': rng.choice(
                    ['KeyboardInterrupt', 'SimTimeout']), 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'sites']),
                    'only': [o['u'] for o in ops if o['op'] in ('append', 'extend', 'setattr', 'take')]})
        return {'cfg': {'n': n, 'pool': pool, 'sets': sets}, 'ops': ops, 'faults': faults}

    @staticmethod
    def run(sim, plan):
        cfg = plan['cfg']
        n = cfg['n']
        attrs = {}          # id(member) -> dict; members are kept alive by `keep`
        keep = []

        def member(it, i):
            t, s = it['t'], it['s']
            if t in ('km', 'kmu', 'kmbad', 'km2'):
                km = KernelMatrix(mk(['tag', {'c': 2.0 + i}]), normalized=bool(s % 2), name='m%d' % i)
                if t == 'km':
                    km.attach_to(np.random.RandomState(s).randn(n, 2))
                elif t == 'kmbad':
                    km.attach_to(np.random.RandomState(s).randn(n + 1, 2))
                elif t == 'km2':
                    X = np.random.RandomState(s).randn(n, 2)
                    km.attach_to(X, sample_two=X)
                return km, True, {'km': n, 'kmu': None, 'kmbad': n + 1, 'km2': (n, n)}[t]
            if t == 'arr':
                return sym(n, s), True, n
            if t == 'arrbad':
                return sym(n + 2, s), True, n + 2
            if t == 'pre':
                return KernelMatrixPrecomputed(sym(n, s), name='p%d' % i), True, n
            j = {'text': 'text', 'none': None, 'num': 3, 'kernel': mk(['lin', {}]),
                 'nonsym': np.arange(float(n * n)).reshape(n, n), 'rect': np.ones((n, n + 1)),
                 'vec': np.ones(n), 'list': ['a', 'b']}[it['j']]
            return j, False, None

        pool = []
        for i, it in enumerate(cfg['pool']):
            obj, valid, ns = member(it, i)
            keep.append(obj)
            if isinstance(obj, KernelMatrix):
                attrs[id(obj)] = {}
            pool.append({'o': obj, 'valid': valid, 'ns': ns})

        def cur_ns(p):
            o = p['o']
            return o.num_samples if isinstance(o, KernelMatrix) else p['ns']

        def accepts(m, p):
            """the model of append"""
            if not p['valid']:
                return False
            return (not m['init'] and m['ns'] is None) or m['ns'] == cur_ns(p)

        def accept(m, p, real):
            if not m['init'] and m['ns'] is None:
                m['ns'] = cur_ns(p)
                m['init'] = True
            m['mem'].append(real)

        def new_member(m, p, S):
            """identity of what was just appended"""
            got = list(S)[-1] if S.size else None
            if isinstance(p['o'], np.ndarray):
                expect(isinstance(got, KernelMatrixPrecomputed) and np.array_equal(got.full, p['o']), 'wrong-member',
                       'appended array is not the last member')
                keep.append(got)
                return got
            expect(got is p['o'], 'wrong-member', 'the appended member is not the last one')
            return got

        sets = []
        refused_or_intr = 0
        for si, c in enumerate(cfg['sets']):
            m = {'mem': [], 'ns': None, 'init': False}
            name = 'set%d' % si
            items = [pool[i] for i in c['init'] if pool[i]['valid'] and isinstance(
                pool[i]['o'], (KernelMatrix, KernelMatrixPrecomputed))]
            ok = []
            for p in items:
                trial = dict(m, mem=[])
                if accepts(m, p) and c['c'] in ('list', 'one') and (c['c'] == 'list' or not ok):
                    accept(m, p, p['o'])
                    ok.append(p['o'])
            if c['c'] == 'bucket':
                S = KernelBucket(poly_degree_values=(2,), rbf_sigma_values=(1.0,), laplace_gamma_values=None,
                                 sigmoid_gamma_values=None, sigmoid_offset_values=None)
                m['mem'] = list(S)
                for o in m['mem']:
                    attrs[id(o)] = {}
                m['init'] = True
            elif c['c'] == 'ns':
                S = KernelSet(name=name, num_samples=n)
                m['ns'], m['init'] = n, True
            elif c['c'] == 'list' and ok:
                S = KernelSet(list(ok) if si % 2 else tuple(ok), name=name)
            elif c['c'] == 'one' and ok:
                S = KernelSet(ok[0], name=name)
            else:
                m = {'mem': [], 'ns': None, 'init': False}
                S = KernelSet(name=name)
            sets.append((S, m))

        def verify(uid):
            for si, (S, m) in enumerate(sets):
                if S is None:
                    continue
                got = list(S)
                expect([id(x) for x in got] == [id(x) for x in m['mem']], 'wrong-members',
                       lambda: 'set %d holds %d members, expected %d (or in another order)' % (si, len(got),
                                                                                              len(m['mem'])))
                expect(S.size == len(m['mem']) and len(S) == len(m['mem']), 'wrong-size', 'size of set %d' % si)
                expect(S.num_samples == m['ns'], 'wrong-size', lambda: 'set %d reports %s samples, expected %s' % (
                    si, S.num_samples, m['ns']))
                for j, x in enumerate(m['mem']):
                    expect(S[j] is x, 'wrong-members', 'index %d of set %d' % (j, si))
                    expect(x.num_samples == m['ns'] or m.get('loose'), 'foreign-size',
                           lambda: 'member %d of set %d has %s samples' % (j, si, x.num_samples))
                kmpos = [j for j, x in enumerate(m['mem']) if isinstance(x, KernelMatrix)]
                if kmpos:
                    fs = list(S.get_kernel_funcs(kmpos))
                    expect(all(f is m['mem'][j].kernel for f, j in zip(fs, kmpos)) and len(fs) == len(kmpos),
                           'wrong-members', 'kernel functions of set %d' % si)
                if len(kmpos) == len(m['mem']):
                    for nm in ('k0', 'k1', 'k2'):
                        want = [attrs[id(x)].get(nm, 'dflt') for x in m['mem']]
                        gota = S.get_attr(nm, 'dflt')
                        expect(list(gota) == want, 'wrong-attributes',
                               lambda: 'set %d attribute %s: %s, expected %s' % (si, nm, gota, want))
            sim.state('C08', [(len(m['mem']), str(m['ns'])) for _, m in sets if m is not None])

        def resync_ns(S, m):
            """after an interrupted first addition the set may already know its size"""
            if not m['mem'] and m['ns'] is None and S.num_samples is not None:
                m['ns'], m['init'] = S.num_samples, True

        def maybe_forget(si):
            """an empty set whose first, unattached member was interrupted may or may not want unattached ones only"""
            S, m = sets[si]
            if not m['mem'] and not m['init'] and m['ns'] is None:
                verify('forget')
                sets[si] = (None, None)

        verify('start')
        for o in plan['ops']:
            si = o['s']
            if si >= len(sets) or sets[si][0] is None:
                if o['op'] == 'take':
                    sets.append((None, None))
                continue
            S, m = sets[si]
            op = o['op']
            if op == 'append':
                p = pool[o['i']]
                ok = accepts(m, p)
                out, _ = quiet_op(sim, o['u'], lambda: S.append(p['o']))
                if out[0] == 'ok':
                    expect(ok, 'not-refused', lambda: 'append of %s accepted' % cfg['pool'][o['i']])
                    accept(m, p, new_member(m, p, S))
                else:
                    expect(not ok or was_faulted(sim), 'unexpected-failure', lambda: 'append raised %r' % (out[1],))
                    refused_or_intr += 1
                    sim.probe('append-refused' if not was_faulted(sim) else 'append-interrupted')
                    if was_faulted(sim) and ok:
                        if S.size == len(m['mem']) + 1:
                            accept(m, p, new_member(m, p, S))
                        resync_ns(S, m)
                        maybe_forget(si)
            elif op == 'extend':
                if o['o'] == 'junk':
                    out, _ = quiet_op(sim, o['u'], lambda: S.extend([x for x in m['mem']] or 'text'))
                    ok, adds = False, []
                elif o['o'] >= len(sets) or sets[o['o']][0] is None:
                    continue
                else:
                    T, tm = sets[o['o']]
                    adds = list(tm['mem'])
                    ok = tm['ns'] == m['ns'] and not (tm.get('loose') and any(x.num_samples != m['ns'] for x in adds))
                    out, _ = quiet_op(sim, o['u'], lambda: S.extend(T))
                if len(m['mem']) + len(adds) > 60:
                    return
                if out[0] == 'ok':
                    expect(ok, 'not-refused', 'extend accepted an incompatible input')
                    m['mem'] += adds
                    if adds:
                        m['init'] = True
                else:
                    expect(not ok or was_faulted(sim), 'unexpected-failure', lambda: 'extend raised %r' % (out[1],))
                    refused_or_intr += 1
                    if was_faulted(sim) and ok:
                        got = [id(x) for x in S]
                        want = [id(x) for x in m['mem'] + adds]
                        expect(len(m['mem']) <= len(got) and got == want[:len(got)], 'not-a-prefix',
                               'an interrupted extend left something else than a prefix')
                        m['mem'] += adds[:len(got) - len(m['mem'])]
                        if m['mem']:
                            m['init'] = True
                        resync_ns(S, m)
                        maybe_forget(si)
                        sim.probe('extend-interrupted')
            elif op in ('take', 'funcs'):
                k = len(m['mem'])
                idx = [int(f * k) for f in o['f']] if k else [0]
                bad = o['bad'] if k else 'over'
                if bad == 'neg':
                    idx[len(idx) // 2] = -1
                elif bad == 'over':
                    idx[-1] = k
                form = {'list': list, 'tuple': tuple, 'array': np.array, 'scalar': lambda v: v[-1]}[o['form']]
                sel = idx if o['form'] != 'scalar' else idx[-1:]
                ok = all(0 <= j < k for j in sel)
                arg = form(idx)
                out, _ = quiet_op(sim, o['u'], lambda: S.take(arg, name='tk') if op == 'take'
                                  else S.get_kernel_funcs(arg))
                new = (None, None)
                if out[0] == 'ok':
                    expect(ok, 'not-refused', lambda: '%s accepted indices %s of %d' % (op, idx, k))
                    want = [m['mem'][j] for j in sel]
                    if op == 'take':
                        T = out[1]
                        expect(isinstance(T, KernelSet) and T is not S, 'wrong-members', 'take did not give a new set')
                        expect(T.name == 'tk', 'wrong-members', 'name of the new set')
                        ns = want[0].num_samples if want else None
                        new = (T, {'mem': want, 'ns': ns, 'init': True})
                    elif all(isinstance(x, KernelMatrix) for x in want):
                        fs = list(out[1])
                        expect(len(fs) == len(want) and all(f is x.kernel for f, x in zip(fs, want)),
                               'wrong-members', 'kernel functions in wrong order')
                else:
                    loose = m.get('loose')
                    expect(not ok or was_faulted(sim) or loose, 'unexpected-failure',
                           lambda: '%s raised %r' % (op, out[1]))
                    refused_or_intr += 1
                if op == 'take':
                    sets.append(new)
            elif op == 'setattr':
                k = len(m['mem'])
                b = o['b']
                vals = {'one': b, 'str': 'v%d' % b, 'list': [b + j for j in range(k)], 'tuple': tuple(range(b, b + k)),
                        'array': np.arange(b, b + k), 'short': list(range(k + 2)), 'long': list(range(max(0, k - 1)))}[o['v']]
                if o['v'] in ('one', 'str'):
                    want, ok = [vals] * k, True
                else:
                    want, ok = list(vals), len(vals) == k
                ok = ok and all(isinstance(x, KernelMatrix) for x in m['mem'])
                out, _ = quiet_op(sim, o['u'], lambda: S.set_attr(o['n'], vals))
                if out[0] == 'ok':
                    expect(ok, 'not-refused', lambda: 'set_attr accepted %s for %d members' % (vals, k))
                    for x, v in zip(m['mem'], want):
                        attrs[id(x)][o['n']] = v
                else:
                    expect(not ok or was_faulted(sim), 'unexpected-failure', lambda: 'set_attr raised %r' % (out[1],))
                    refused_or_intr += 1
                    sim.probe('setattr-refused')
                    if was_faulted(sim) and ok:
                        # a prefix of the assignments has been made (a member may be in the set twice)
                        for done in range(k, -1, -1):
                            trial = {id(x): dict(attrs[id(x)]) for x in m['mem']}
                            for x, v in list(zip(m['mem'], want))[:done]:
                                trial[id(x)][o['n']] = v
                            if all(x.get_attr(o['n'], 'dflt') == trial[id(x)].get(o['n'], 'dflt')
                                   for x in m['mem']):
                                attrs.update(trial)
                                break
                        sim.probe('setattr-interrupted')
            elif op == 'attach':
                if any(not isinstance(x, KernelMatrix) for x in m['mem']) or m['ns'] not in (None, n):
                    continue
                X = np.random.RandomState(o['a']).randn(n, 3)
                kw = {'attr_name': 'k0', 'attr_value': o['a']} if o['attr'] else {}
                out, _ = quiet_op(sim, o['u'], lambda: S.attach_to(X, **kw))
                expect(out[0] == 'ok', 'unexpected-failure', lambda: 'set attach raised %r' % (out[1],))
                m['ns'] = n
                if m['mem']:
                    m['init'] = True
                for x in m['mem']:
                    attrs[id(x)] = dict({'k0': o['a']} if o['attr'] else {})
                # other sets that share members keep their own idea of the size
                for T, tm in sets:
                    if T is not None and T is not S and any(x.num_samples != tm['ns'] for x in tm['mem']):
                        tm['loose'] = True
            elif op == 'reattach':
                # the caller re-attaches a single matrix on its own
                x = pool[o['i']]['o']
                if isinstance(x, KernelMatrix):
                    x.attach_to(np.ones((n + 1, 2)))
                    attrs[id(x)] = {}
                    for T, tm in sets:
                        if T is not None and any(y is x for y in tm['mem']) and x.num_samples != tm['ns']:
                            tm['loose'] = True
            elif op == 'index':
                k = len(m['mem'])
                ix = {'neg': -1, 'over': k, 'float': 0.5, 'str': 'a', 'none': None, 'npint': np.int64(0)}[o['k']]
                out, _ = quiet_op(sim, o['u'], lambda: S[ix])
                if o['k'] == 'npint' and k:
                    expect(out[0] == 'ok' and out[1] is m['mem'][0], 'wrong-members', 'S[np.int64(0)]')
                else:
                    expect(out[0] == 'raise', 'not-refused', lambda: 'S[%r] accepted' % (ix,))
                    refused_or_intr += 1
            verify(o['u'])
        if refused_or_intr and any(m and len(m['mem']) >= 2 for _, m in sets):
            sim.nontrivial = True


# ---------------------------------------------------------------- C09

class C09:
    rule = ('a seeded history of fits, refits, refused fits, re-attachments, set additions and reads of composite '
            'kernels and linear combinations, with kernel errors, interrupts and allocation failures inside fits, '
            'or a refit interleaved with reader threads; non-trivial: a fault fired inside a fit or threads switched')
    threaded = True

    @staticmethod
    def gen(rng, tier):
        n = rng.choice([1, 2, 3, 4, 4, 9])
        d = rng.choice([1, 2, 3])
        nm = rng.choice([2, 2, 3, 3, 4, 4, 7, 12])
        mem = []
        for i in range(nm):
            if rng.random() < .15:
                mem.append({'t': 'pre', 's': rng.randrange(1000), 'dt': rng.choice(['f8', 'f8', 'i8', 'f4', 'F', 'i1', 'u1'])})
            else:
                mem.append({'t': 'km', 'k': rand_kernel(rng, ('num',), .95), 'norm': rng.random() < .4})
        two = rng.random() < .12 and all(x['t'] == 'km' for x in mem)
        kinds = ['flt', 'int', 'pos', 'dup', 'flt']
        comps = []
        for _ in range(rng.choice([1, 2, 3])):
            t = rng.choice(['sum', 'sum', 'prod', 'avg', 'wavg', 'wavg'])
            comps.append({'t': t, 'w': [round(rng.uniform(-2, 3), 2) for _ in range(nm)],
                          'form': rng.choice(['list', 'array', 'tuple', 'col'])})
            w, form = C09.smallw(rng, comps[-1]['w'])
            comps[-1].update(w=w, form=form or comps[-1]['form'])
        att = {'x': rand_sample(rng, n, d, kinds), 'n1': 'a'}
        if two:
            att['y'] = rand_sample(rng, rng.choice([n, n + 1]), d, kinds)
            att['n2'] = 'b'
        threaded = not two and rng.random() < .45
        ops = []

        def op(tid=0, fitty=.4):
            x = rng.random()
            c = rng.randrange(len(comps))
            if x < fitty:
                o = {'op': 'fit', 'c': c}
                if comps[c]['t'] == 'sum' and rng.random() < .6:
                    o['w'] = [round(rng.uniform(-2, 3), 2) for _ in range(nm)]
                    o['form'] = rng.choice(['list', 'array', 'tuple', 'col'])
                    w, form = C09.smallw(rng, o['w'])
                    o.update(w=w, form=form or o['form'])
                    if rng.random() < .15:
                        o['w'] = o['w'] + [1.0] if rng.random() < .5 else o['w'][:-1]
                        o['badw'] = True
            elif x < fitty + .25 or tid:
                o = {'op': 'read', 'c': c, 'v': rng.choice(['full', 'composite_KM'])}
            elif x < fitty + .35:
                o = {'op': 'lin', 'w': [round(rng.uniform(-2, 3), 2) for _ in range(nm)],
                     'norm': rng.random() < .4, 'form': rng.choice(['list', 'array', 'tuple'])}
                w, form = C09.smallw(rng, o['w'])
                o.update(w=w, form=form or o['form'])
                if rng.random() < .15:
                    o['w'] = o['w'] + [1.0] if rng.random() < .5 else o['w'][:-1]
                elif rng.random() < .1:
                    o['w'] = [1.0, -1.0] + [0.0] * (nm - 2)
            elif x < fitty + .45:
                o = {'op': 'attach', 'a': {'x': rand_sample(rng, n, d, kinds), 'n1': 'b'}}
            elif x < fitty + .5:
                o = {'op': 'grow', 's': rng.randrange(1000)}
            else:
                o = {'op': 'touch', 'm': rng.randrange(nm), 'r': gen_read(rng, (n, n), False)}
            o['tid'] = tid
            return o

        if two:
            ops = [dict(op(0, 0), op='lin', w=[round(rng.uniform(-2, 3), 2) for _ in range(nm)], norm=rng.random() < .4,
                        form='list') for _ in range(3)]
        else:
            for _ in range(rng.choice([2, 4, 7]) if not threaded else rng.choice([0, 1, 2])):
                ops.append(op())
        if threaded:
            for t in range(1, rng.choice([2, 3]) + 1):
                for _ in range(rng.choice([1, 2, 3])):
                    ops.append(op(t, .6 if t == 1 else .25))
        with_uids(ops)
        faults = []
        if rng.random() < (.75 if not threaded else .3):
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(['kerr', 'intr', 'alloc'])
                f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites']),
                     'only': [o['u'] for o in ops if o['op'] in ('fit', 'lin') and o['tid'] <= 1]}
                f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                            'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]
                faults.append(f)
        plan = {'cfg': {'n': n, 'mem': mem, 'comps': comps, 'att': att}, 'ops': ops, 'faults': faults}
        if threaded:
            plan['sched'] = gen_sched(rng)
        return plan

    @staticmethod
    def smallw(rng, w):
        """some weights as small integers"""
        return ([rng.randrange(-4, 90) for _ in w], 'i1') if rng.random() < .12 else (w, None)

    @staticmethod
    def wform(w, form):
        if form == 'i1':
            return np.array(np.round(w), dtype=np.int8)
        return {'list': list(w), 'tuple': tuple(w), 'array': np.array(w),
                'col': np.array(w).reshape(-1, 1)}[form]

    @staticmethod
    def run(sim, plan):
        warnings.simplefilter('ignore')
        cfg = plan['cfg']
        n = cfg['n']
        X, Y = build(cfg['att'])
        members, refs = [], []
        for i, c in enumerate(cfg['mem']):
            if c['t'] == 'pre':
                A = sym(n, c['s'])
                dt = c.get('dt', 'f8')
                if dt == 'F':
                    A = np.asfortranarray(A)
                elif dt == 'i1':
                    A = np.clip(np.round(30 * A), -127, 127).astype(dt)
                elif dt == 'u1':
                    A = np.clip(np.abs(np.round(60 * A)), 0, 255).astype(dt)
                elif dt != 'f8':
                    A = np.round(A, 0 if dt == 'i8' else 2).astype(dt)
                members.append(KernelMatrixPrecomputed(A))
                refs.append(A.copy())
            else:
                km = KernelMatrix(mk(c['k']), normalized=c['norm'], name='m%d' % i)
                attach(km, cfg['att'], X, Y)
                members.append(km)
                refs.append(Ref(formula(c['k']), c['norm'], X, Y))
        S = KernelSet(members, name='S')
        allkm = all(c['t'] == 'km' for c in cfg['mem'])

        def mats():
            out = []
            for r in refs:
                out.append(np.asarray(r, float) if isinstance(r, np.ndarray) else r.full())
            return out

        lowp = any(c.get('dt') == 'f4' for c in cfg['mem'])
        comps = []
        for c in cfg['comps']:
            if Y is not None:
                comps.append(None)
                continue
            w = C09.wform(c['w'], c['form'])
            ob = {'sum': lambda: SumKernel(S), 'prod': lambda: ProductKernel(S), 'avg': lambda: AverageKernel(S),
                  'wavg': lambda: WeightedAverageKernel(S, w)}[c['t']]()
            comps.append({'o': ob, 'hist': [], 'c': c})     # hist: acceptable complete results, latest last

        def expected(c, o):
            """the whole combination this fit has to give, or an exception name"""
            M = mats()
            t = c['c']['t']
            if t == 'prod':
                return np.prod(np.array(M), axis=0)
            if t == 'avg':
                return np.sum(np.array(M), axis=0) / len(M)
            w = c['c']['w'] if t == 'wavg' else o.get('w') or [1.0] * len(M)
            if len(w) != len(M):
                return None
            return np.sum([a * b for a, b in zip(w, M)], axis=0)

        threaded_now = [False]

        def same(a, b):
            a = np.asarray(a)
            return close(a, b, rtol=1e-3 if lowp else 1e-6)

        def one(task, o):
            op = o['op']
            if op == 'fit':
                c = comps[o['c']]
                if c is None:
                    return
                try:
                    want = expected(c, o)
                except NormErr:
                    want = None
                if want is not None:
                    c['hist'].append(want)      # may become visible from now on
                args = [C09.wform(o['w'], o['form'])] if 'w' in o else []
                out = sim.op(o['u'], lambda: c['o'].fit(*args), task)
                if task.fired:
                    sim.probe('fault-in-fit')
                    sim.nontrivial = True
                if out[0] == 'ok':
                    expect(want is not None, 'not-refused', lambda: 'fit of %s with %s for %d members accepted' % (
                        c['c']['t'], o.get('w'), len(refs)))
                    if not threaded_now[0]:
                        c['hist'][:] = [want]
                        c['fitted'], c['failed'] = True, False
                    else:
                        c['fitted'] = True
                else:
                    edge = any(isinstance(r, Ref) and r.normalized and r.near_norm_edge() for r in refs)
                    expect(want is None or task.fired or edge, 'unexpected-failure',
                           lambda: 'fit raised %r' % (out[1],))
                    if want is not None and not threaded_now[0]:
                        c['hist'].pop()
                    if not threaded_now[0]:
                        c['failed'] = True
                sim.state('C09', c['c']['t'], len(refs), out[0], bool(task.fired), len(c['hist']))
            elif op == 'read':
                c = comps[o['c']]
                if c is None:
                    return
                out = sim.op(o['u'], lambda: getattr(c['o'], o['v']), task)
                check_read(c, out, task)
            elif op == 'lin':
                if len(o['w']) != len(refs):
                    want = None
                else:
                    w = np.array(o['w'])
                    if o['norm']:
                        s = w.sum()
                        w = None if np.isclose(s, 0) else w / s
                    try:
                        want = None if w is None else np.sum([a * b for a, b in zip(w, mats())], axis=0)
                    except NormErr:
                        want = None
                out = sim.op(o['u'], lambda: linear_combination(S, C09.wform(o['w'], o['form']),
                                                                norm_weights=o['norm']), task)
                if task.fired:
                    sim.nontrivial = True
                if out[0] == 'ok':
                    expect(want is not None, 'not-refused', 'linear_combination accepted bad weights')
                    expect(same(out[1], want), 'wrong-combination',
                           lambda: 'linear combination %s, expected %s' % (brief(out[1]), brief(want)))
                else:
                    expect(want is None or task.fired, 'unexpected-failure',
                           lambda: 'linear_combination raised %r' % (out[1],))
            elif op == 'attach':
                if not allkm or threaded_now[0]:
                    return
                X2, _ = build(o['a'])
                out = sim.op(o['u'], lambda: S.attach_to(X2), task)
                expect(out[0] == 'ok', 'unexpected-failure', lambda: 'attach raised %r' % (out[1],))
                for i, c in enumerate(cfg['mem']):
                    refs[i] = Ref(formula(c['k']), c['norm'], X2)
            elif op == 'grow':
                if threaded_now[0] or Y is not None or len(refs) > len(cfg['mem']):
                    return
                A = sym(n, o['s'])
                out = sim.op(o['u'], lambda: S.append(A), task)
                expect(out[0] == 'ok', 'unexpected-failure', lambda: 'append raised %r' % (out[1],))
                refs.append(A.copy())
                nonlocal_allkm()
            elif op == 'touch':
                m = members[o['m']]
                if isinstance(m, KernelMatrix):
                    sim.op(o['u'], lambda: read(m, o['r'], (n, n)), task)

        def nonlocal_allkm():
            nonlocal allkm
            allkm = False

        def check_read(c, out, task):
            if out[0] == 'raise':
                expect(isinstance(out[1], Exception), 'wrong-exception', repr(out[1]))
                # refusing is right unless a fit completed and none failed or runs since
                expect(not c.get('fitted') or c.get('failed') or threaded_now[0] or task.fired, 'unexpected-failure',
                       lambda: 'reading a fitted %s raised %r' % (c['c']['t'], out[1]))
                return
            expect(c['hist'], 'read-before-fit', lambda: 'an unfitted %s gave %s' % (c['c']['t'], brief(out[1])))
            if not threaded_now[0]:
                ok = same(out[1], c['hist'][-1]) if not c.get('racy') else any(same(out[1], h) for h in c['hist'])
            else:
                ok = any(same(out[1], h) for h in c['hist'])
            expect(ok, 'wrong-combination', lambda: '%s gave %s, expected %s' % (
                c['c']['t'], brief(out[1]), brief(c['hist'][-1])))

        for o in plan['ops']:
            if not o['tid']:
                one(sim.main, o)
        tids = sorted({o['tid'] for o in plan['ops'] if o['tid']})
        if tids and 'sched' in plan:
            threaded_now[0] = True

            def body(tid):
                def go(task):
                    for o in plan['ops']:
                        if o['tid'] == tid:
                            one(task, o)
                return go
            sim.threads([(t, body(t)) for t in tids], plan['sched'])
            threaded_now[0] = False
            for c in comps:
                if c:
                    c['racy'] = True
                    c['failed'] = c.get('failed') or not c.get('fitted')
            if sim.nswitch:
                sim.nontrivial = True
        for i, c in enumerate(comps):
            if c is None:
                continue
            out = sim.op('end%d' % i, lambda: c['o'].composite_KM)
            check_read(c, out, sim.main)
            c['racy'] = False
            # a fresh fit always gives the whole combination
            try:
                want = expected(c, {})
            except NormErr:
                continue
            out = sim.op('refit%d' % i, lambda: c['o'].fit())
            if want is None:
                expect(out[0] == 'raise', 'not-refused', 'fit with too few weights accepted')
                continue
            if out[0] == 'raise':
                if any(isinstance(r, Ref) and r.normalized and r.near_norm_edge() for r in refs):
                    continue
                raise Violation('unexpected-failure', 'final fit raised %r' % (out[1],))
            expect(same(c['o'].full, want), 'wrong-combination', lambda: 'final fit of %s gave %s, expected %s' % (
                c['c']['t'], brief(c['o'].full), brief(want)))


# ---------------------------------------------------------------- C17

LIBK = {'had': (nk.HadamardKernel, 'alpha', [1, 2, 3, 0.5]), 'poly': (nk.PolyKernel, 'degree', [2, 3, 4]),
        'gauss': (nk.GaussianKernel, 'sigma', [0.5, 1.0, 2.0]), 'lap': (nk.LaplacianKernel, 'gamma', [0.5, 1.0]),
        'sig': (nk.SigmoidKernel, 'offset', [1.0, 2.0]), 'chi2': (nk.Chi2Kernel, 'gamma', [1.0, 0.3])}


class C17:
    rule = ('a seeded sequence of bucket constructions and additions of parametrized kernels in which any subset of '
            'the values is refused by the kernel or fails in its constructor, with retries; '
            'non-trivial: at least one value skipped and one accepted in the same call')

    @staticmethod
    def gen(rng, tier):
        norm = rng.random() < .5
        skip = rng.random() < .5
        init = {}
        for nm, pool in (('poly_degree_values', [2, 3, 4]), ('rbf_sigma_values', [0.5, 1.0, 2.0, 'bad', None]),
                         ('laplace_gamma_values', [0.5, 1.0]), ('sigmoid_gamma_values', [0.5, 2.0]),
                         ('sigmoid_offset_values', [1.0, -2.0])):
            init[nm] = None if rng.random() < .4 else [rng.choice(pool) for _ in range(rng.choice([1, 2, 3]))]
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            x = rng.random()
            if x < .62:
                vals = []
                for _ in range(rng.choice([1, 2, 3, 5, 8])):
                    if rng.random() < .35:
                        vals.append(rng.choice([-1, 'x', 13, 14, 15, 16, 17, 18, -2.5]))
                    else:
                        vals.append(rng.choice([0, 1, 2, 3, 4, 0.5, 7]))
                ops.append({'op': 'picky', 'vals': vals, 'form': rng.choice(['list', 'tuple', 'array', 'range']),
                            'param': rng.choice(['q', 'q', 'q', 'q', 'nosuch', 'other']), 'retry': rng.random() < .4})
            elif x < .8:
                k = rng.choice(list(LIBK))
                vals = [rng.choice(LIBK[k][2] + ([0] if k == 'had' else []) + (['bad'] if k in ('had', 'gauss') else []))
                        for _ in range(rng.choice([1, 2, 4]))]
                ops.append({'op': 'lib', 'k': k, 'vals': vals})
            else:
                ops.append({'op': 'refused', 'kind': rng.choice(['nocls', 'inst', 'func', 'otherclass', 'str', 'scalar',
                                                                 'empty', 'none', 'gen'])})
        with_uids(ops)
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            faults.append({'kind': 'ctor', 'exc': rng.choice(['ValueError', 'TypeError', 'MemoryError', 'RuntimeError',
                                                              'SimKernelError', 'AttributeError', 'KeyError']),
                           'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites'])})
        if rng.random() < .15:
            faults.append({'kind': 'alloc', 'exc': 'MemoryError', 'f1': rng.random(), 'f2': rng.random(),
                           'mode': rng.choice(['points', 'sites'])})
        return {'cfg': {'norm': norm, 'skip': skip, 'init': init, 'strategy': rng.choice(
            ['custom', 'custom', 'custom', 'light', 'exhaustive', 'linear_only'])}, 'ops': ops, 'faults': faults}

    @staticmethod
    def refuses(q):
        return isinstance(q, str) or q < 0 or q in (13, 14, 15, 16, 17, 18)

    @staticmethod
    def run(sim, plan):
        cfg = plan['cfg']
        want = [(nk.LinearKernel, None, None)]

        def add(cls, par, vals, bad=lambda v: False):
            skipped = 0
            for v in vals or ():
                if bad(v):
                    skipped += 1
                else:
                    want.append((cls, par, v))
            return skipped

        if cfg['strategy'] == 'custom':
            i = cfg['init']
            skipped = add(nk.PolyKernel, 'degree', i['poly_degree_values'])
            skipped += add(nk.GaussianKernel, 'sigma', i['rbf_sigma_values'], lambda v: v is None or isinstance(v, str))
            skipped += add(nk.LaplacianKernel, 'gamma', i['laplace_gamma_values'])
            skipped += add(nk.SigmoidKernel, 'gamma', i['sigmoid_gamma_values'])
            skipped += add(nk.SigmoidKernel, 'offset', i['sigmoid_offset_values'])
            out, ws = quiet_op(sim, 'init', lambda: KernelBucket(
                normalize_kernels=cfg['norm'], skip_input_checks=cfg['skip'], **i))
        else:
            pre = {'light': 'light', 'exhaustive': 'default'}.get(cfg['strategy'])
            skipped = 0
            if pre:
                for cls, par, suffix in ((nk.PolyKernel, 'degree', 'degree_values_poly_kernel'),
                                         (nk.GaussianKernel, 'sigma', 'sigma_values_gaussian_kernel'),
                                         (nk.LaplacianKernel, 'gamma', 'gamma_values_laplacian_kernel'),
                                         (nk.SigmoidKernel, 'gamma', 'gamma_values_sigmoid_kernel'),
                                         (nk.SigmoidKernel, 'offset', 'offset_values_sigmoid_kernel')):
                    add(cls, par, getattr(kcfg, '%s_%s' % (pre, suffix)))
            out, ws = quiet_op(sim, 'init', lambda: make_kernel_bucket(
                cfg['strategy'], normalize_kernels=cfg['norm'], skip_input_checks=cfg['skip']))
        expect(out[0] == 'ok', 'unexpected-failure', lambda: 'bucket construction raised %r' % (out[1],))
        expect(len(ws) == skipped, 'wrong-warnings', lambda: '%d warnings for %d skipped values' % (len(ws), skipped))
        B = out[1]

        def verify():
            got = list(B)
            expect(len(got) == len(want) == B.size, 'wrong-bucket', lambda: 'the bucket holds %d kernels, expected %d: '
                   '%s' % (len(got), len(want), [str(g.kernel) for g in got]))
            for i, (km, (cls, par, v)) in enumerate(zip(got, want)):
                k = km.kernel
                ok = type(k) is cls
                if ok and par is not None:
                    x = getattr(k, par)
                    ok = (x is v or x == v)
                expect(ok, 'wrong-bucket', lambda: 'kernel %d is %s, expected %s(%s=%s)' % (i, k, cls.__name__, par, v))
                if cls is not nk.LinearKernel:
                    expect(getattr(k, 'skip_input_checks', cfg['skip']) == cfg['skip'], 'wrong-bucket',
                           lambda: 'skip_input_checks of kernel %d' % i)
            if B.size <= 12:
                # requested normalization: diagonal of the matrix of a fresh attachment
                import copy
                B2 = copy.deepcopy(B)
                B2.attach_to(np.array([[1.0, 2.0], [3.0, 1.0]]))
                for i, km in enumerate(B2):
                    try:
                        full = km.full
                    except Exception:
                        continue
                    raw = np.array([km[0, 0][0, 0], km[1, 1][0, 0]])
                    if (raw > 0).all() and not np.allclose(raw, 1):
                        expect(np.allclose(full.diagonal(), 1 if cfg['norm'] else raw), 'wrong-bucket',
                               lambda: 'normalization of kernel %d' % i)
            sim.state('C17', len(want), cfg['norm'], cfg['skip'])

        verify()
        for o in plan['ops']:
            if o['op'] == 'picky':
                vals = o['vals']
                if o['form'] == 'array':
                    vals = [v for v in vals if not isinstance(v, str)]
                elif o['form'] == 'range':
                    vals = list(range(len(vals)))
                if not vals:
                    continue
                arg = {'list': list, 'tuple': tuple, 'array': np.array, 'range': lambda v: range(len(v))}[o['form']](vals)
                out, ws = quiet_op(sim, o['u'], lambda: B.add_parametrized_kernels(Picky, o['param'], arg))
                if C17.after(sim, o, out, ws, B, want, vals, verify):
                    return
            elif o['op'] == 'lib':
                cls, par, _ = LIBK[o['k']]
                out, ws = quiet_op(sim, o['u'], lambda: B.add_parametrized_kernels(cls, par, list(o['vals'])))
                if C17.after(sim, o, out, ws, B, want, o['vals'], verify, cls, par):
                    return
            else:
                bad = {'nocls': (None, 'q', [1]), 'inst': (nk.LinearKernel(), 'q', [1]), 'func': (np.dot, 'q', [1]),
                       'otherclass': (KernelBucket, 'q', [1]), 'str': (Picky, 'q', 'abc'),
                       'scalar': (Picky, 'q', 3), 'empty': (Picky, 'q', []), 'none': (Picky, 'q', None),
                       'gen': (Picky, 'q', (x for x in [1, 2]))}[o['kind']]
                out, ws = quiet_op(sim, o['u'], lambda: B.add_parametrized_kernels(*bad))
                if o['kind'] == 'none':
                    expect(out[0] == 'ok', 'unexpected-failure', lambda: 'values=None raised %r' % (out[1],))
                else:
                    expect(out[0] == 'raise', 'not-refused', lambda: 'add_parametrized_kernels(%s) accepted' % o['kind'])
                verify()

    @staticmethod
    def after(sim, o, out, ws, B, want, vals, verify, cls=Picky, par=None):
        fired = [f for f in sim.main.fired]
        if cls is Picky:
            par = o['param']
            injected = {f['at'] for f in fired if f['kind'] == 'ctor'}
            attempts = 0
            keep, skip = [], []
            for v in vals:
                if par == 'nosuch':
                    skip.append(v)
                    continue
                attempts += 1
                if attempts in injected or (par == 'q' and C17.refuses(v)):
                    skip.append(v)
                else:
                    keep.append(v)
        else:
            keep = [v for v in vals if not (isinstance(v, str) or (cls is nk.HadamardKernel and v == 0))]
            skip = [v for v in vals if v not in keep]
        if any(f['kind'] == 'alloc' for f in fired):
            # an allocation failure inside the loop: skipped value or refused as a whole; stop here
            return True
        expect(out[0] == 'ok', 'unexpected-failure', lambda: 'adding %s raised %r' % (vals, out[1]))
        for v in keep:
            want.append((cls, par, v))
        nskip = len(skip)
        verify()
        expect(len(ws) == nskip, 'wrong-warnings',
               lambda: '%d warnings for the skipped values %s of %s' % (len(ws), skip, vals))
        if nskip and keep:
            sim.nontrivial = True
        if nskip:
            sim.probe('skipped-values', nskip)
        if cls is Picky and o.get('retry') and par == 'q':
            again = [v for v in skip if not C17.refuses(v)]
            if again:
                sim.probe('retried')
                out, ws2 = quiet_op(sim, o['u'] + '.retry', lambda: B.add_parametrized_kernels(Picky, 'q', again))
                expect(out[0] == 'ok' and not ws2, 'unexpected-failure', lambda: 'retry with %s: %r' % (again, out[1]))
                for v in again:
                    want.append((Picky, 'q', v))
                verify()


# ---------------------------------------------------------------- C06

FUNCS = ['psd', 'center', 'norm', 'norm2', 'fprod', 'fnorm', 'align', 'alignc', 'simil', 'ideal', 'corrkm', 'pair', 'lin',
         'rank', 'minmax', 'vec', 'match', 'pre', 'set', 'km', 'kmc']


class C06:
    rule = ('a seeded history over matrices, sets, composites, precomputed matrices, ranking and estimators in which '
            'the caller keeps every array it was given or passed in, with faults inside operations; byte-wise '
            'snapshots compared after every operation; non-trivial: at least three results kept')

    @staticmethod
    def gen(rng, tier):
        n = rng.choice([2, 3, 4, 6, 6, 13])
        d = rng.choice([1, 2, 3])
        nk_ = rng.choice([1, 2, 3])
        kms = [{'k': rand_kernel(rng, ('num',), .9), 'norm': rng.random() < .5} for _ in range(nk_)]
        atts = []
        ops = []
        w = weights(rng)
        cur = []
        for i in range(nk_):
            a = {'x': rand_sample(rng, n, d), 'n1': 'a', 'n2': 'b'}
            if rng.random() < .25:
                a['y'] = rand_sample(rng, rng.choice([n, n + 1]), d)
            cur.append(a)
            ops.append({'op': 'attach', 'km': i, 'a': a})
        heavy = rng.random() < .25
        for _ in range(rng.choice([4, 7, 11, 16])):
            x = rng.random()
            i = rng.randrange(nk_)
            if x < .5:
                ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, shape_of(cur[i]), 'y' in cur[i], w)})
            elif x < .58:
                a = {'x': rand_sample(rng, n, d), 'n1': 'a', 'n2': 'b'}
                if rng.random() < .25:
                    a['y'] = rand_sample(rng, rng.choice([n, n + 1]), d)
                if rng.random() < .3:
                    a['reuse'] = rng.randrange(4)
                cur[i] = a
                ops.append({'op': 'attach', 'km': i, 'a': a})
            elif x < .68:
                ops.append({'op': 'fit', 'c': rng.choice(['sum', 'prod', 'avg', 'wavg']), 'w': rng.random() < .5})
            elif x < .74:
                ops.append({'op': 'compread'})
            elif x < .8:
                ops.append({'op': 'lin', 'norm': rng.random() < .5, 'f': rng.random() < .6})
            elif x < .86:
                ops.append({'op': 'pre', 'r': rng.choice(['full', 'diag', 'item', 'row', 'const', 'constitem'])})
            elif x < .9:
                ops.append({'op': 'sattach', 'a': {'x': rand_sample(rng, n, d), 'n1': 's'}})
            elif x < .93:
                ops.append({'op': 'rank', 'm': 'align/corr'})
            elif x < .97 or not heavy:
                ops.append({'op': 'func', 'f': rng.choice(FUNCS), 's': rng.randrange(1000), 'v': rng.random()})
            elif heavy:
                ops.append({'op': 'machine', 'reg': rng.random() < .5, 'norm': rng.random() < .5,
                            'opt': rng.random() < .4})
        with_uids(ops)
        faults = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            kind = rng.choice(['kerr', 'intr', 'alloc'])
            f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites'])}
            f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'alloc': 'MemoryError',
                        'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout'])}[kind]
            faults.append(f)
        return {'cfg': {'kms': kms, 'n': n, 'd': d, 's': rng.randrange(1000)}, 'ops': ops, 'faults': faults}

    @staticmethod
    def run(sim, plan):
        cfg = plan['cfg']
        n, d = cfg['n'], cfg['d']
        held = []       # (what, object, snapshot)
        seen = set()

        def snap(v):
            if issparse(v):
                c = v.tocoo()
                return ('sp', v.shape, str(v.dtype), sorted(zip(c.row.tolist(), c.col.tolist(),
                                                               map(repr, c.data.tolist()))))
            return ('nd', v.shape, str(v.dtype), v.strides, v.tobytes(), type(v).__name__)

        def hold(what, v):
            if (isinstance(v, np.ndarray) or issparse(v)) and id(v) not in seen:
                seen.add(id(v))
                held.append((what, v, snap(v)))

        def verify(uid):
            for what, v, s in held:
                expect(snap(v) == s, 'changed', lambda: '%s was changed during %s; now %s' % (
                    what, uid, brief(v.todense() if issparse(v) else v)))

        kms = [KernelMatrix(mk(c['k']), normalized=c['norm']) for c in cfg['kms']]
        atts = [None] * len(kms)
        inputs = []
        A = sym(n, cfg['s'])
        hold('precomputed input', A)
        pre = KernelMatrixPrecomputed(A)
        const = ConstantKernelMatrix(n, 2.5)
        skms = [KernelMatrix(mk(['tag', {'c': 3.0}]), normalized=False), KernelMatrix(mk(['w:gauss', {'sigma': 3.0}]))]
        X0 = np.random.RandomState(cfg['s']).randn(n, d)
        hold('sample of the set', X0)
        S = KernelSet(name='S')
        for k in skms:
            k.attach_to(X0)
            S.append(k)
        SP = KernelSet([skms[0], pre, skms[1]], name='SP')
        w2, w3 = np.array([1, 2]), np.array([0.5, 1.5, 2.0])
        w2f = np.array([1.5, 2.0])
        hold('weights', w2)
        hold('weights', w2f)
        hold('weights', w3)
        comps = {'sum': SumKernel(SP), 'prod': ProductKernel(SP), 'avg': AverageKernel(SP),
                 'wavg': WeightedAverageKernel(SP, w3)}
        targets = np.array([1.0, -1.0] * n)[:n]
        hold('targets', targets)
        for o in plan['ops']:
            op = o['op']
            if op == 'attach':
                a = o['a']
                if 'reuse' in a and inputs:
                    X, Y = inputs[a['reuse'] % len(inputs)], None
                else:
                    X, Y = build(a)
                    inputs.append(X)
                hold('input sample', X)
                if Y is not None:
                    hold('second input sample', Y)
                quiet_op(sim, o['u'], lambda: attach(kms[o['km']], a, X, Y))
                atts[o['km']] = (X.shape[0], (X if Y is None else Y).shape[0])
            elif op == 'read':
                out, _ = quiet_op(sim, o['u'], lambda: read(kms[o['km']], o['r'], atts[o['km']] or (1, 1)))
                if out[0] == 'ok':
                    hold('result of %s' % (o['r'],), out[1])
            elif op == 'fit':
                c = comps[o['c']]
                quiet_op(sim, o['u'], lambda: c.fit(w3) if o['c'] == 'sum' and o['w'] else c.fit())
            elif op == 'compread':
                for nm, c in comps.items():
                    out, _ = quiet_op(sim, o['u'] + nm, lambda: c.full)
                    if out[0] == 'ok':
                        hold('composite ' + nm, out[1])
            elif op == 'lin':
                out, _ = quiet_op(sim, o['u'], lambda: linear_combination(S, w2f if o['f'] else w2,
                                                                             norm_weights=o['norm']))
                if out[0] == 'ok':
                    hold('linear combination', out[1])
            elif op == 'pre':
                out, _ = quiet_op(sim, o['u'], lambda: {
                    'full': lambda: pre.full, 'diag': lambda: pre.diag, 'item': lambda: pre[0, 1],
                    'row': lambda: pre[:, 1], 'const': lambda: const.full, 'constitem': lambda: const[:, 0]}[o['r']]())
                if out[0] == 'ok':
                    hold('precomputed ' + o['r'], out[1])
            elif op == 'sattach':
                X, _ = build(o['a'])
                hold('input sample of set', X)
                quiet_op(sim, o['u'], lambda: S.attach_to(X))
            elif op == 'rank':
                out, _ = quiet_op(sim, o['u'], lambda: rank_kernels(S, targets, method=o['m']))
                if out[0] == 'ok':
                    hold('ranking', out[1])
                out, _ = quiet_op(sim, o['u'] + 'p', lambda: pairwise_similarity(S, metric='align'))
                if out[0] == 'ok':
                    hold('pairwise', out[1])
            elif op == 'func':
                C06.func(sim, o, cfg, hold, S, kms)
            elif op == 'machine':
                C06.machine(sim, o, cfg, hold)
            verify(o['u'] + ' ' + op)
            sim.state('C06', len(held), op)
        # the library's own readers once more
        for k in kms + skms:
            for r in (['full'], ['sparse'], ['normed'], ['centered'], ['idx', ['s', None, None, None],
                                                                      ['s', None, None, None]]):
                quiet_op(sim, 'end', lambda: read(k, r))
        for c in comps.values():
            quiet_op(sim, 'endfit', lambda: c.fit())
        verify('the end')
        sim.nontrivial = len(held) >= 8
        sim.probe('held', len(held))

    @staticmethod
    def func(sim, o, cfg, hold, S, kms):
        """the library's functions on the caller's own arrays"""
        n, s, f = cfg['n'], o['s'], o['f']
        r = np.random.RandomState(s)
        K, L = sym(n, s), sym(n, s + 1)
        if o['v'] < .3:
            K = np.asfortranarray(K)
        elif o['v'] < .4:
            K = np.round(K).astype(int)
        y = r.randn(n) if o['v'] < .5 else np.array([1, -1] * n)[:n]
        P = r.randn(n, n + 1)
        dx, dy = r.rand(n) + 1, r.rand(n + 1) + 1
        u, v = np.round(r.rand(3) + .1, 2), np.round(r.rand(3) + .1, 2)
        st1, st2 = np.array(list('abc')), np.array(list('abd'))
        ws = r.rand(2) + .5
        A2 = r.randn(n, 2)
        for i, x in enumerate((K, L, y, P, dx, dy, u, v, st1, st2, ws, A2)):
            hold('argument %d of %s' % (i, f), x)
        hold('matrix of the set', S[0].full)
        go = {'psd': lambda: kops.is_positive_semidefinite(K), 'center': lambda: kops.center_km(K),
              'norm': lambda: kops.normalize_km(K), 'norm2': lambda: kops.normalize_km_2sample(P, dx, dy),
              'fprod': lambda: kops.frobenius_product(K, L), 'fnorm': lambda: kops.frobenius_norm(K),
              'align': lambda: kops.alignment_centered(K, L),
              'alignc': lambda: kops.alignment_centered(K, L, centered_already=True),
              'simil': lambda: kops.eval_similarity(K, L), 'ideal': lambda: ksamp.ideal_kernel(y),
              'corrkm': lambda: ksamp.correlation_km(K, L),
              'pair': lambda: pairwise_similarity(S, metric='corr'),
              'lin': lambda: linear_combination(S, ws, norm_weights=True),
              'rank': lambda: rank_kernels(S, y, method='align/corr'),
              'minmax': lambda: kutils.min_max_scale(dx),
              'vec': lambda: [k()(u, v) for k in (nk.PolyKernel, nk.GaussianKernel, nk.LaplacianKernel, nk.Chi2Kernel,
                                                  nk.SigmoidKernel, nk.LinearKernel, nk.HadamardKernel)],
              'match': lambda: MatchCountKernel()(st1, st2),
              'pre': lambda: KernelMatrixPrecomputed(K).full, 'set': lambda: KernelSet([K, L])[0].full,
              'km': lambda: kops.normalize_km(S[0].full), 'kmc': lambda: kops.center_km(S[0].full)}[f]
        out, _ = quiet_op(sim, o['u'], go)
        if out[0] == 'ok':
            hold('result of ' + f, out[1])

    @staticmethod
    def machine(sim, o, cfg, hold):
        from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor, OptimalKernelSVC,
                                              OptimalKernelSVR)
        r = np.random.RandomState(cfg['s'] + 1)
        X = r.randn(10, cfg['d'])
        y = np.array([0, 1] * 5) if not o['reg'] else r.randn(10)
        sw = r.rand(10) + .5
        T = r.randn(4, cfg['d'])
        for nm, v in (('train X', X), ('train y', y), ('sample weight', sw), ('test X', T)):
            hold(nm, v)
        if o['opt']:
            b = KernelBucket(poly_degree_values=(2,), rbf_sigma_values=(1.0,), laplace_gamma_values=None,
                             sigmoid_gamma_values=None, sigmoid_offset_values=None)
            est = OptimalKernelSVR(k_bucket=b) if o['reg'] else OptimalKernelSVC(k_bucket=b)
        else:
            cls = KernelMachineRegressor if o['reg'] else KernelMachine
            est = cls(k_func=mk(['tag', {'c': 4.0}]), normalized=o['norm'])
        out, _ = quiet_op(sim, o['u'], lambda: est.fit(X, y, sample_weight=sw))
        if out[0] == 'ok':
            if o['opt']:
                hold('opt_kernel_.full', est.opt_kernel_.full)
            for j in range(2):
                out, _ = quiet_op(sim, o['u'] + 'p%d' % j, lambda: est.predict(T[j:]))
                if out[0] == 'ok':
                    hold('prediction', out[1])
