"""Scenarios on kernel matrices: C01 C02 C03 C04 C05 C07 C18."""
import warnings

import numpy as np
from scipy.sparse import issparse

from core import Violation
from kmops import (BADS, attach, build, check_value, dense, formula, full_check, gen_attach, gen_n, gen_read, judge,
                   kinds_for, mk, quiet_op, rand_kernel, rand_sample, read, refused, sample, shape_of,
                   was_faulted)
from model import Ref, brief, close, expect
from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed, KernelSet
from kernelmethods.config import KernelMethodsWarning

SCHED_FAULTS = ['ValueError', 'ZeroDivisionError', 'SimKernelError', 'RuntimeError', 'TypeError',
                'FloatingPointError', 'KeyError', 'IndexError', 'AttributeError', 'StopIteration', 'MemoryError']


def weights(rng):
    """swarm: which reads dominate this run"""
    w = {}
    for k in ('elem', 'lin', 'idx', 'full', 'sparse', 'diag', 'normed', 'normalize', 'centered', 'center', 'frob',
              'meta', 'all', 'bad'):
        w[k] = rng.choice([0, 1, 1, 3, 8]) if k != 'bad' else rng.choice([0, 1, 2])
    if not any(w[k] for k in w if k != 'bad'):
        w['full'] = w['idx'] = 1
    return w


def with_uids(ops):
    for i, o in enumerate(ops):
        o['u'] = 'o%d' % i
    return ops


class C01:
    rule = ('a seeded history of 3-14 reads (valid and refused, all views) on 1-2 kernel matrices over random '
            'one/two-sample attachments; non-trivial: at least two successful reads through different views')

    @staticmethod
    def gen(rng, tier):
        skinds, kkinds = kinds_for(rng)
        nk = rng.choice([1, 1, 2])
        kms = [{'k': rand_kernel(rng, kkinds, .6), 'norm': rng.random() < .5} for _ in range(nk)]
        ops = []
        d = rng.choice([1, 2, 3, 4, 7])
        atts = []
        for i in range(nk):
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, (2, 2), False)})
            a = gen_attach(rng, d, skinds, big=.03 if tier == 'quick' else .06)
            atts.append(a)
            ops.append({'op': 'attach', 'km': i, 'a': a})
        w = weights(rng)
        for _ in range(rng.choice([3, 5, 8, 12])):
            i = rng.randrange(nk)
            ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, shape_of(atts[i]), 'y' in atts[i], w)})
        return {'cfg': {'kms': kms}, 'ops': with_uids(ops), 'faults': []}

    @staticmethod
    def run(sim, plan):
        kms = [[KernelMatrix(mk(c['k']), normalized=c['norm']), None, c] for c in plan['cfg']['kms']]
        views = set()
        for o in plan['ops']:
            e = kms[o['km']]
            if o['op'] == 'attach':
                X, Y = build(o['a'])
                out, _ = quiet_op(sim, o['u'], lambda: attach(e[0], o['a'], X, Y))
                expect(out[0] == 'ok', 'unexpected-failure', 'attach raised %r' % (out[1],))
                e[1] = Ref(formula(e[2]['k']), e[2]['norm'], X, Y)
            else:
                shape = e[1].shape if e[1] else (2, 2)
                out, _ = quiet_op(sim, o['u'], lambda: read(e[0], o['r'], shape))
                if e[1] is None and o['r'][0] == 'meta':
                    if out[0] == 'ok':
                        raise Violation('not-refused', 'sizes of an unattached matrix: %s' % (out[1],))
                    continue
                judge(e[1], o['r'], out)
                if out[0] == 'ok':
                    views.add(o['r'][0])
                    sim.probe('read:' + o['r'][0])
                    if e[1].two:
                        sim.probe('two-sample')
                else:
                    sim.probe('refused-read')
                sim.state('C01', o['km'], e[1] is not None and e[1].shape, e[2]['norm'], sorted(views))
        for i, e in enumerate(kms):
            full_check(sim, e[0], e[1], 'end%d' % i)
        sim.nontrivial = len(views) >= 2


# ---------------------------------------------------------------- C02

class C02:
    rule = ('a seeded history of attachments (fresh, repeated, reused buffers, sets, changing shapes/kinds), reads, '
            'attribute changes over 1-3 kernel matrices that may share kernels and samples, some attachments and '
            'reads interrupted; non-trivial: some matrix re-attached after at least one successful read')

    @staticmethod
    def gen(rng, tier):
        skinds, kkinds = kinds_for(rng)
        nk = rng.choice([1, 1, 2, 3])
        kms = [{'k': rand_kernel(rng, kkinds, .5), 'norm': rng.random() < .5} for _ in range(nk)]
        for i in range(1, nk):
            if rng.random() < .5:
                kms[i]['share'] = 0
                kms[i]['k'] = kms[0]['k']
        d = rng.choice([1, 2, 3, 4])
        # a set of the matrices, all attached through it to samples of one size
        use_set = nk > 1 and skinds != ['str'] and rng.random() < .5
        ns = rng.choice([2, 3, 4, 5, 5, 9])
        cur = [None] * nk
        pool = []
        ops = []
        w = weights(rng)
        bufs = [[rng.choice([2, 3, 5]), d] for _ in range(2)]
        nsteps = rng.choice([4, 6, 9, 14])
        for step in range(nsteps):
            x = rng.random()
            i = rng.randrange(nk)
            if step < nk and cur[step] is None:
                i, x = step, 0.0
            if x < .3:
                d2 = d if rng.random() < .8 else rng.choice([1, 2, 3, 5])
                if use_set and rng.random() < .6:
                    y = rng.random()
                    again = [q for q in pool if q['x']['n'] == ns and 'y' not in q]
                    if y < .35:
                        b = rng.randrange(2)
                        bufs[b][0] = ns
                        a = {'x': rand_sample(rng, ns, d, skinds, forms=['C']), 'buf': b,
                             'n1': 'nm%06d' % rng.randrange(10 ** 6)}
                    elif y < .6 and again:
                        a = dict(rng.choice(again))
                        if rng.random() < .5:
                            a['n1'] = 'nm%06d' % rng.randrange(10 ** 6)
                    else:
                        a = {'x': rand_sample(rng, ns, d2, skinds), 'n1': 'nm%06d' % rng.randrange(10 ** 6)}
                    pool.append(a)
                    o = {'op': 'sattach', 'a': a}
                    if rng.random() < .5:
                        o['attr'] = ['k%d' % rng.randrange(3), rng.randrange(100)]
                    ops.append(o)
                    cur = [a] * nk
                    continue
                if use_set:
                    a = {'x': rand_sample(rng, ns, d2, skinds), 'n1': 'nm%06d' % rng.randrange(10 ** 6)}
                elif pool and rng.random() < .35:
                    a = dict(rng.choice(pool), n1='nm%06d' % rng.randrange(10 ** 6))
                elif cur[i] is not None and rng.random() < .4:
                    # same sizes, kinds and perhaps names, other values (in one or both samples)
                    a = dict(cur[i])
                    a.pop('buf', None)
                    part = rng.choice(['x', 'y', 'xy'])
                    if 'x' in part or not isinstance(a.get('y'), dict):
                        a['x'] = dict(a['x'], s=rng.randrange(10 ** 6))
                    if 'y' in part and isinstance(a.get('y'), dict):
                        a['y'] = dict(a['y'], s=rng.randrange(10 ** 6))
                    if rng.random() < .5:
                        a['n1'] = 'nm%06d' % rng.randrange(10 ** 6)
                else:
                    a = gen_attach(rng, d2, skinds, big=.01)
                if rng.random() < .3 and skinds != ['str']:
                    b = rng.randrange(2)
                    a = {'x': rand_sample(rng, bufs[b][0], d, skinds, forms=['C']), 'buf': b,
                         'n1': 'nm%06d' % rng.randrange(10 ** 6)}
                    if use_set:
                        a['x']['n'] = ns
                        bufs[b][0] = ns
                if rng.random() < .15:
                    a = dict(a, n1='sample', n2='sample2')
                elif 'y' in a and rng.random() < .25:
                    a = dict(a, n2=None)        # the second sample is not named
                pool.append(a)
                cur[i] = a
                ops.append({'op': 'attach', 'km': i, 'a': a, 'pos': rng.random() < .3})
            elif x < .42:
                ops.append({'op': 'setattr', 'km': i, 'name': 'k%d' % rng.randrange(3),
                            'v': rng.choice([rng.randrange(100), rng.randrange(100), 0, None, '', 'v', False, []])})
            elif x < .5:
                ops.append({'op': 'attrs', 'km': i})
            elif x < .58:
                ops.append({'op': 'str', 'km': i})
            elif cur[i] is not None:
                ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, shape_of(cur[i]), 'y' in cur[i], w)})
        faults = []
        if rng.random() < .3:
            faults.append({'kind': 'intr', 'exc': rng.choice(['KeyboardInterrupt', 'SimTimeout']),
                           'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['ops', 'sites'])})
        return {'cfg': {'kms': kms, 'bufs': bufs, 'set': use_set, 'ns': ns, 'd': d},
                'ops': with_uids(ops), 'faults': faults}

    @staticmethod
    def run(sim, plan):
        cfg = plan['cfg']
        kobs = []
        kms = []
        for c in cfg['kms']:
            k = kobs[c['share']] if 'share' in c else mk(c['k'])
            kobs.append(k)
            kms.append({'km': KernelMatrix(k, normalized=c['norm']), 'ref': None, 'attr': {}, 'c': c, 'names': (),
                        'buf': None, 'known': True, 'past': set(), 'reads': 0})
        bufs = {}
        samples = {}
        kset = KernelSet([e['km'] for e in kms], name='S') if cfg['set'] else None

        def attached(e, a, X, Y, buf=None):
            e['past'] |= {nm for nm in e['names'] if nm[:2] in ('nm', 'mm')}
            e['names'] = (a['n1'],) + ((a['n2'],) if Y is not None and a['n2'] else ())
            e['past'] -= set(e['names'])
            e['ref'] = Ref(formula(e['c']['k']), e['c']['norm'], X, Y)
            e['attr'] = {}
            e['buf'] = buf
            e['known'] = True
            if e['reads']:
                sim.probe('reattached-after-reads')
                sim.nontrivial = True
            e['reads'] = 0

        for o in plan['ops']:
            e = kms[o['km']] if 'km' in o else None
            if o['op'] in ('attach', 'sattach'):
                a = o['a']
                buf = a.get('buf')
                if buf is not None:
                    new = np.asarray(sample(dict(a['x'], form='C')), float)
                    if (buf, new.shape) in bufs:
                        bufs[buf, new.shape][...] = new
                        for other in kms:     # whoever is attached to this buffer: caller's own doing
                            if other['buf'] == (buf, new.shape):
                                other['known'] = False
                        sim.probe('buffer-reused')
                    else:
                        bufs[buf, new.shape] = new.copy()
                    X, Y = bufs[buf, new.shape], None
                    buf = (buf, new.shape)
                else:
                    key = repr((a['x'], a.get('y')))
                    if key not in samples:
                        samples[key] = build(a)
                    X, Y = samples[key]
                if o['op'] == 'attach':
                    def go():
                        if o.get('pos'):
                            return e['km'].attach_to(X, a['n1'], Y, a['n2']) if Y is not None and a['n2'] else \
                                e['km'].attach_to(X, a['n1'], Y) if Y is not None else \
                                e['km'].attach_to(X, a['n1'])
                        return attach(e['km'], a, X, Y)
                    out, _ = quiet_op(sim, o['u'], go)
                    who = [e]
                else:
                    at = o.get('attr')
                    out, _ = quiet_op(sim, o['u'], lambda: kset.attach_to(X, name=a['n1']) if at is None else
                                      kset.attach_to(X, name=a['n1'], attr_name=at[0], attr_value=at[1]))
                    who = kms
                if out[0] == 'ok':
                    for w in who:
                        attached(w, a, X, Y, buf)
                        if o.get('attr'):
                            w['attr'][o['attr'][0]] = o['attr'][1]
                elif was_faulted(sim):
                    for w in who:
                        w['known'] = False      # interrupted attachment: only the next one must be right
                else:
                    raise Violation('unexpected-failure', 'attach raised %r' % (out[1],))
                continue
            if not e['known']:
                quiet_op(sim, o['u'], lambda: read(e['km'], o['r'], (1, 1)) if o['op'] == 'read' else str(e['km']))
                continue
            if o['op'] == 'setattr':
                out, _ = quiet_op(sim, o['u'], lambda: e['km'].set_attr(o['name'], o['v']))
                if out[0] == 'ok':
                    e['attr'][o['name']] = o['v']
                elif was_faulted(sim):
                    e['attr'] = dict(e['km'].attributes())
                else:
                    raise Violation('unexpected-failure', 'set_attr raised %r' % (out[1],))
            elif o['op'] == 'attrs':
                check_attrs(sim, o['u'], e)
            elif o['op'] == 'str':
                check_str(sim, o['u'], e)
            else:
                shape = e['ref'].shape if e['ref'] else (1, 1)
                out, _ = quiet_op(sim, o['u'], lambda: read(e['km'], o['r'], shape))
                judge(e['ref'], o['r'], out, was_faulted(sim))
                if out[0] == 'ok' and e['ref'] is not None:
                    e['reads'] += 1
                sim.state('C02', o['km'], e['ref'] is not None and (e['ref'].shape, e['ref'].two), len(e['attr']))
        for i, e in enumerate(kms):
            if e['known']:
                check_attrs(sim, 'enda%d' % i, e)
                check_str(sim, 'ends%d' % i, e)
                full_check(sim, e['km'], e['ref'], 'end%d' % i)


def check_attrs(sim, uid, e):
    def go():
        return dict(e['km'].attributes()), {k: e['km'].get_attr(k, 'none!') for k in ('k0', 'k1', 'k2', 'zz')}
    out, _ = quiet_op(sim, uid, go)
    if out[0] == 'raise':
        if was_faulted(sim):
            return
        raise Violation('unexpected-failure', 'reading attributes raised %r' % (out[1],))
    expect(out[1][0] == e['attr'], 'wrong-attributes', lambda: 'attributes %s, expected %s' % (out[1][0], e['attr']))
    want = {k: e['attr'].get(k, 'none!') for k in ('k0', 'k1', 'k2', 'zz')}
    expect(out[1][1] == want, 'wrong-attributes', lambda: 'get_attr %s, expected %s' % (out[1][1], want))


def check_str(sim, uid, e):
    out, _ = quiet_op(sim, uid, lambda: (str(e['km']), repr(e['km'])))
    if out[0] == 'raise':
        if was_faulted(sim):
            return
        raise Violation('unexpected-failure', 'str raised %r' % (out[1],))
    for s in out[1]:
        for nm in e['names']:
            expect(nm in s, 'wrong-description', lambda: '%r lacks the sample name %r' % (s, nm))
        for nm in e['past']:
            expect(nm not in s, 'wrong-description', lambda: '%r names an earlier sample %r' % (s, nm))


# ---------------------------------------------------------------- C03

class C03:
    rule = ('a seeded history of reads on 1-2 attached matrices with 1-3 kernel errors, interrupts, allocation '
            'failures or warnings-as-errors placed inside reads, reads repeated afterwards; '
            'non-trivial: at least one fault fired')

    @staticmethod
    def gen(rng, tier):
        skinds, kkinds = kinds_for(rng)
        nk = rng.choice([1, 1, 1, 2])
        kms = [{'k': rand_kernel(rng, kkinds, .9), 'norm': rng.random() < .5} for _ in range(nk)]
        d = rng.choice([1, 2, 3])
        atts = [gen_attach(rng, d, skinds, big=.01) for _ in range(nk)]
        ops = [{'op': 'attach', 'km': i, 'a': atts[i]} for i in range(nk)]
        w = weights(rng)
        w['bad'] = rng.choice([0, 0, 1])
        for _ in range(rng.choice([1, 2, 3, 5])):
            i = rng.randrange(nk)
            o = {'op': 'read', 'km': i, 'r': gen_read(rng, shape_of(atts[i]), 'y' in atts[i], w),
                 'retry': rng.random() < .7}
            if rng.random() < .08:
                o['werr'] = True
            ops.append(o)
        with_uids(ops)
        reads = [o['u'] for o in ops if o['op'] == 'read']
        faults = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choices(['kerr', 'intr', 'alloc', 'kval'], [4, 4, 2, 0])[0]
            f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'only': reads,
                 'mode': rng.choice(['points', 'ops', 'sites', 'sites'])}
            if kind == 'kerr':
                f['exc'] = rng.choice(SCHED_FAULTS + ['KeyboardInterrupt'])
                f['sticky'] = rng.random() < .3
            elif kind == 'intr':
                f['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'SimTimeout', 'SystemExit'])
            else:
                f['exc'] = 'MemoryError'
            faults.append(f)
        return {'cfg': {'kms': kms}, 'ops': ops, 'faults': faults}

    @staticmethod
    def run(sim, plan):
        kms = [[KernelMatrix(mk(c['k']), normalized=c['norm']), None, c] for c in plan['cfg']['kms']]
        for o in plan['ops']:
            e = kms[o['km']]
            if o['op'] == 'attach':
                X, Y = build(o['a'])
                out, _ = quiet_op(sim, o['u'], lambda: attach(e[0], o['a'], X, Y))
                expect(out[0] == 'ok', 'unexpected-failure', 'attach raised %r' % (out[1],))
                e[1] = Ref(formula(e[2]['k']), e[2]['norm'], X, Y)
                continue
            out, _ = quiet_op(sim, o['u'], lambda: read(e[0], o['r'], e[1].shape), werr=o.get('werr', False))
            fired = was_faulted(sim)
            judge(e[1], o['r'], out, fired or (o.get('werr') and isinstance(out[1], Warning)))
            if fired:
                sim.nontrivial = True
                sim.probe('fault-in:' + o['r'][0])
                if out[0] == 'ok':
                    sim.probe('fault-survived')
                sim.state('C03', o['r'][0], e[1].shape, e[1].two, e[2]['norm'], sim.fired[-1][1:])
                if o['retry']:
                    out, _ = quiet_op(sim, o['u'] + '.retry', lambda: read(e[0], o['r'], e[1].shape))
                    judge(e[1], o['r'], out, who='repeated: ')
        for i, e in enumerate(kms):
            full_check(sim, e[0], e[1], 'end%d' % i)


# ---------------------------------------------------------------- C04

BAD_ATT = ['dims', 'one-dim', 'three-dim', 'scalar', 'two-one-dim', 'two-three-dim', 'list', 'none', 'two-list',
           'two-object', 'dims:1', 'dims:less', 'dims:double', 'dims:first', 'dims:rows', 'dims:empty']
BAD_SATT = ['size', 'size2', 'double', 'single', 'transposed', 'one-dim', 'three-dim', 'scalar', 'none', 'text',
            'attr-name']


def bad_attach(km, kind, a, X):
    """an attachment that has to be refused"""
    d = X.shape[1]
    num = X.dtype.kind != 'U'
    good = np.array(X[:, :, 0] if X.ndim == 3 else X)[::-1].copy()
    if num:
        good = good + 1
    if kind == 'dims':
        other = np.ones((X.shape[0], d + 1)) if num else np.full((X.shape[0], d + 1), 'q')
        return km.attach_to(good, name_one='zz1', sample_two=other, name_two='zz2')
    if kind.startswith('dims:'):
        n = X.shape[0]
        d2 = {'1': 1 if d > 1 else 3, 'less': d - 1 or 2, 'double': 2 * d, 'first': d, 'rows': d + 2, 'empty': 0}[kind[5:]]
        n2 = n + 2 if kind == 'dims:rows' else 1 if kind == 'dims:1' else n
        other = np.ones((n2, d2)) if num else np.full((n2, d2), 'q')
        if kind == 'dims:first':
            good = np.hstack([good, good[:, :1]])
        return km.attach_to(good, name_one='zz1', sample_two=other, name_two='zz2')
    if kind == 'one-dim':
        return km.attach_to(good[:, 0], name_one='zz1')
    if kind == 'three-dim':
        return km.attach_to(np.ones((2, 2, 2)), name_one='zz1')
    if kind == 'scalar':
        return km.attach_to(np.array(3.0), name_one='zz1')
    if kind == 'two-one-dim':
        return km.attach_to(good, name_one='zz1', sample_two=good[:, 0], name_two='zz2')
    if kind == 'two-three-dim':
        return km.attach_to(good, name_one='zz1', sample_two=np.ones((2, 2, 2)), name_two='zz2')
    if kind == 'list':
        return km.attach_to('text', name_one='zz1')
    if kind == 'none':
        return km.attach_to(None, name_one='zz1')
    if kind == 'two-list':
        return km.attach_to(good, name_one='zz1', sample_two='text', name_two='zz2')
    if kind == 'two-object':
        return km.attach_to(good, name_one='zz1', sample_two=object(), name_two='zz2')
    raise KeyError(kind)


class C04:
    rule = ('a seeded history of valid attachments, reads and attribute changes on matrices and sets, with refused '
            'attachments at any position; non-trivial: a refused attachment of an attached matrix or a non-empty set')

    @staticmethod
    def gen(rng, tier):
        skinds, kkinds = kinds_for(rng)
        mode = rng.choice(['km', 'km', 'set', 'set'])
        if mode == 'set' and skinds == ['str']:
            skinds, kkinds = None, ('num',)
        ops = []
        w = weights(rng)
        w['bad'] = 0
        d = rng.choice([1, 2, 3])
        if mode == 'km':
            kms = [{'k': rand_kernel(rng, kkinds, .5), 'norm': rng.random() < .5}]
            cur = None
            for step in range(rng.choice([3, 4, 6, 9])):
                x = rng.random()
                if (step == 0 and x < .8) or x < .12:
                    cur = gen_attach(rng, d, skinds, big=.01)
                    ops.append({'op': 'attach', 'km': 0, 'a': cur})
                elif x < .45:
                    ops.append({'op': 'badattach', 'km': 0, 'kind': rng.choice(BAD_ATT)})
                elif x < .55:
                    ops.append({'op': 'setattr', 'km': 0, 'name': 'k%d' % rng.randrange(3),
                                'v': rng.choice([rng.randrange(9), 0, None, ''])})
                elif cur:
                    ops.append({'op': 'read', 'km': 0, 'r': gen_read(rng, shape_of(cur), 'y' in cur, w)})
            if not any(o['op'] == 'badattach' for o in ops):
                ops.append({'op': 'badattach', 'km': 0, 'kind': rng.choice(BAD_ATT)})
            return {'cfg': {'mode': mode, 'kms': kms}, 'ops': with_uids(ops), 'faults': []}
        nk = rng.choice([1, 2, 3, 4])
        n = rng.choice([2, 3, 4, 4, 7])
        kms = [{'k': rand_kernel(rng, kkinds, .5), 'norm': rng.random() < .5} for _ in range(nk)]
        pre = rng.random() < .6      # members attached before they enter the set
        precomp = [rng.randrange(nk + 1)] if pre and rng.random() < .35 else []
        for step in range(rng.choice([3, 4, 6, 9])):
            x = rng.random()
            i = rng.randrange(nk)
            if x < .15:
                ops.append({'op': 'sattach', 'a': {'x': rand_sample(rng, n, d, skinds),
                                                   'n1': 'nm%06d' % rng.randrange(10 ** 6)}})
            elif x < .55:
                ops.append({'op': 'badsattach', 'kind': rng.choice(BAD_SATT), 'attr': rng.random() < .3})
            elif x < .65:
                ops.append({'op': 'setattr', 'km': i, 'name': 'k%d' % rng.randrange(3),
                                'v': rng.choice([rng.randrange(9), 0, None, ''])})
            else:
                ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, (n, n), False, w)})
        if not any(o['op'] == 'badsattach' for o in ops):
            ops.append({'op': 'badsattach', 'kind': rng.choice(BAD_SATT), 'attr': False})
        return {'cfg': {'mode': mode, 'kms': kms, 'n': n, 'd': d, 'pre': pre, 'precomp': precomp,
                        'pa': {'x': rand_sample(rng, n, d, skinds), 'n1': 'pa-first'}},
                'ops': with_uids(ops), 'faults': []}

    @staticmethod
    def run(sim, plan):
        cfg = plan['cfg']
        kms = [{'km': KernelMatrix(mk(c['k']), normalized=c['norm']), 'ref': None, 'attr': {}, 'c': c,
                'names': (), 'past': {'zz1', 'zz2', 'zz9'}, 'X': None} for c in cfg['kms']]

        def attached(e, a, X, Y):
            e['past'] = (e['past'] | set(e['names']))
            e['names'] = (a['n1'],) + ((a['n2'],) if Y is not None and a['n2'] else ())
            e['past'] -= set(e['names'])
            e['ref'] = Ref(formula(e['c']['k']), e['c']['norm'], X, Y)
            e['attr'] = {}
            e['X'] = X

        kset, members, sn, ssample = None, None, None, [None]
        if cfg['mode'] == 'set':
            if cfg['pre']:
                X, _ = build(cfg['pa'])
                for e in kms:
                    out, _ = quiet_op(sim, 'pre', lambda: attach(e['km'], cfg['pa'], X, None))
                    expect(out[0] == 'ok', 'unexpected-failure', 'attach raised %r' % (out[1],))
                    attached(e, cfg['pa'], X, None)
                sn = cfg['n']
            members = [e['km'] for e in kms]
            for p in cfg['precomp']:
                members.insert(p, KernelMatrixPrecomputed(np.eye(cfg['n'])))
            out, _ = quiet_op(sim, 'mkset', lambda: KernelSet(members, name='S'))
            expect(out[0] == 'ok', 'unexpected-failure', 'KernelSet raised %r' % (out[1],))
            kset = out[1]

        def verify(uid):
            for i, e in enumerate(kms):
                check_attrs(sim, '%s.a%d' % (uid, i), e)
                check_str(sim, '%s.s%d' % (uid, i), e)
                if e['ref'] is None:
                    out, _ = quiet_op(sim, '%s.f%d' % (uid, i), lambda: e['km'].full)
                    expect(out[0] == 'raise', 'mixed-state', lambda: 'an unattached matrix can be read')
                    expect(e['km'].num_samples is None, 'mixed-state', 'an unattached matrix reports samples')
                    continue
                r = ['meta']
                out, _ = quiet_op(sim, '%s.m%d' % (uid, i), lambda: read(e['km'], r))
                judge(e['ref'], r, out, who='after a refused attachment: ')
                r = ['idx', ['s', None, None, 2], ['s', None, None, None]]
                out, _ = quiet_op(sim, '%s.r%d' % (uid, i), lambda: read(e['km'], r))
                judge(e['ref'], r, out, who='after a refused attachment: ')
            if kset is not None:
                expect(kset.num_samples == sn, 'mixed-state', lambda: 'the set reports %s samples, expected %s'
                       % (kset.num_samples, sn))
                expect([id(k) for k in kset] == [id(k) for k in members], 'mixed-state', 'members changed')
                got = getattr(kset, 'sample', None)
                expect((got is None) == (ssample[0] is None) and
                       (got is None or np.array_equal(np.asarray(got), ssample[0])), 'mixed-state',
                       'the sample of the set changed')

        for o in plan['ops']:
            e = kms[o['km']] if 'km' in o else None
            op = o['op']
            if op == 'attach':
                X, Y = build(o['a'])
                out, _ = quiet_op(sim, o['u'], lambda: attach(e['km'], o['a'], X, Y))
                expect(out[0] == 'ok', 'unexpected-failure', 'attach raised %r' % (out[1],))
                attached(e, o['a'], X, Y)
            elif op == 'badattach':
                X = e['X'] if e['X'] is not None else np.arange(6.0).reshape(3, 2)
                out, _ = quiet_op(sim, o['u'], lambda: bad_attach(e['km'], o['kind'], None, X))
                if out[0] == 'ok':
                    raise Violation('not-refused', 'attach_to (%s) was accepted' % o['kind'])
                sim.probe('refused:' + o['kind'])
                sim.state('C04', o['kind'], e['ref'] is not None and (e['ref'].shape, e['ref'].two), len(e['attr']))
                if e['ref'] is not None:
                    sim.nontrivial = True
                verify(o['u'])
            elif op == 'sattach':
                X, _ = build(o['a'])
                out, _ = quiet_op(sim, o['u'], lambda: kset.attach_to(X, name=o['a']['n1']))
                if cfg['precomp']:
                    if out[0] == 'ok':
                        raise Violation('not-refused', 'a set with a member that can not be attached was attached')
                    sim.probe('refused:member')
                    sim.nontrivial = True
                    verify(o['u'])
                else:
                    expect(out[0] == 'ok', 'unexpected-failure', 'set attach raised %r' % (out[1],))
                    sn = cfg['n']
                    ssample[0] = np.array(X[:, :, 0] if X.ndim == 3 else X)
                    for x in kms:
                        attached(x, o['a'], X, None)
            elif op == 'badsattach':
                n, d = cfg['n'], cfg['d']
                if o['kind'] in ('size', 'size2', 'double', 'single', 'transposed') and sn is None or \
                        o['kind'] == 'transposed' and n == d or o['kind'] == 'single' and n == 1:
                    continue
                bad = {'size': lambda: np.ones((n + 1, d)), 'size2': lambda: np.ones((max(1, n - 1), d)),
                       'double': lambda: np.ones((2 * n, d)), 'single': lambda: np.ones((1, d)),
                       'transposed': lambda: np.ones((d, n)), 'one-dim': lambda: np.ones(n), 'three-dim': lambda: np.ones((n, d + 1, 2)),
                       'scalar': lambda: np.array(2.0), 'none': lambda: None, 'text': lambda: 'text',
                       'attr-name': lambda: np.ones((n, d)) + np.eye(n, d)}[o['kind']]()
                kw = {'attr_name': 'k1', 'attr_value': 77} if o['attr'] else {}
                if o['kind'] == 'attr-name':        # not hashable: can not name an attribute
                    kw = {'attr_name': ['k1'] if o['attr'] else {'k1': 1}, 'attr_value': 77}
                out, _ = quiet_op(sim, o['u'], lambda: kset.attach_to(bad, name='zz9', **kw))
                if out[0] == 'ok':
                    raise Violation('not-refused', 'set attach_to (%s) was accepted' % o['kind'])
                sim.probe('refused-set:' + o['kind'])
                sim.state('C04s', o['kind'], len(kms), [x['ref'] is not None for x in kms], sn)
                sim.nontrivial = True
                verify(o['u'])
            elif op == 'setattr':
                out, _ = quiet_op(sim, o['u'], lambda: e['km'].set_attr(o['name'], o['v']))
                expect(out[0] == 'ok', 'unexpected-failure', 'set_attr raised %r' % (out[1],))
                e['attr'][o['name']] = o['v']
            elif e['ref'] is not None:
                out, _ = quiet_op(sim, o['u'], lambda: read(e['km'], o['r'], e['ref'].shape))
                judge(e['ref'], o['r'], out)
        verify('end')
        for i, e in enumerate(kms):
            full_check(sim, e['km'], e['ref'], 'endf%d' % i)


# ---------------------------------------------------------------- C05

class C05:
    rule = ('2-4 threads, each making 1-4 reads of shared (or kernel-sharing) matrices, interleaved by the seeded '
            'scheduler at every point where CPython can switch threads; in some runs one thread fails or is '
            'interrupted; non-trivial: at least one switch inside an operation')
    threaded = True

    @staticmethod
    def gen(rng, tier):
        skinds, kkinds = kinds_for(rng)
        nk = rng.choice([1, 1, 1, 2])
        kms = [{'k': rand_kernel(rng, kkinds, .8), 'norm': rng.random() < .5} for _ in range(nk)]
        if nk == 2 and rng.random() < .7:
            kms[1]['share'] = 0
            kms[1]['k'] = kms[0]['k']
        d = rng.choice([1, 2, 3])
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 5, 9])
        atts = []
        for i in range(nk):
            if i and rng.random() < .5:
                atts.append(dict(atts[0]))
                continue
            a = {'x': rand_sample(rng, n, d, skinds), 'n1': 'a', 'n2': 'b'}
            if rng.random() < .4:
                a['y'] = rand_sample(rng, rng.choice([n, n + 1, max(1, n - 1), 4]), d, [a['x']['k']])
            atts.append(a)
        w = weights(rng)
        w['bad'] = rng.choice([0, 0, 1])
        ops = []
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            i = rng.randrange(nk)
            ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, shape_of(atts[i]), 'y' in atts[i], w), 'tid': 0})
        nt = rng.choice([2, 2, 3, 4])
        same = gen_read(rng, shape_of(atts[0]), 'y' in atts[0], w) if rng.random() < .4 else None
        for t in range(1, nt + 1):
            for j in range(rng.choice([1, 1, 2, 3])):
                i = rng.randrange(nk)
                r = same if same is not None and j == 0 else \
                    gen_read(rng, shape_of(atts[i]), 'y' in atts[i], w)
                if r is same:
                    i = 0
                ops.append({'op': 'read', 'km': i, 'r': r, 'tid': t})
        with_uids(ops)
        faults = []
        if rng.random() < .35:
            kind = rng.choice(['kerr', 'intr', 'alloc'])
            f = {'kind': kind, 'f1': rng.random(), 'f2': rng.random(), 'mode': rng.choice(['points', 'sites']),
                 'only': [o['u'] for o in ops if o['tid'] == 1]}
            f['exc'] = {'kerr': rng.choice(SCHED_FAULTS), 'intr': rng.choice(['KeyboardInterrupt', 'SimTimeout']),
                        'alloc': 'MemoryError'}[kind]
            faults.append(f)
        return {'cfg': {'kms': kms, 'atts': atts}, 'ops': ops, 'faults': faults, 'sched': gen_sched(rng)}

    @staticmethod
    def run(sim, plan):
        cfg = plan['cfg']
        kobs, kms = [], []
        shared = {}
        warnings.simplefilter('ignore')
        for c, a in zip(cfg['kms'], cfg['atts']):
            k = kobs[c['share']] if 'share' in c else mk(c['k'])
            kobs.append(k)
            km = KernelMatrix(k, normalized=c['norm'])
            key = repr((a['x'], a.get('y')))
            if key not in shared:
                shared[key] = build(a)
            X, Y = shared[key]
            out = sim.op('att%d' % len(kms), lambda: attach(km, a, X, Y))
            expect(out[0] == 'ok', 'unexpected-failure', 'attach raised %r' % (out[1],))
            ref = Ref(formula(c['k']), c['norm'], X, Y)
            ref.raw()
            kms.append((km, ref))

        def one(task, o):
            km, ref = kms[o['km']]
            out = sim.op(o['u'], lambda: read(km, o['r'], ref.shape), task)
            judge(ref, o['r'], out, bool(task.fired), 'thread %d: ' % task.tid)

        for o in plan['ops']:
            if o['tid'] == 0:
                one(sim.main, o)
        tids = sorted({o['tid'] for o in plan['ops'] if o['tid']})
        if tids:
            def body(tid):
                def go(task):
                    for o in plan['ops']:
                        if o['tid'] == tid:
                            one(task, o)
                return go
            sim.threads([(t, body(t)) for t in tids], plan['sched'])
        sim.nontrivial = sim.nswitch > 0
        for i, (km, ref) in enumerate(kms):
            warnings.simplefilter('ignore')
            for r in (['meta'], ['idx', ['s', None, None, None], ['s', None, None, None]], ['full'], ['frob'],
                      ['sparse'], ['normed'], ['centered'], ['diag']):
                out = sim.op('end%d.%s' % (i, r[0]), lambda: read(km, r))
                judge(ref, r, out, who='after all threads: ')


def gen_sched(rng):
    x = rng.random()
    if x < .3:
        return {'mode': 'park', 'seed': rng.randrange(10 ** 9), 'p': rng.choice([.05, .15, .5])}
    if x < .65:
        return {'mode': 'random', 'seed': rng.randrange(10 ** 9), 'p': rng.choice([.02, .05, .1, .2, .4])}
    return {'mode': 'pct', 'seed': rng.randrange(10 ** 9), 'd': rng.choice([1, 2, 3, 5]),
            'est': rng.choice([50, 150, 400, 1000])}


# ---------------------------------------------------------------- C07

class C07:
    rule = ('a seeded history of partial and whole reads on matrices whose rows carry unique ids, with 0-2 kernel '
            'errors at chosen evaluations; every kernel call is logged and compared with the pairs asked for; '
            'non-trivial: at least two reads that overlap')

    @staticmethod
    def gen(rng, tier):
        nk = rng.choice([1, 1, 2])
        kms = [{'k': ['tag', {'c': float(3 + i), 'd': 1, 'rt': 'f'}], 'norm': rng.random() < .4} for i in range(nk)]
        d = rng.choice([1, 2, 3])
        ops = []
        cur = [None] * nk
        w = weights(rng)
        nid = 1
        for step in range(rng.choice([4, 6, 9, 14])):
            i = rng.randrange(nk)
            if step < nk:
                i = step
            if step < nk or rng.random() < .08:
                n = gen_n(rng, .02)
                a = {'x': {'k': 'id', 'n': n, 'd': d, 's': rng.randrange(1000), 'id0': nid,
                           'form': rng.choice(['C', 'F', 'view'])}, 'n1': 'a', 'n2': 'b'}
                nid += n
                if rng.random() < .45:
                    m = rng.choice([n, n + 1, max(1, n - 1), rng.choice([1, 3, 6])])
                    if rng.random() < .1:
                        a['y'] = 'same'
                    else:
                        a['y'] = {'k': 'id', 'n': m, 'd': d, 's': rng.randrange(1000), 'id0': nid}
                        nid += m
                cur[i] = a
                ops.append({'op': 'attach', 'km': i, 'a': a})
            else:
                ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, shape_of(cur[i]), 'y' in cur[i], w)})
        with_uids(ops)
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            faults.append({'kind': 'kerr', 'exc': rng.choice(SCHED_FAULTS), 'f1': rng.random(), 'f2': rng.random(),
                           'mode': rng.choice(['points', 'ops', 'sites', 'sites']), 'sticky': rng.random() < .2})
        odd = rng.random() < .2
        if odd:     # some evaluations give a value that is not finite: evaluated all the same, once
            faults = [{'kind': 'kval', 'exc': rng.choice(['nan', 'nan', 'inf', 'ninf']), 'f1': rng.random(),
                       'f2': rng.random(), 'mode': 'points'} for _ in range(rng.choice([1, 2, 4]))]
        return {'cfg': {'kms': kms, 'odd': odd}, 'ops': ops, 'faults': faults}

    @staticmethod
    def run(sim, plan):
        kms = [{'km': KernelMatrix(mk(c['k']), normalized=c['norm']), 'c': c, 'odd': plan['cfg'].get('odd')}
               for c in plan['cfg']['kms']]
        nreads = 0
        for o in list(plan['ops']) + [{'op': 'end', 'u': 'end%d' % i, 'km': i} for i in range(len(kms))]:
            e = kms[o['km']]
            if o['op'] == 'attach':
                X, Y = build(o['a'])
                mark = len(sim.evals)
                out, _ = quiet_op(sim, o['u'], lambda: attach(e['km'], o['a'], X, Y))
                expect(out[0] == 'ok', 'unexpected-failure', 'attach raised %r' % (out[1],))
                expect(len(sim.evals) == mark, 'needless-evaluation', 'attaching evaluated the kernel')
                e.update(ref=Ref(formula(e['c']['k']), e['c']['norm'], X, Y), seen={}, selfs={}, attempts=0,
                         rx={float(v): i for i, v in enumerate(X[:, 0])},
                         ry={float(v): i for i, v in enumerate((X if Y is None else Y)[:, 0])}, two=Y is not None,
                         same=Y is X)
                continue
            if 'ref' not in e:
                continue
            if o['op'] == 'read':
                C07.step(sim, e, o['u'], o['r'])
                nreads += 1
                if o['r'][0] != 'bad':
                    sim.probe('read:' + o['r'][0])
            else:
                for r in (['sparse'], ['full'], ['normed'], ['centered'], ['frob'], ['diag'],
                          ['idx', ['s', None, None, None], ['s', None, None, None]], ['elem', 0, 0]):
                    C07.step(sim, e, o['u'] + r[0], r)
        sim.nontrivial = nreads >= 2

    @staticmethod
    def step(sim, e, uid, r):
        ref = e['ref']
        n, m = ref.shape
        mark = len(sim.evals)
        out, _ = quiet_op(sim, uid, lambda: read(e['km'], r, ref.shape))
        if not e['odd']:
            judge(ref, r, out, was_faulted(sim))
        k = r[0]
        want_self = False
        if k == 'elem':
            need = {(r[1], r[2])}
        elif k == 'lin':
            need = {(r[1] // m, r[1] % m)}
        elif k == 'idx':
            from kmops import ids_of
            need = {(i, j) for i in ids_of(r[1], n) for j in ids_of(r[2], m)}
        elif k == 'diag':
            need = set() if ref.two else {(i, i) for i in range(n)}
        elif k in ('meta', 'bad', 'str'):
            need = set()
        elif k in ('centered', 'center') and ref.two:
            need = set()
        else:
            need = {(i, j) for i in range(n) for j in range(m)}
            want_self = ref.two and (k in ('normed', 'normalize') or ref.normalized)
        if not ref.two:
            need = {(min(p), max(p)) for p in need}
        if want_self:
            e['attempts'] += 1
        for _, name, a, b, v in sim.evals[mark:]:
            if ref.two:
                if a in e['rx'] and b in e['ry'] and not (e['same'] and a == b):
                    pair = (e['rx'][a], e['ry'][b])
                elif e['same'] and a == b and a in e['rx']:
                    key = (a, b)
                    e['selfs'][key] = e['selfs'].get(key, 0) + 1
                    lim = 1 + 2 * e['attempts']
                    expect(e['selfs'][key] <= lim, 'evaluated-twice', 'self pair %s evaluated %d times' %
                           (key, e['selfs'][key]))
                    continue
                elif want_self and a == b and (a in e['rx'] or a in e['ry']):
                    key = (a, b)
                    e['selfs'][key] = e['selfs'].get(key, 0) + 1
                    expect(e['selfs'][key] <= e['attempts'], 'evaluated-twice',
                           'self pair %s evaluated %d times' % (key, e['selfs'][key]))
                    continue
                else:
                    raise Violation('needless-evaluation', '%s evaluated a pair outside the matrix: %s' % (r, (a, b)))
            else:
                if a not in e['rx'] or b not in e['rx']:
                    raise Violation('needless-evaluation', '%s evaluated foreign rows %s' % (r, (a, b)))
                i, j = e['rx'][a], e['rx'][b]
                pair = (min(i, j), max(i, j))
            expect(pair in need, 'needless-evaluation', lambda: '%s evaluated %s, which was not asked for' % (r, pair))
            expect(pair not in e['seen'], 'evaluated-twice',
                   lambda: '%s evaluated %s again (first in %s)' % (r, pair, e['seen'][pair]))
            e['seen'][pair] = str(r)
        if want_self and out[0] == 'ok' and not was_faulted(sim):
            e['attempts'] = max(e['attempts'], 1)
        sim.state('C07', ref.shape, ref.two, k, len(e['seen']))


# ---------------------------------------------------------------- C18

class C18:
    rule = ('a seeded history of partial and whole reads, re-attachments, with the kernel returning NaN/Inf at 0-3 '
            'chosen evaluations (also on the first failing, then succeeding, reads); '
            'non-trivial: a whole matrix with a non-finite value was handed out')

    @staticmethod
    def gen(rng, tier):
        nk = rng.choice([1, 1, 2])
        kms = []
        for i in range(nk):
            k = rng.choice([['tag', {'c': float(3 + i), 'd': 1, 'rt': 'f'}], ['fn', {'c': 3.5 + i}],
                            ['w:gauss', {'sigma': 4.0}], ['w:poly', {'degree': 2}]])
            kms.append({'k': k, 'norm': rng.random() < .5})
        huge = rng.random() < .1
        if huge:        # finite, but their sum is not
            for c in kms:
                c['k'] = ['tag', {'c': rng.choice([3e307, 1e308]), 'd': 1, 'rt': 'f'}]
        d = rng.choice([1, 2, 3])
        ops = []
        cur = [None] * nk
        w = weights(rng)
        for k in ('full', 'all', 'sparse', 'normed', 'centered'):
            w[k] = max(w[k], 1)
        if huge:
            w.update(centered=0, center=0, frob=0)
        nid = 1
        for step in range(rng.choice([2, 3, 5, 8])):
            i = rng.randrange(nk)
            if step < nk:
                i = step
            if step < nk or rng.random() < .12:
                n = gen_n(rng, .01)
                a = {'x': {'k': 'id', 'n': n, 'd': d, 's': rng.randrange(1000), 'id0': nid}, 'n1': 'a', 'n2': 'b'}
                nid += n
                if rng.random() < .4:
                    m = rng.choice([n, n + 1, max(1, n - 1)])
                    a['y'] = {'k': 'id', 'n': m, 'd': d, 's': rng.randrange(1000), 'id0': nid}
                    nid += m
                cur[i] = a
                ops.append({'op': 'attach', 'km': i, 'a': a})
            else:
                ops.append({'op': 'read', 'km': i, 'r': gen_read(rng, shape_of(cur[i]), 'y' in cur[i], w)})
        with_uids(ops)
        faults = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            faults.append({'kind': 'kval', 'exc': rng.choice(['nan', 'inf', 'ninf']), 'f1': rng.random(),
                           'f2': rng.random(), 'mode': rng.choice(['points', 'ops', 'sites', 'sites']),
                           'sticky': rng.random() < .12})
        if rng.random() < .15:
            faults.append({'kind': rng.choice(['kerr', 'intr']), 'exc': 'ValueError', 'f1': rng.random(),
                           'f2': rng.random(), 'mode': rng.choice(['points', 'sites'])})
        return {'cfg': {'kms': kms}, 'ops': ops, 'faults': faults}

    @staticmethod
    def run(sim, plan):
        kms = [{'km': KernelMatrix(mk(c['k']), normalized=c['norm']), 'c': c} for c in plan['cfg']['kms']]
        for o in list(plan['ops']) + [{'op': 'end', 'u': 'end%d' % i, 'km': i} for i in range(len(kms))]:
            e = kms[o['km']]
            if o['op'] == 'attach':
                X, Y = build(o['a'])
                out, ws = quiet_op(sim, o['u'], lambda: attach(e['km'], o['a'], X, Y))
                if out[0] == 'raise':
                    expect(was_faulted(sim), 'unexpected-failure', 'attach raised %r' % (out[1],))
                    e.pop('ref', None)
                    continue
                ref = Ref(formula(e['c']['k']), e['c']['norm'], X, Y)
                ref._raw = ref.raw().copy()
                e.update(ref=ref, warned=False, bad=False, selfbad=False,
                         rx={float(v): i for i, v in enumerate(X[:, 0])},
                         ry={float(v): i for i, v in enumerate((X if Y is None else Y)[:, 0])})
                continue
            if 'ref' not in e:
                continue
            rs = [o['r']] if o['op'] == 'read' else [['full'], ['centered'], ['normed'], ['sparse'],
                                                     ['idx', ['s', None, None, None], ['s', None, None, None]]]
            if e['c']['k'][1].get('c', 0) > 1e300:
                rs = [r for r in rs if r[0] != 'centered']
            for r in rs:
                C18.step(sim, e, o['u'] + ('' if o['op'] == 'read' else r[0]), r)

    @staticmethod
    def step(sim, e, uid, r):
        ref = e['ref']
        mark = len(sim.evals)
        before = len(sim.fired)
        out, ws = quiet_op(sim, uid, lambda: read(e['km'], r, ref.shape))
        hard = any(f[1] in ('kerr', 'intr') for f in sim.fired[before:])
        # what the kernel answered in this operation
        for _, name, a, b, v in sim.evals[mark:]:
            if np.isfinite(v) and a in e['rx'] and b in e['ry']:
                # a non-finite value that an interruption kept from being stored: evaluated again, the last counts
                i, j = e['rx'][a], e['ry'][b]
                if not np.isfinite(ref._raw[i, j]):
                    ref._raw[i, j] = v
                    if not ref.two:
                        ref._raw[j, i] = v
                    ref._c.clear()
                    sim.probe('evaluated-again')
            if not np.isfinite(v):
                if ref.two and not (a in e['rx'] and b in e['ry']):
                    e['selfbad'] = True
                else:
                    i, j = e['rx'][a], e['ry'][b]
                    ref._raw[i, j] = v
                    if not ref.two:
                        ref._raw[j, i] = v
                    e['bad'] = True
                ref._c.clear()
                sim.probe('nonfinite-evaluation')
        if ws:
            e['warned'] = True
            if not e['bad'] and not e['selfbad']:
                raise Violation('false-warning', '%s warned although all values are finite: %s'
                                % (r, str(ws[0].message)[:120]))
        if out[0] == 'raise':
            if hard or C18.refused(ref, r, e):
                return
            raise Violation('unexpected-failure', '%s raised %r' % (r, out[1]))
        if r[0] == 'bad' or (ref.two and r[0] in ('diag', 'centered', 'center')):
            raise Violation('not-refused', '%s accepted' % r)
        v = out[1]
        if not e['bad'] and not e['selfbad']:
            judge(ref, r, out)
            return
        raw_view = r[0] in ('elem', 'lin', 'idx', 'diag') or (r[0] in ('full', 'sparse') and not ref.normalized)
        if raw_view or r[0] == 'meta':
            check_value(ref, r, v)
        whole = r[0] in ('full', 'sparse', 'normed', 'centered') or \
            (r[0] == 'idx' and hasattr(v, 'shape') and tuple(v.shape) == ref.shape and ref.shape != (1, 1))
        if whole:
            arr = np.asarray(v.todense()) if issparse(v) else np.asarray(v)
            expect(arr.shape == ref.shape, 'wrong-value', '%s: shape %s' % (r, arr.shape))
            if not raw_view and r[0] != 'idx' and e['bad']:
                # derived matrices can not pretend that the value was finite
                badpos = np.isnan(ref._raw)
                expect(not np.isfinite(arr[badpos]).any(), 'hidden',
                       lambda: '%s shows finite numbers where the kernel gave NaN' % r)
            if not np.isfinite(arr).all():
                sim.nontrivial = True
                sim.probe('handed-out:' + r[0])
                sim.state('C18', r[0], ref.shape, ref.two, e['c']['norm'], e['c']['k'][0])
                expect(e['warned'], 'not-announced', lambda: '%s handed out non-finite values without a '
                       'KernelMethodsWarning so far' % r)

    @staticmethod
    def refused(ref, r, e):
        if r[0] in ('bad', ) or (ref.two and r[0] in ('diag', 'centered', 'center')):
            return True
        return False
