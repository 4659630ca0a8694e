"""Deterministic simulator core: interruptible points, faults, thread scheduler, runs in forks.

One run is a pure function of (plan, code).  A plan is JSON: {prop, cfg, ops, faults, sched}.
"""
import hashlib
import json
import os
import random
import select
import signal
import sys
import threading
import time
import traceback
import types
import _thread
from importlib.abc import MetaPathFinder
from importlib.machinery import PathFinder, SourceFileLoader

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'kernelmethods'
PKGDIR = os.path.join(REPO, PKG) + os.sep

STEP_CAP = 1_500_000


class Violation(Exception):
    def __init__(self, vclass, msg):
        super().__init__(msg)
        self.vclass = vclass
        self.msg = msg


class HarnessError(Exception):
    pass


class SimStop(BaseException):
    """no progress within the step budget"""


class SimDeadlock(BaseException):
    """every thread waits for a lock"""


class SimKernelError(Exception):
    """what a user-defined kernel raises"""


class SimTimeout(Exception):
    """what a signal handler (e.g. an alarm) raises at an arbitrary point"""


EXC = {'ValueError': ValueError, 'ZeroDivisionError': ZeroDivisionError, 'MemoryError': MemoryError,
       'SimKernelError': SimKernelError, 'RuntimeError': RuntimeError, 'TypeError': TypeError,
       'KeyboardInterrupt': KeyboardInterrupt, 'SystemExit': SystemExit, 'SimTimeout': SimTimeout,
       'AttributeError': AttributeError, 'KeyError': KeyError, 'IndexError': IndexError,
       'FloatingPointError': FloatingPointError, 'StopIteration': StopIteration}


def derive(*parts):
    h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


# ---------------------------------------------------------------- code under test

class _FreshLoader(SourceFileLoader):
    """always compiles from the current source, never from a cached .pyc"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _Finder(MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        spec = PathFinder.find_spec(name, [REPO] if name == PKG else path)
        if spec is not None and type(spec.loader) is SourceFileLoader:
            spec.loader = _FreshLoader(spec.loader.name, spec.loader.path)
        return spec


TOOL = 3
_MON = sys.monitoring
_CUR = {}          # thread id -> Task


def current():
    return _CUR.get(_thread.get_ident())


def _collect_code(obj, seen, codes, depth=0):
    if depth > 12 or id(obj) in seen:
        return
    if isinstance(obj, types.CodeType):
        seen.add(id(obj))
        if obj.co_filename.startswith(PKGDIR):
            codes.append(obj)
            for c in obj.co_consts:
                if isinstance(c, types.CodeType):
                    _collect_code(c, seen, codes, depth + 1)
        return
    if isinstance(obj, (types.FunctionType, types.MethodType)):
        seen.add(id(obj))
        f = obj.__func__ if isinstance(obj, types.MethodType) else obj
        _collect_code(f.__code__, seen, codes, depth + 1)
        for cell in (f.__closure__ or ()):
            try:
                _collect_code(cell.cell_contents, seen, codes, depth + 1)
            except ValueError:
                pass
        for d in (f.__defaults__ or ()):
            _collect_code(d, seen, codes, depth + 1)
        if hasattr(f, '__wrapped__'):
            _collect_code(f.__wrapped__, seen, codes, depth + 1)
        return
    if isinstance(obj, type):
        if not (getattr(obj, '__module__', '') or '').startswith(PKG):
            return
        seen.add(id(obj))
        for v in list(vars(obj).values()):
            _collect_code(v, seen, codes, depth + 1)
        return
    if isinstance(obj, property):
        for f in (obj.fget, obj.fset, obj.fdel):
            if f is not None:
                _collect_code(f, seen, codes, depth + 1)
        return
    if isinstance(obj, (staticmethod, classmethod)):
        _collect_code(obj.__func__, seen, codes, depth + 1)
        return
    for attr in ('func', '__wrapped__', 'fget'):
        try:
            inner = getattr(obj, attr, None)
        except Exception:
            inner = None
        if isinstance(inner, (types.FunctionType, types.MethodType)):
            _collect_code(inner, seen, codes, depth + 1)
    if isinstance(obj, dict) and depth < 4:
        for v in list(obj.values()):
            _collect_code(v, seen, codes, depth + 1)
    elif isinstance(obj, (tuple, list)) and depth < 4:
        for v in obj:
            _collect_code(v, seen, codes, depth + 1)


def _ev_start(code, off):
    t = _CUR.get(_thread.get_ident())
    if t is not None and t.active:
        t.point('start', code.co_name, off)


def _is_numeric_call(c, a0):
    m = getattr(c, '__module__', None)
    if not isinstance(m, str):
        m = type(c).__module__
    if m.startswith('numpy') or m.startswith('scipy'):
        return True
    return type(a0).__module__ == 'numpy' and not isinstance(c, types.FunctionType)


def _ev_call(code, off, c, a0):
    t = _CUR.get(_thread.get_ident())
    if t is None or not t.active:
        return
    if _is_numeric_call(c, a0):
        t.alloc(getattr(c, '__name__', '?'), (code.co_name, off))
    if isinstance(c, (types.FunctionType, types.MethodType)):
        # foreign Python callee: its entry is an interruptible point
        f = c.__func__ if isinstance(c, types.MethodType) else c
        if isinstance(f, types.FunctionType) and not f.__code__.co_filename.startswith(PKGDIR):
            t.point('call', getattr(c, '__name__', '?'), (code.co_name, off))


def _ev_cret(code, off, c, a0):
    t = _CUR.get(_thread.get_ident())
    if t is not None and t.active:
        t.point('cret', code.co_name, off)


def _ev_jump(code, off, dst):
    if dst <= off:
        t = _CUR.get(_thread.get_ident())
        if t is not None and t.active:
            t.point('jump', code.co_name, off)


def instrument():
    seen, codes = set(), []
    for name, mod in sorted(sys.modules.items()):
        if (name == PKG or name.startswith(PKG + '.')) and mod is not None:
            _collect_code(dict(vars(mod)), seen, codes)
    ev = _MON.events
    _MON.use_tool_id(TOOL, 'sim')
    _MON.register_callback(TOOL, ev.PY_START, _ev_start)
    _MON.register_callback(TOOL, ev.CALL, _ev_call)
    _MON.register_callback(TOOL, ev.C_RETURN, _ev_cret)
    _MON.register_callback(TOOL, ev.JUMP, _ev_jump)
    for c in codes:
        _MON.set_local_events(TOOL, c, ev.PY_START | ev.CALL | ev.JUMP)
    return len(codes)


# ---------------------------------------------------------------- simulator-aware locks

_real_lock = threading.Lock
_real_rlock = threading.RLock


class SimLock:
    def __init__(self, reentrant=False):
        self._owner = None
        self._count = 0
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._re and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            t = current()
            if t is not None and t.sim.sched is not None:
                t.sim.sched.block(t, self)
            elif timeout is not None and timeout >= 0:
                return False
            else:
                raise SimDeadlock('lock is held and nobody can release it')
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            t = current()
            if t is not None and t.sim.sched is not None:
                t.sim.sched.wake(self)

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, _):
        raise TypeError("cannot pickle '_thread.lock' object")


def _mk_lock(re):
    def factory(*a, **k):
        f = sys._getframe(1)
        if f.f_code.co_filename.startswith(PKGDIR):
            return SimLock(re)
        return (_real_rlock if re else _real_lock)(*a, **k)
    return factory


# ---------------------------------------------------------------- eigen solver seam

def _install_eig_seam():
    import numpy.linalg
    import scipy.linalg

    def wrap(mod, name):
        real = getattr(mod, name)

        def seam(*a, **k):
            t = current()
            if t is not None and t.active:
                f = t.eig_fault()
                if f is not None:
                    if f['exc'] in ('nan', 'inf', 'ninf'):
                        res = real(*a, **k)
                        import numpy as np
                        vals = np.array(res[0] if isinstance(res, tuple) else res, dtype=float)
                        bad = {'nan': np.nan, 'inf': np.inf, 'ninf': -np.inf}[f['exc']]
                        if vals.size:
                            vals[int(f.get('pos', 0)) % vals.size] = bad
                        return (vals,) + tuple(res[1:]) if isinstance(res, tuple) else vals
                    if f['exc'] == 'LinAlgError':
                        raise numpy.linalg.LinAlgError('Eigenvalues did not converge (injected)')
                    e = EXC[f['exc']]('injected eigen-solver failure')
                    t.last_exc = e
                    raise e
                res = real(*a, **k)
                t.eig_seen(res[0] if isinstance(res, tuple) else res)
                return res
            return real(*a, **k)
        seam.__name__ = name
        seam.__wrapped_real__ = real
        setattr(mod, name, seam)

    for mod in (scipy.linalg, numpy.linalg):
        for name in ('eigh', 'eigvalsh', 'eig', 'eigvals'):
            wrap(mod, name)


_LOADED = {}


def load():
    """import the code under test with the seams in place"""
    if _LOADED:
        return _LOADED
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder())
    import numpy as np
    np.seterr(all='ignore')
    import scipy.sparse, scipy.stats, sklearn.svm, sklearn.model_selection  # noqa
    import warnings
    warnings.simplefilter('ignore')
    _install_eig_seam()
    threading.Lock = _mk_lock(False)
    threading.RLock = _mk_lock(True)
    import kernelmethods
    import kernelmethods.algorithms, kernelmethods.base, kernelmethods.categorical  # noqa
    import kernelmethods.numeric_kernels, kernelmethods.operations, kernelmethods.ranking  # noqa
    import kernelmethods.sampling, kernelmethods.utils  # noqa
    assert kernelmethods.__file__.startswith(PKGDIR), kernelmethods.__file__
    import pkgutil
    for m in pkgutil.iter_modules(kernelmethods.__path__, PKG + '.'):
        if m.name != PKG + '.tests':
            __import__(m.name)
    n = instrument()
    if n < 50:
        raise HarnessError('only %d code objects found' % n)
    _LOADED['codes'] = n
    return _LOADED


# ---------------------------------------------------------------- tasks and schedules

class Task:
    def __init__(self, sim, tid):
        self.sim = sim
        self.tid = tid
        self.active = False
        self.op = None
        self.npoint = self.nkern = self.nalloc = self.neig = self.nctor = 0
        self.pf = self.kf = self.af = self.ef = self.cf = ()
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.blocked_on = None
        self.fired = []
        self.last_exc = None

    def begin(self, uid):
        self.op = uid
        self.npoint = self.nkern = self.nalloc = self.neig = self.nctor = 0
        fs = self.sim.faults_by_op.get(uid, ())
        self.pf = [f for f in fs if f['kind'] in ('intr', 'rng')]
        self.kf = [f for f in fs if f['kind'] in ('kerr', 'kval')]
        self.af = [f for f in fs if f['kind'] == 'alloc']
        self.ef = [f for f in fs if f['kind'] == 'eig']
        self.cf = [f for f in fs if f['kind'] == 'ctor']
        self.fired = []
        self.eig_bad = 0
        self.sites = {} if self.sim.want_sites else None
        self.active = True

    def end(self):
        self.active = False
        self.sim.counts[self.op] = {'point': self.npoint, 'kern': self.nkern, 'alloc': self.nalloc,
                                    'eig': self.neig, 'ctor': self.nctor}
        if self.sites:
            # distinct places of each kind, with the first, a middle and the last visit
            by = {}
            for (kind, *_), v in self.sites.items():
                by.setdefault(kind, []).append([v[0], v[len(v) // 2], v[-1]])
            self.sim.counts[self.op]['sites'] = by

    def fire(self, f, where):
        exc = 'MemoryError' if f['kind'] == 'alloc' else f.get('exc', '')
        self.fired.append(f)
        self.sim.fired.append((self.op, f['kind'], exc, where))
        self.sim.trace.append(('F', self.tid, f['kind'], exc, where))

    def point(self, kind, where, off=None):
        sim = self.sim
        sim.steps += 1
        if sim.steps > sim.cap:
            sim.stopped = True
            raise SimStop('more than %d steps' % sim.cap)
        self.npoint += 1
        sim.trace.append((self.tid, kind, where))
        if self.sites is not None:
            v = self.sites.setdefault(('point', kind, where, off), [])
            if len(v) < 400:
                v.append(self.npoint)
        for f in self.pf:
            if f['at'] == self.npoint:
                if f['kind'] == 'rng':
                    self.fire(f, where)
                    sim.perturb_rng(f)
                else:
                    self.fire(f, where + '/' + kind)
                    e = EXC[f['exc']]('injected')
                    self.last_exc = e
                    raise e
        if sim.sched is not None:
            sim.sched.at_point(self, (kind, where, off))

    def alloc(self, where, off=None):
        self.nalloc += 1
        if self.sites is not None:
            v = self.sites.setdefault(('alloc', where, off), [])
            if len(v) < 400:
                v.append(self.nalloc)
        for f in self.af:
            if f['at'] == self.nalloc:
                self.fire(f, where)
                e = MemoryError('injected allocation failure in ' + where)
                self.last_exc = e
                raise e

    def eig_fault(self):
        self.neig += 1
        for f in self.ef:
            if f['at'] == self.neig or f.get('every'):
                self.fire(f, 'eig')
                return f

    def eig_seen(self, vals):
        import numpy as np
        v = np.real(np.asarray(vals))
        if (np.isnan(v) | (v == -np.inf)).any():
            self.eig_bad += 1

    def kernel(self, name):
        """called by harness kernels; returns an override value or None"""
        self.nkern += 1
        self.sim.kernel_evals += 1
        self.point('kernel', name)
        for f in self.kf:
            if f['at'] == self.nkern or (f.get('sticky') and self.nkern > f['at']):
                self.fire(f, name)
                if f['kind'] == 'kval':
                    return f
                e = EXC[f['exc']]('injected kernel failure')
                self.last_exc = e
                raise e
        return None

    def ctor(self, name):
        """called by harness kernel constructors"""
        self.nctor += 1
        self.point('ctor', name)
        for f in self.cf:
            if f['at'] == self.nctor:
                self.fire(f, name)
                e = EXC[f['exc']]('injected constructor failure')
                self.last_exc = e
                raise e


class Sched:
    """releases exactly one thread at a time"""

    def __init__(self, sim, spec):
        self.sim = sim
        self.spec = spec
        self.mode = spec['mode']
        self.rng = random.Random(spec.get('seed', 0))
        self.map = {s: t for s, t in spec.get('switches', ())}
        self.switches = []
        self.tick = 0
        self.main = _real_lock()
        self.main.acquire()
        self.tasks = []
        self.deadlock = False
        self.nswitch = 0

    def _runnable(self, but=None):
        return [t for t in self.tasks if not t.done and t.blocked_on is None and t is not but]

    def setup(self):
        if self.mode == 'park':
            self.visits, self.parked = {}, {}
        if self.mode == 'pct':
            order = list(range(len(self.tasks)))
            self.rng.shuffle(order)
            self.prio = {t.tid: order[i] + 100 for i, t in enumerate(self.tasks)}
            k = self.spec.get('est', 300)
            self.changes = {self.rng.randrange(1, max(2, k)): i for i in range(self.spec.get('d', 2))}

    def _choose(self, cur, cands, where=None):
        """next task; cur may be None (finished or blocked)"""
        self.tick += 1
        if self.mode == 'park':
            # a thread is held up at a place, more likely the less often it came by, while the others go on
            if cur is not None:
                n = self.visits[where] = self.visits.get(where, 0) + 1
                if cur.tid not in self.parked and self.rng.random() < self.spec['p'] / n:
                    self.parked[cur.tid] = self.tick + self.rng.choice([5, 40, 300, 10 ** 9])
                elif cur.tid not in self.parked:
                    return cur
            for tid in [x for x, until in self.parked.items() if until <= self.tick]:
                del self.parked[tid]
            free = [t for t in cands if t.tid not in self.parked]
            if not free:
                self.parked.clear()
                free = cands
            return self.rng.choice(free)
        if self.mode == 'explicit':
            want = self.map.get(self.tick)
            if want is not None:
                for t in cands:
                    if t.tid == want:
                        return t
            return cur if cur is not None else cands[0]
        if self.mode == 'pct':
            if cur is not None and self.tick in self.changes:
                self.prio[cur.tid] = self.changes[self.tick]
            return max(cands, key=lambda t: self.prio[t.tid])
        if cur is None:
            return self.rng.choice(cands)
        if self.rng.random() < self.spec['p']:
            return self.rng.choice(cands)
        return cur

    def _switch_to(self, nxt):
        nxt.gate.release()

    def at_point(self, t, where=None):
        cands = self._runnable()
        if len(cands) < 2 and (not cands or cands[0] is t):
            self.tick += 1
            return
        nxt = self._choose(t, cands, where)
        if nxt is not t:
            self.switches.append([self.tick, nxt.tid])
            self.nswitch += 1
            self.sim.trace.append(('S', nxt.tid))
            self._switch_to(nxt)
            t.gate.acquire()
            if self.deadlock:
                raise SimDeadlock('deadlock')

    def block(self, t, lock):
        t.blocked_on = lock
        cands = self._runnable()
        if not cands:
            t.blocked_on = None
            self.deadlock = True
            self.sim.deadlocked = True
            raise SimDeadlock('every thread waits for a lock')
        nxt = self._choose(None, cands)
        self.switches.append([self.tick, nxt.tid])
        self._switch_to(nxt)
        t.gate.acquire()
        t.blocked_on = None
        if self.deadlock:
            raise SimDeadlock('deadlock')

    def wake(self, lock):
        for t in self.tasks:
            if t.blocked_on is lock:
                t.blocked_on = None

    def finish(self, t):
        t.done = True
        cands = self._runnable()
        if not cands:
            blocked = [x for x in self.tasks if not x.done]
            if blocked:
                self.deadlock = True
                self.sim.deadlocked = True
                blocked[0].blocked_on = None
                self._switch_to(blocked[0])
                return
            self.main.release()
            return
        nxt = self._choose(None, cands)
        self.switches.append([self.tick, nxt.tid])
        self._switch_to(nxt)

    def run(self, bodies):
        errors = []

        def wrap(task, body):
            task.gate.acquire()
            _CUR[_thread.get_ident()] = task
            try:
                body(task)
            except Violation as v:
                errors.append(v)
            except (SimStop, SimDeadlock) as e:
                errors.append(Violation('no-progress', repr(e)))
            except BaseException as e:  # harness trouble
                if _from_library(e) or isinstance(e, (TypeError, ValueError, AttributeError, LookupError)):
                    errors.append(Violation('unexpected-failure', repr(e)))
                else:
                    errors.append(HarnessError(''.join(traceback.format_exception(e))))
            finally:
                task.active = False
                _CUR.pop(_thread.get_ident(), None)
                self.finish(task)

        threads = []
        for tid, body in bodies:
            task = Task(self.sim, tid)
            self.tasks.append(task)
            th = threading.Thread(target=wrap, args=(task, body), daemon=True)
            threads.append(th)
        self.setup()
        for th in threads:
            th.start()
        first = self._choose(None, self._runnable())
        self.switches.append([self.tick, first.tid])
        self.sim.sched = self
        self._switch_to(first)
        self.main.acquire()
        self.sim.sched = None
        for th in threads:
            th.join()
        for e in errors:
            if isinstance(e, HarnessError):
                raise e
        if errors:
            raise errors[0]


class Sim:
    def __init__(self, plan, with_faults=True):
        self.plan = plan
        self.cap = STEP_CAP
        self.steps = 0
        self.kernel_evals = 0
        self.trace = []
        self.evals = []
        self.counts = {}
        self.fired = []
        self.stopped = False
        self.deadlocked = False
        self.sched = None
        self.all_switches = []
        self.nswitch = 0
        self.nops = 0
        self.probes = {}
        self.states = set()
        self.nontrivial = False
        self.faults_by_op = {}
        self.want_sites = not with_faults and any(f.get('mode') == 'sites' for f in plan.get('faults', ()))
        if with_faults:
            for f in plan.get('faults', ()):
                if f.get('at') is not None:
                    self.faults_by_op.setdefault(f['op'], []).append(f)
        self.main = Task(self, 0)
        _CUR[_thread.get_ident()] = self.main

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest())

    def log(self, *what):
        self.trace.append(('L',) + what)

    def perturb_rng(self, f):
        import numpy as np
        if f['exc'] == 'seed':
            np.random.seed(f['val'])
            random.seed(f['val'])
        else:
            np.random.random(f['val'] % 7 + 1)
            random.random()

    def op(self, uid, fn, task=None):
        """run one library operation; ('ok', value) or ('raise', exception)"""
        t = task or self.main
        self.nops += 1
        self.trace.append(('O', t.tid, uid))
        t.last_exc = None
        t.begin(uid)
        try:
            out = ('ok', fn())
        except (SimStop, SimDeadlock) as e:
            t.active = False
            raise Violation('no-progress', 'operation %s: %r' % (uid, e))
        except Violation:
            raise
        except BaseException as e:
            out = ('raise', e)
        finally:
            t.end()
        if self.stopped:
            raise Violation('no-progress', 'operation %s exceeded the step budget' % uid)
        self.trace.append(('R', t.tid, uid, out[0], type(out[1]).__name__))
        return out

    def threads(self, bodies, spec):
        s = Sched(self, spec)
        s.run(bodies)
        self.all_switches.append(s.switches)
        self.nswitch += s.nswitch
        if self.deadlocked:
            raise Violation('no-progress', 'deadlock')

    def stats(self):
        h = hashlib.blake2b(repr(self.trace).encode(), digest_size=12).hexdigest()
        kinds = {}
        for _, k, e, w in self.fired:
            key = k + ':' + e if e else k
            kinds[key] = kinds.get(key, 0) + 1
        sites = sorted({k + '@' + w for _, k, e, w in self.fired})
        inter = hashlib.blake2b(repr([t for t in self.trace if t[0] in ('S', 'F', 'O')] +
                                     [self.all_switches]).encode(), digest_size=8).hexdigest()
        return {'steps': self.steps, 'kernel_evals': self.kernel_evals, 'ops': self.nops,
                'faults': kinds, 'sites': sites, 'switches': self.nswitch, 'hash': h, 'inter': inter,
                'probes': self.probes, 'states': sorted(self.states), 'nontrivial': bool(self.nontrivial)}


def deep_norm(plan):
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------- forked execution

def _child(fd, fn):
    try:
        res = fn()
    except BaseException as e:
        res = {'status': 'harness_error', 'error': ''.join(traceback.format_exception(e))}
    data = json.dumps(res).encode()
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]
    os._exit(0)


def in_fork(fn, timeout=90):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _child(w, fn)
        finally:
            os._exit(3)
    os.close(w)
    buf = b''
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return {'status': 'timeout'}
            ok, _, _ = select.select([r], [], [], left)
            if ok:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                buf += chunk
    finally:
        os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        return {'status': 'harness_error', 'error': 'child died'}
    return json.loads(buf)


def _from_library(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PKGDIR):
            return True
        tb = tb.tb_next
    return False


def run_plan_here(plan, with_faults=True):
    from registry import SCENARIOS
    scn = SCENARIOS[plan['prop']]
    import random as _r
    import numpy as np
    np.random.seed(plan['cfg'].get('np_seed', 7))
    _r.seed(plan['cfg'].get('np_seed', 7))
    sim = Sim(plan, with_faults)
    res = {'status': 'ok'}
    try:
        scn.run(sim, plan)
    except Violation as v:
        res = {'status': 'violation', 'vclass': v.vclass, 'msg': v.msg}
    except HarnessError:
        raise
    except Exception as e:
        # a library call made outside sim.op() failed, or an answer has a form that can not even be compared
        if not _from_library(e) and not isinstance(e, (TypeError, ValueError, AttributeError, LookupError)):
            raise
        res = {'status': 'violation', 'vclass': 'unexpected-failure',
               'msg': 'library call failed or gave something unusable: ' + traceback.format_exc()[-600:]}
    res['stats'] = sim.stats()
    res['counts'] = sim.counts
    res['switches'] = sim.all_switches
    res['fired'] = [list(f) for f in sim.fired]
    return res


COUNT_KEY = {'intr': 'point', 'rng': 'point', 'kerr': 'kern', 'kval': 'kern', 'alloc': 'alloc',
             'eig': 'eig', 'ctor': 'ctor'}


def resolve_faults(plan, counts):
    """turn fractional fault positions into exact ones, using the fault-free pass"""
    order = [o['u'] for o in plan['ops']]
    for f in plan['faults']:
        if f.get('at') is not None:
            continue
        key = COUNT_KEY[f['kind']]
        elig = [u for u in order if counts.get(u, {}).get(key, 0) > 0
                and (f.get('only') is None or u in f['only'])]
        if not elig:
            f['at'] = None
            continue
        if f.get('mode') == 'sites':
            u = elig[int(f['f1'] * len(elig))]
            f['op'] = u
            # sorted: where the visits are, not the order in which the places were met
            places = sorted(counts[u].get('sites', {}).get(key, ()))
            x = f['f2'] * len(places)
            f['at'] = places[int(x)][int(3 * (x - int(x)))] if places else 1 + int(f['f2'] * counts[u][key])
        elif f.get('mode') == 'points':
            tot = sum(counts[u][key] for u in elig)
            pos = int(f['f1'] * tot)
            for u in elig:
                if pos < counts[u][key]:
                    break
                pos -= counts[u][key]
            f['op'], f['at'] = u, pos + 1
        else:
            u = elig[int(f['f1'] * len(elig))]
            f['op'] = u
            f['at'] = 1 + int(f['f2'] * counts[u][key])
    plan['faults'] = [f for f in plan['faults'] if f.get('at') is not None]
    return plan


def run_plan(plan, timeout=90):
    """execute in forks: fault-free first when fault positions are still open"""
    plan = deep_norm(plan)
    passes = []
    if any(f.get('at') is None for f in plan.get('faults', ())):
        r0 = in_fork(lambda: run_plan_here(plan, with_faults=False), timeout)
        r0['plan'] = dict(plan, faults=[])
        passes.append(r0)
        if r0['status'] != 'ok':
            return passes
        resolve_faults(plan, r0['counts'])
    r = in_fork(lambda: run_plan_here(plan, with_faults=True), timeout)
    r['plan'] = plan
    passes.append(r)
    return passes
