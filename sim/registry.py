import core
core.load()
import s_km
import s_set
import s_est
import s_misc
import s_copy
import s_par
import s_sim
import s_iso

SCENARIOS = {'C01': s_km.C01, 'C02': s_km.C02, 'C03': s_km.C03, 'C04': s_km.C04, 'C05': s_km.C05,
             'C06': s_set.C06, 'C07': s_km.C07, 'C08': s_set.C08, 'C09': s_set.C09, 'C10': s_est.C10, 'C11': s_est.C11, 'C12': s_est.C12, 'C13': s_est.C13, 'C14': s_misc.C14, 'C15': s_copy.C15, 'C16': s_misc.C16, 'C17': s_set.C17, 'C18': s_km.C18,
             'C21': s_sim.C21, 'C23': s_par.C23, 'C24': s_par.C24, 'C25': s_sim.C25, 'C26': s_iso.C26}

QUICK = {'C06': 5000, 'C10': 1000, 'C11': 1500, 'C12': 1200, 'C13': 1000, 'C14': 3000, 'C15': 4000, 'C16': 3000, 'C25': 3000, 'C26': 1500, 'C23': 1000, 'C24': 1500}
RUNS = {p: {'quick': QUICK.get(p, 8000), 'thorough': 200000} for p in SCENARIOS}

COMMON = ['the real package code from /repo (compiled from source in every check) ran: kernelmethods, numpy, scipy '
          'and scikit-learn are real; stubs: user kernel functions (harness kernels or wrappers around the real '
          'ones), the eigen-solver entry points (real unless a fault is due), locks created by the package',
          'points = function entry, backward jump, foreign Python call, return of a C call inside the package, and '
          'kernel evaluations: where CPython 3.12 can switch threads or deliver a signal',
          'sampled, not exhaustive']
META = {}
for _p, _s in SCENARIOS.items():
    META[_p] = {'level': getattr(_s, 'level', 'exploration'), 'rule': _s.rule,
                'assumptions': COMMON + list(getattr(_s, 'assumptions', ()))}
