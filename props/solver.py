"""run_simulation of the gas-phase ODE solver modules (Numba and f2py variants), executed symbolically.

The integrator, the generated modules and plotting are replaced; time, temperature, state, durations are symbolic and
the generated functions are uninterpreted."""
import json
import z3
import numpy as np
from vt import core, loader, npshim, realcode, report, solvermodel as sm
from vt.core import SymReal
from vt.loader import VFS

R = z3.RealSort()
VARIANTS = {'numba': 'ODE_solver.py', 'f2py': 'f2py/ODE_solver.py'}
SPECIES = ['APINENE', 'O3', 'C2O', 'PINONIC', 'C107O2', 'CH4', 'BUT1ENE', 'C10', 'CO', 'HCHO', 'TOLUENE', 'C3H8']
ORDER = [2, 0, 11, 1, 10, 4, 9, 3, 7, 8, 6, 5]
_ns = {}


def fun(name, args):
    ts = [core.term(a) for a in args]
    return SymReal(z3.Function(name, *([R] * (len(ts) + 1)))(*ts))


def objarray(x):
    x = list(x)
    if x and isinstance(x[0], (list, tuple)):
        a = np.empty((len(x), len(x[0])), dtype=object)
        for i, r in enumerate(x):
            for j, v in enumerate(r):
                a[i, j] = v
        return a
    a = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        a[i] = v
    return a


def between(a, s, b):
    c = core.ctx()
    c.assume(z3.And(core.term(a) <= core.term(s), core.term(s) <= core.term(b)))


def zeros(sh):
    a = np.empty(sh, dtype=object)
    a.fill(0.0)
    return a


class Csv:
    def __init__(self):
        self.rows, self.frames = {}, {}

    def modules(self):
        me = self

        class W:
            def __init__(self, f, *a, **k):
                self.name = getattr(f, 'name', '?')
                me.rows[self.name] = []

            def writerow(self, r):
                me.rows[self.name].append(list(r))

            def writerows(self, rs):
                for r in rs:
                    self.writerow(r)

        class DataFrame:
            def __init__(self, data=None, *a, **k):
                self.data = data

            def to_csv(self, name, *a, **k):
                me.frames[str(name)] = self.data
        return {'csv': sm.stub('csv', writer=W), 'pandas': sm.stub('pandas', DataFrame=DataFrame)}


def modules(env, v, csvm):
    m = {'numpy': npshim.NP(v), 'matplotlib': sm.AnyModule('matplotlib'), 'pylab': sm.AnyModule('pylab'), 'pdb': sm.AnyModule('pdb')}
    m.update(env.assimulo())
    m.update(env.numba())
    m.update(env.f2py(zeros))
    m.update(csvm.modules())
    return m


def config(c, maxb, focus, n=4):
    if n == 12:
        perm, ro2, init = ORDER, [1, 4, 10, 11], ['C2O', 'O3', 'HCHO']
    elif focus == 'batches':
        perm, ro2, init = [2, 0, 3, 1], [1], ['O3']
    else:
        perm = c.choose([[0, 1, 2, 3], [2, 0, 3, 1], [3, 2, 1, 0]]) if focus == 'initial' else [2, 0, 3, 1]
        ro2 = c.choose([[0, 3], [], [2]]) if focus == 'rhs' else [1]
        init = c.choose([['O3'], ['PINONIC', 'APINENE'], [], ['C2O', 'O3', 'APINENE', 'PINONIC']]) if focus == 'initial' else ['O3']
    cfg = dict(n=n, e=11 if n == 12 else 3, hole=3, ro2=ro2, s2a={s: perm[i] for i, s in enumerate(SPECIES[:n])}, max_batches=maxb,
               start_time=core.real('start_time'), temp=core.real('temp'), H2O=core.real('H2O'), RH=0.5,
               simulation_time=core.real('simulation_time'), batch_step=core.real('batch_step'),
               init={s: core.real('init_' + s) for s in init})
    b, T = cfg['batch_step'].t, cfg['simulation_time'].t
    c.assume(z3.And(b > 0, T > 0))
    return cfg


def call_args(variant, cfg):
    inp = dict(species_dict={i: s for i, s in enumerate(cfg['s2a'])}, species_dict2array=dict(cfg['s2a']),
               species_initial_conc=dict(cfg['init']), equations=cfg['e'])
    first = ('m', True, cfg['start_time']) if variant == 'numba' else ('m', cfg['start_time'], True)
    return first + (cfg['temp'], cfg['RH'], np.array(cfg['ro2'], dtype=int), cfg['H2O'], inp, cfg['simulation_time'], cfg['batch_step'])


def keyword_args(ns_fn, variant, cfg):
    """the documented parameter names, so that the order of parameters does not matter"""
    names = ('filename', 'save_output', 'start_time') if variant == 'numba' else ('filename', 'start_time', 'save_output')
    names += ('temp', 'RH', 'RO2_indices', 'H2O', 'input_dict', 'simulation_time', 'batch_step')
    return dict(zip(names, call_args(variant, cfg)))


def settle(c, claims, I):
    for cl in claims:
        lab = cl[0]
        if len(cl) == 2:
            c.prove(bool(cl[1]), lab, I)
        elif len(cl) == 3:
            c.prove(core.term(cl[1]) == core.term(cl[2]), lab, I)
        else:
            a, b = core.term(cl[2]), core.term(cl[3])
            c.prove(a <= b if cl[1] == '<=' else a < b, lab, I)


def harness(variant, focus, maxb, n=4):
    def fn(c):
        cfg = config(c, maxb, focus, n)
        c.assume(cfg['simulation_time'].t <= maxb * cfg['batch_step'].t)
        env = sm.Env(cfg, fun, lambda s: core.real(s), objarray, between, eval_jac=True)
        v, cs = VFS(), Csv()
        I = (variant, cfg)
        try:
            ns = loader.load(VARIANTS[variant], vfs=v, modules=modules(env, v, cs))
            f = ns['run_simulation']
            core.STATS.functions.add(VARIANTS[variant] + ' run_simulation, dydt_func, jacobian')
            out = f(**keyword_args(f, variant, cfg))
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the simulation runs (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
            return
        if c.poison:
            raise core.Inconclusive(c.poison)
        if not env.batches:
            c.prove(False, 'at least one batch is run', I)
            return
        if focus == 'rhs':
            settle(c, env.claims_rhs(), I)
        elif focus == 'initial':
            settle(c, env.claims_initial(), I)
        else:
            saved = [a for k, a in v.arrays.items()]
            c.prove(len(saved) == 1, 'one output array is saved', I)
            if len(saved) != 1:
                return
            t_array, y_matrix = None, saved[0]
            if isinstance(out, tuple) and len(out) == 2:
                t_array, y2 = out
                c.prove(np.shape(y2) == np.shape(y_matrix), 'saved and returned output have one shape', I)
                if np.shape(y2) == np.shape(y_matrix):
                    settle(c, [('saved output equals returned output', a, b) for a, b in zip(np.ravel(y2), np.ravel(y_matrix))], I)
            settle(c, env.claims_batches(t_array, y_matrix), I)
            fr = [d for k, d in cs.frames.items() if 'output_matrix' in k]
            c.prove(len(fr) == 1 and np.shape(fr[0]) == np.shape(y_matrix), 'one csv table with the output', I)
            if len(fr) == 1:
                settle(c, [('csv table equals the saved output', a, b) for a, b in zip(np.ravel(fr[0]), np.ravel(y_matrix))], I)
            nm = [r for k, r in cs.rows.items() if 'names' in k]
            c.prove(len(nm) == 1 and sorted((str(a), int(b)) for a, b in nm[0]) == sorted(cfg['s2a'].items()),
                    'the names file maps every species to its column', I)
    return fn


def val(model, x, default):
    if not isinstance(x, SymReal):
        return x
    f = core.model_frac(model, x.t)
    return default if f is None else float(f)


def to_input(cex, c):
    variant, cfg = cex.info
    m = cex.model
    d = {k: cfg[k] for k in ('n', 'e', 'hole', 'ro2', 's2a', 'max_batches', 'RH')}
    for k, dv in (('start_time', 3600.0), ('temp', 290.0), ('H2O', 1.0), ('simulation_time', 250.0), ('batch_step', 100.0)):
        d[k] = val(m, cfg[k], dv)
    d['init'] = {s: val(m, x, 1.0) for s, x in cfg['init'].items()}
    return {'variant': variant, 'cfg': d, 'claim': cex.label}


def replay(inp):
    pts = [inp['cfg']]
    for T, b, st in ((250.0, 100.0, 39600.0), (300.0, 100.0, 7200.0), (90.0, 100.0, 1000.0), (1250.0, 100.0, 82000.0), (170000.0, 5000.0, 0.0)):
        p = dict(inp['cfg'])
        p.update(simulation_time=T, batch_step=b, start_time=st, temp=291.0, H2O=3.7, max_batches=60)
        p['init'] = {s: 1.5 + i for i, s in enumerate(p['init'])}
        pts.append(p)
        pts.append(dict(p, negative=True))
    for i, p in enumerate(pts):
        if i == 0 and not (0 < p['batch_step'] < 1e6 and p['simulation_time'] / p['batch_step'] < 60 and abs(p['start_time']) < 1e7 and abs(p['temp']) < 1e5 and abs(p['H2O']) < 1e5):
            continue
        got = realcode.call('solver_gas', variant=inp['variant'], cfg=p, focus=inp['focus'])
        if 'exception' in got:
            return 'run_simulation fails: %s' % got['exception'][-700:]
        if got['bad']:
            return '%s (simulation_time=%s batch_step=%s start_time=%s)' % ('; '.join(got['bad'][:3]), p['simulation_time'], p['batch_step'], p['start_time'])
    return None


def cases(focus, tier):
    out = []
    maxb = {'rhs': 6, 'initial': 1, 'batches': 15}[focus] if tier == 'quick' else {'rhs': 12, 'initial': 1, 'batches': 40}[focus]
    for v in VARIANTS:
        for n, e, b in ((4, 3, maxb), (12, 11, 2 if tier == 'quick' else 4)):
            out.append(report.Case('%s %s, %d species' % (v, focus, n), harness(v, focus, b, n), lambda cex, c: dict(to_input(cex, c), focus=focus), replay,
                                   '%d species, %d reactions, up to %d batches of any length; all times, states, temperatures' % (n, e, b), max_paths=5000))
    return out


ASSUME = ['the ODE integrator starts at (t0, y0), calls the right-hand side at any times and states, and returns rows of which the last is the state at the end',
          'the generated functions are uninterpreted: any function of exactly the documented arguments; arrays they are given are filled in place as the generated code does',
          'exact real arithmetic']
OUTSIDE = ['accuracy of the integrator (assimulo)', 'more batches, species or reactions than the bound', 'plotting', 'ODE_solver_opsplit.py (an experimental variant no driver uses)']
