"""run_simulation of the gas-and-particle solver modules, executed symbolically."""
import numpy as np
import z3
from fractions import Fraction
from vt import core, eqprove, loader, npshim, realcode, report, solvermodel as sm
from vt.core import SymReal
from vt.loader import VFS
from . import gen
from . import partition as part
from .solver import R, fun, objarray, between, zeros, Csv, val

FILES = {'aerosol': 'Aerosol/f2py/ODE_solver.py', 'fixed yield': 'Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'}
SPECIES = ['APINENE', 'O3', 'C2O', 'PINONIC', 'C107O2', 'CH4', 'BUT1ENE', 'C10', 'CO', 'HCHO', 'TOLUENE']
FM = dict(exp=lambda x: x.exp(), log=lambda x: x.log(), log10=lambda x: x.log10(), pow=lambda a, b: a ** b)


class Auto(dict):
    """a value for every name that is asked for, remembered"""

    def __init__(self, k, base=()):
        dict.__init__(self, base)
        self.k = k

    def __contains__(self, n):
        return True

    def __getitem__(self, n):
        if not dict.__contains__(self, n):
            h = 0
            for ch in '%s/%d' % (n, self.k):
                h = (h * 131 + ord(ch)) % 1000003
            dict.__setitem__(self, n, float('%.4g' % (0.5 + (h % 9973) / 6000.0)))
        return dict.__getitem__(self, n)


def signature():
    """argument and result order of the partitioning subroutine emitted by the current source"""
    cfg = dict(variant='ignore', ns=3, nc=2, nb=2, include=[1, 2])
    sub = part.build(cfg)['dydt_partition']
    canon = {n.lower(): n for n in part.ARGS + part.OUTS}
    ins = [canon.get(a, a) for a in sub.args if sub.decl[a]['intent'] in ('in', 'inout')]
    outs = [canon.get(a, a) for a in sub.args if sub.decl[a]['intent'] == 'out']
    outs = ['total_SOA_mass' if a == 'total_soa_mass' else a for a in outs]
    if sorted(ins) != sorted(part.ARGS) or sorted(outs) != sorted(['total_SOA_mass', 'aw_array', 'size_array', 'dy_dt']):
        raise core.Inconclusive('unknown arguments of the partitioning subroutine: %s -> %s' % (ins, outs))
    return ins, outs


LAYOUTS = [dict(ns=4, nc=2, nb=2, include=[1, 3], hole=2), dict(ns=4, nc=3, nb=1, include=[0, 2, 3], hole=None), dict(ns=4, nc=4, nb=3, include=[0, 1, 2, 3], hole=0)]
MANY = [dict(ns=12, nc=4, nb=2, include=[2, 9, 10, 11], hole=9), dict(ns=12, nc=12, nb=1, include=list(range(12)), hole=None)]
ORDER = [2, 0, 1, 10, 4, 9, 3, 7, 8, 6, 5]


def config(c, variant, focus, maxb, layouts):
    L = dict(c.choose(layouts))
    order, outs = signature()
    ng = L['ns'] - 1
    perm = ORDER if ng == 11 else c.choose([[0, 1, 2], [2, 0, 1]]) if focus == 'initial' else [2, 0, 1]
    s2a = {s: perm[i] for i, s in enumerate(SPECIES[:ng])}
    s2a['H2O'] = ng
    chem = variant == 'aerosol'
    ro2 = [1, 9, 10] if ng == 11 else c.choose([[0, 2], [], [1]]) if focus == 'rhs' and chem else [1]
    init = ['HCHO', 'O3', 'H2O', 'PINONIC'] if ng == 11 and chem else c.choose([['O3', 'H2O'], ['H2O', 'C2O', 'APINENE'], ['APINENE', 'O3', 'C2O', 'H2O']]) if focus == 'initial' and chem else ['O3', 'H2O']
    cfg = dict(L, n=ng, e=11 if ng == 11 else 3, ro2=ro2, s2a=s2a, max_batches=maxb, chem=chem, order=order, outs=outs, start_time=core.real('start_time'), temp=core.real('temp'),
               H2O=core.real('H2O'), RH=0.5, simulation_time=core.real('simulation_time'), batch_step=core.real('batch_step'),
               init={s: core.real('init_' + s) for s in init})
    cfg['inp'] = sm.aero_inputs(cfg, core.real, objarray)
    c.assume(z3.And(cfg['batch_step'].t > 0, cfg['simulation_time'].t > 0, cfg['temp'].t > 0, cfg['inp']['NA'].t > 0))
    return cfg


def modules(env, v, csvm):
    m = {'numpy': npshim.NP(v), 'matplotlib': sm.AnyModule('matplotlib'), 'Plotting': sm.AnyModule('Plotting'), 'pdb': sm.AnyModule('pdb')}
    m.update(env.assimulo())
    m.update(env.numba())
    m.update(env.f2py(zeros))
    m.update(env.partition())
    m.update(env.pickle())
    m.update(csvm.modules())
    return m


def settle(c, claims, I, pr=None):
    for cl in claims:
        lab = cl[0]
        if len(cl) == 2:
            ok = c.prove(bool(cl[1]), lab, I)
        elif len(cl) == 3:
            a, b = core.term(cl[1]), core.term(cl[2])
            ok = pr.prove(a, b, lab, I) if pr is not None else c.prove(a == b, lab, I)
        else:
            a, b = core.term(cl[2]), core.term(cl[3])
            ok = c.prove(a <= b if cl[1] == '<=' else a < b, lab, I)
        if ok is False:
            return


def harness(variant, focus, maxb, layouts):
    def fn(c):
        cfg = config(c, variant, focus, maxb, layouts)
        c.assume(cfg['simulation_time'].t <= maxb * cfg['batch_step'].t)
        env = sm.AeroEnv(cfg, fun, lambda s: core.real(s), objarray, between, eval_jac=False, fm=FM)
        v, cs = VFS(), Csv()
        I = (variant, cfg)
        try:
            ns = loader.load(FILES[variant], vfs=v, modules=modules(env, v, cs))
            core.STATS.functions.add(FILES[variant] + ' run_simulation, dydt_func')
            ns['run_simulation'](**sm.aero_kwargs(cfg, np.array(cfg['ro2'], dtype=int)))
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the simulation runs (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
            return
        if c.poison:
            raise core.Inconclusive(c.poison)
        if not env.batches:
            c.prove(False, 'at least one batch is run', I)
            return
        if focus == 'rhs':
            settle(c, env.claims_rhs(), I)
        elif focus == 'args':
            fs = [cfg['temp'].t > 0, cfg['inp']['NA'].t > 0]
            pr = eqprove.Prover(c, fs, [Auto(0, {'temp': 287.25}), Auto(1, {'temp': 301.5})])
            pr.add_path()
            settle(c, env.claims_args(), I, pr)
        elif focus == 'initial':
            settle(c, env.claims_initial(), I)
        else:
            settle(c, env.claims_saved(env.pickles), I)
            if variant == 'fixed yield':
                for part_ in ('_y_output', '_t_output', '_SOA_output', '_size_output'):
                    f = [d for k, d in cs.frames.items() if part_ in k]
                    p = [d for k, d in env.pickles.items() if part_ in k]
                    c.prove(len(f) == 1 and len(p) == 1 and np.shape(f[0]) == np.shape(p[0]), 'one csv table %s' % part_, I)
                    if len(f) == 1 and len(p) == 1 and np.shape(f[0]) == np.shape(p[0]):
                        settle(c, [('csv table %s equals the saved output' % part_, a, b) for a, b in
                                   zip(np.ravel(np.array(f[0], dtype=object)), np.ravel(np.array(p[0], dtype=object)))], I)
    return fn


def to_input(focus):
    def f(cex, c):
        variant, cfg = cex.info
        m = cex.model
        d = {k: cfg[k] for k in ('ns', 'nc', 'nb', 'include', 'n', 'e', 'hole', 'ro2', 's2a', 'max_batches', 'RH', 'chem', 'order', 'outs')}
        for k, dv in (('simulation_time', 250.0), ('batch_step', 100.0)):
            d[k] = val(m, cfg[k], dv)
        d['init'] = list(cfg['init'])
        return dict(variant=variant, cfg=d, claim=cex.label, focus=focus)
    return f


def replay(inp):
    pts = []
    for k, (T, b, st) in enumerate(((250.0, 100.0, 39600.0), (300.0, 100.0, 7200.0), (90.0, 100.0, 1000.0), (1250.0, 100.0, 82000.0), (170000.0, 5000.0, 0.0))):
        p = dict(inp['cfg'])
        p.update(simulation_time=T, batch_step=b, start_time=st, temp=281.0 + 9 * k, H2O=3.7 + k, max_batches=60)
        p['init'] = {s: 1.5 + i for i, s in enumerate(inp['cfg']['init'])}
        pts += [p, dict(p, negative=True)]
    q = inp['cfg']
    if 0 < q['batch_step'] < 1e6 and q['simulation_time'] / q['batch_step'] < 60:
        pts.append(dict(pts[0], simulation_time=q['simulation_time'], batch_step=q['batch_step']))
    for p in pts:
        got = realcode.call('solver_aero', variant=inp['variant'], cfg=p, focus=inp['focus'])
        if 'exception' in got:
            return 'run_simulation fails: %s' % got['exception'][-700:]
        if got['bad']:
            return '%s (simulation_time=%s batch_step=%s start_time=%s)' % ('; '.join(got['bad'][:3]), p['simulation_time'], p['batch_step'], p['start_time'])
    return None


def cases(focus, tier, variants=('aerosol', 'fixed yield')):
    deep = tier == 'thorough'
    maxb = {'rhs': 5, 'args': 3, 'initial': 1, 'saved': 12}[focus] if not deep else {'rhs': 10, 'args': 5, 'initial': 1, 'saved': 30}[focus]
    lay = LAYOUTS + [dict(ns=4, nc=3, nb=16, include=[0, 1, 3], hole=1)] if deep else LAYOUTS
    lay = lay + MANY
    out = []
    for v in variants:
        for L in lay:
            nm = '%s %s, %d species, condensing %s, %d bins' % (v, focus, L['ns'], L['include'], L['nb'])
            out.append(report.Case(nm, harness(v, focus, maxb, [L]), to_input(focus), replay, 'up to %d batches of any length; all times, states, temperatures and property values' % maxb,
                                   max_paths=5000))
    return out


ASSUME = ['the ODE integrator starts at (t0, y0), calls the right-hand side at any times and states, and returns rows of which the last is the state at the end',
          'the generated functions are uninterpreted: any function of exactly the documented arguments; the partitioning routine returns any numbers at every call',
          'exact real arithmetic; exp, log, log10 and powers are uninterpreted functions']
OUTSIDE = ['accuracy of the integrator (assimulo)', 'more batches, species, bins or reactions than the bound', 'plotting', 'ODE_solver_opsplit.py (an experimental variant no driver uses)']
