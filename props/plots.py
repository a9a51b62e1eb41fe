"""The plots a run ends with, drawn by the real plotting code on symbolic results."""
import re
import numpy as np
import z3
from vt import core, eqprove, loader, npshim, plotmodel, realcode, report, solvermodel as sm
from vt.loader import VFS
from . import aero, solver
from .solver import Csv, fun, objarray, between


def printed(c):
    def f(text):
        if text is None:
            return None
        text = str(text)
        toks = re.findall(r'SYMV\d+V', text)
        if len(toks) == 1 and toks[0] in c.tokens:
            return c.tokens[toks[0]]
        m = re.findall(r'-?\d+\.\d+(?:[eE][-+]?\d+)?', text)
        return float(m[-1]) if m and not toks else None
    return f


def harness(variant, maxb, layouts, signs):
    def fn(c):
        cfg = aero.config(c, variant, 'saved', maxb, layouts)
        c.assume(cfg['simulation_time'].t <= maxb * cfg['batch_step'].t)
        fs = [cfg['inp']['NA'].t > 0]
        for x in cfg['inp']['y_mw']:
            fs.append(x.t > 0)
        made = []

        def fresh(s):
            v = core.real(s)
            made.append(v)
            return v
        env = sm.AeroEnv(cfg, fun, fresh, objarray, between, eval_jac=False, fm=aero.FM)
        v, cs, rec = VFS(), Csv(), plotmodel.Recorder()
        I = (variant, cfg)
        for f in fs:
            c.assume(f)
        sim = env.simulate

        def simulate(s, tfinal):
            r = sim(s, tfinal)
            last = np.array(r[1], dtype=object)[-1]
            for i, x in enumerate(last):
                org = i - cfg['ns']
                if org >= 0 and (not signs or org % cfg['nc'] == 0):
                    c.assume(core.term(x) > 0)
                    fs.append(core.term(x) > 0)
            return r
        env.simulate = simulate
        try:
            m = aero.modules(env, v, cs)
            m.update(rec.modules())
            m['time'] = sm.AnyModule('time')
            if variant == 'fixed yield':
                P = loader.load('Aerosol/f2py/Fixed_yield/Plotting.py', vfs=v, modules=dict(m))
                mod = __import__('types').ModuleType('Plotting')
                mod.__dict__.update({k: x for k, x in P.items() if not k.startswith('__')})
                m['Plotting'] = mod
                core.STATS.functions.add('Aerosol/f2py/Fixed_yield/Plotting.py stacked_bar')
            ns = loader.load(aero.FILES[variant], vfs=v, modules=m)
            core.STATS.functions.add(aero.FILES[variant] + ' run_simulation')
            kw = sm.aero_kwargs(cfg, np.array(cfg['ro2'], dtype=int))
            if variant == 'aerosol':
                kw['plot_mass'] = True
            ns['run_simulation'](**kw)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the simulation runs (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
            return
        if c.poison:
            raise core.Inconclusive(c.poison)

        def one(part):
            f = [x for k, x in env.pickles.items() if part in k]
            return f[0] if len(f) == 1 else None
        t, y, soa = one('_t_output'), one('_y_output'), one('_SOA_output')
        if t is None or y is None or soa is None:
            c.prove(False, 'the output is saved', I)
            return
        pr = eqprove.Prover(c, fs, [aero.Auto(0), aero.Auto(1)])
        pr.add_path()
        aero.settle(c, plotmodel.claims(variant, cfg, rec.figures, t, y, soa, printed(c)), I, pr)
    return fn


def to_input(cex, c):
    return aero.to_input('plots')(cex, c)


def replay(inp):
    for k, (T, b) in enumerate(((250.0, 100.0), (300.0, 100.0), (90.0, 100.0), (700.0, 100.0), (2000.0, 100.0), (1500.0, 100.0))):
        p = dict(inp['cfg'], simulation_time=T, batch_step=b, start_time=39600.0, temp=281.0 + 9 * k, H2O=3.7 + k, max_batches=60, spread=max(0, k - 2))
        p['init'] = {s: 1.5 + i for i, s in enumerate(inp['cfg']['init'])}
        got = realcode.call('solver_aero', variant=inp['variant'], cfg=p, focus='plots')
        if 'exception' in got:
            return 'run_simulation fails: %s' % got['exception'][-700:]
        if got['bad']:
            return '%s (simulation_time=%s batch_step=%s)' % ('; '.join(got['bad'][:3]), T, b)
    return None


def gas_harness(variant, maxb):
    def fn(c):
        cfg = solver.config(c, maxb, 'initial')
        cfg['must_draw'] = variant == 'f2py'
        c.assume(cfg['simulation_time'].t <= maxb * cfg['batch_step'].t)
        fs = []
        env = sm.Env(cfg, fun, lambda s: core.real(s), objarray, between, eval_jac=False)
        sim = env.simulate

        def simulate(s, tfinal):
            r = sim(s, tfinal)
            for x in env.batches[-1]['yend']:
                c.assume(core.term(x) > 0)
                fs.append(core.term(x) > 0)
            return r
        env.simulate = simulate
        v, cs, rec = VFS(), Csv(), plotmodel.Recorder()
        I = (variant, cfg)
        try:
            m = solver.modules(env, v, cs)
            m.update(rec.pyplot())
            ns = loader.load(solver.VARIANTS[variant], vfs=v, modules=m)
            core.STATS.functions.add(solver.VARIANTS[variant] + ' run_simulation')
            f = ns['run_simulation']
            f(**solver.keyword_args(f, variant, cfg))
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the simulation runs (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
            return
        if c.poison:
            raise core.Inconclusive(c.poison)
        pr = eqprove.Prover(c, fs, [aero.Auto(0), aero.Auto(1)])
        pr.add_path()
        aero.settle(c, plotmodel.gas_claims(cfg, rec.figures, env.batches, env.elapsed, lambda x: core.SymReal(core.term(x)).log10()), I, pr)
    return fn


def gas_to_input(cex, c):
    d = solver.to_input(cex, c)
    d['cfg']['must_draw'] = cex.info[1]['must_draw']
    return dict(d, focus='plots')


def gas_replay(inp):
    for T, b in ((250.0, 100.0), (300.0, 100.0), (90.0, 100.0), (1250.0, 100.0)):
        p = dict(inp['cfg'], simulation_time=T, batch_step=b, start_time=39600.0, temp=291.0, H2O=3.7, max_batches=60)
        p['init'] = {s: 1.5 + i for i, s in enumerate(p['init'])}
        got = realcode.call('solver_gas', variant=inp['variant'], cfg=p, focus='plots')
        if 'exception' in got:
            return 'run_simulation fails: %s' % got['exception'][-700:]
        if got['bad']:
            return '%s (simulation_time=%s batch_step=%s)' % ('; '.join(got['bad'][:3]), T, b)
    return None


def cases(tier):
    deep = tier == 'thorough'
    lay = aero.LAYOUTS + ([dict(ns=4, nc=3, nb=16, include=[0, 1, 3], hole=1)] if deep else [])
    out = []
    for v in ('fixed yield', 'aerosol'):
        for L in lay if v == 'fixed yield' else lay[:1]:
            n = (3 if deep else 2) if v == 'fixed yield' else 6
            nm = '%s plots, %d species, condensing %s, %d bins' % (v, L['ns'], L['include'], L['nb'])
            out.append(report.Case(nm, harness(v, n, [L], False), to_input, replay, 'up to %d batches; all results' % n, max_paths=2000))
    for L in [dict(ns=4, nc=3, nb=1, include=[0, 2, 3], hole=1), aero.LAYOUTS[0]]:
        nm = 'fixed yield plots with amounts below zero, condensing %s, %d bins' % (L['include'], L['nb'])
        out.append(report.Case(nm, harness('fixed yield', 1, [L], True), to_input, replay, 'one batch; all results', max_paths=2000))
    for v in solver.VARIANTS:
        n = 12 if deep else 6
        out.append(report.Case('%s gas plot' % v, gas_harness(v, n), gas_to_input, gas_replay, '4 species in 3 numberings, up to %d batches; all results above zero' % n, max_paths=2000))
    return out


ASSUME = aero.ASSUME + ['molecular weights and Avogadro number > 0', 'every bin holds some of the first organic compound (shares of nothing are undefined)']
OUTSIDE = ['what matplotlib draws from the values it is given; colours, labels', 'more batches, species or bins than the listed shapes']
EXPL = ('run_simulation and the plotting code of the current source are executed on symbolic results with a matplotlib that records the bars, lines and titles; '
        'z3 decides that they show the saved results. ')
