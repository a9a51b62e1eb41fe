"""Aerosol/Property_calculation.py executed symbolically."""
import itertools
import math
from fractions import Fraction
import numpy as np
import z3
from vt import core, eqprove, loader, npshim, propmodel as pm, realcode, report
from vt.core import SymReal
from vt.loader import VFS
from .solver import fun

NAMES = ['APINENE', 'NO', 'PINONIC', 'C2O', 'O3', 'C107O2', 'CH4', 'BUT1ENE', 'C10', 'CO', 'HCHO', 'TOLUENE']


def load():
    lib = pm.Lib(fun, lambda n: core.real(n))
    ns = loader.load('Aerosol/Property_calculation.py', vfs=VFS(), modules=dict(lib.modules(), numpy=npshim.NP(VFS())))
    return lib, ns


def run(c, I, f, **kw):
    try:
        out = f(**kw)
    except (core.Inconclusive, core.PathDead):
        raise
    except Exception as ex:
        if c.poison:
            raise core.Inconclusive(c.poison)
        c.prove(False, 'the properties are computed (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
        return None
    if c.poison:
        raise core.Inconclusive(c.poison)
    return out


def pure1(n, subsets, methods, have=None, cut=(True, False)):
    def fn(c):
        names = NAMES[:n]
        some = have
        if some is None:
            some = c.choose([list(s) for k in range(n + 1) for s in itertools.combinations(names, k)]) if subsets else names[:2]
        bp, vp, cr, de = c.choose(list(itertools.product(pm.BP, pm.VP, pm.CRIT, pm.DENS))) if methods else ('joback_and_reid', 'nannoolal', 'nannoolal', 'girolami')
        ig = c.choose(list(cut))
        cfg = dict(names=names, have=some, bp=bp, vp=vp, crit=cr, dens=de, ignore_vp=ig, temp=core.real('temp'), cutoff=core.real('vp_cutoff'))
        lib, ns = load()
        a = pm.inputs(cfg, lib)
        for s in names:
            for q in ('mw_', 'nC_', 'nH_', 'nO_'):
                c.assume(z3.Real(q + s) > 0)
        I = cfg
        core.STATS.functions.add('Property_calculation.Pure_component1')
        out = run(c, I, ns['Pure_component1'], **a)
        if out is None:
            return

        def le(x, y):
            return c.branch(core.term(x) <= core.term(y))
        for cl in pm.claims1(cfg, lib, a, out, le):
            if len(cl) == 2:
                c.prove(bool(cl[1]), cl[0], I)
            else:
                c.prove(core.term(cl[1]) == core.term(cl[2]), cl[0], I)
    return fn


def to_input1(cex, c):
    d = {k: cex.info[k] for k in ('names', 'have', 'bp', 'vp', 'crit', 'dens', 'ignore_vp')}
    return dict(d, claim=cex.label)


def replay1(inp):
    cfg = {k: inp[k] for k in ('names', 'have', 'bp', 'vp', 'crit', 'dens', 'ignore_vp')}
    for cutoff in [1.5, 2.0, 2.5, 0.5, 3.5] + list(inp['have']):
        for temp in (291.0, 305.5):
            got = realcode.call('pure1', cfg=dict(cfg, temp=temp, cutoff=cutoff))
            if 'exception' in got:
                return 'Pure_component1 fails: ' + got['exception'][-600:]
            if got['bad']:
                return '; '.join(got['bad'][:3])
    return None


POINTS = [dict(R=8.3144, temp=291.0, mw=lambda i: 18.0 + 31.7 * i), dict(R=7.7, temp=310.5, mw=lambda i: 230.0 - 17.3 * i)]


def pure2(n):
    def fn(c):
        lib, ns = load()
        mw = [core.real('mw_%d' % i) for i in range(n)]
        R, T = core.real('R'), core.real('temp')
        fs = [R.t > 0, T.t > 0] + [m.t > 0 for m in mw]
        for f in fs:
            c.assume(f)
        core.STATS.functions.add('Property_calculation.Pure_component2')
        out = run(c, (n,), ns['Pure_component2'], num_species=n, y_mw=list(mw), R_gas=R, temp=T)
        if out is None:
            return
        for k in ('alpha_d_org', 'DStar_org', 'mean_them_vel', 'gamma_gas'):
            c.prove(len(out[k]) == n, '%s has one entry per species' % k, (n,))
            if len(out[k]) != n:
                return
        pr = eqprove.Prover(c, fs, [dict([('R', p['R']), ('temp', p['temp'])] + [('mw_%d' % i, p['mw'](i)) for i in range(n)]) for p in POINTS])
        pr.add_path()
        for i in range(n):
            D = SymReal(core.realval(Fraction('1.9'))) * mw[i] ** (-2.0 / 3.0)
            v = ((8.0 * R * T) / (math.pi * (mw[i] * 1.0e-3))) ** 0.5
            for k, e in (('alpha_d_org', core.realval(Fraction('0.1'))), ('DStar_org', D), ('mean_them_vel', v), ('gamma_gas', 3.0 * D / (v * 1.0e2) * 1.0e-2)):
                if not pr.prove(core.term(out[k][i]), core.term(e), '%s of component %d' % (k, i), (n,)):
                    return
    return fn


def replay2(inp):
    n = inp['n']
    for p in POINTS:
        got = realcode.call('pure2', n=n, mw=[p['mw'](i) for i in range(n)], R_gas=p['R'], temp=p['temp'])
        if 'exception' in got:
            return 'Pure_component2 fails: ' + got['exception'][-600:]
        if got['bad']:
            return '; '.join(got['bad'][:3])
    return None


def cases(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    out = [report.Case('which species condense, %d species' % k, pure1(k, True, False), to_input1, replay1,
                       '%d species, every subset with a SMILES, both cutoff settings, every temperature, cutoff and property value' % k, max_paths=100000) for k in range(1, n + 1)]
    out.append(report.Case('every method', pure1(3 if deep else 2, False, True), to_input1, replay1, 'all 72 combinations of property methods, two species with SMILES', max_paths=100000))
    for h, cut in ((NAMES, (False,)), (NAMES[1:3] + NAMES[9:11], (True, False))):
        out.append(report.Case('12 species, %d with a SMILES' % len(h), pure1(12, False, False, h, cut), to_input1, replay1, '12 species, %d of them with a SMILES' % len(h), max_paths=10000))
    for k in (1, 2, 3, 11) if not deep else (1, 2, 3, 6, 11, 24):
        out.append(report.Case('transport properties of %d components' % k, pure2(k), lambda cex, c: dict(n=cex.info[0], claim=cex.label), replay2,
                               '%d components, every molecular weight, temperature and gas constant' % k))
    return out
