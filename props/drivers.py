"""The driver scripts executed symbolically: what they hand to the solver, and the files they produce for it."""
import ast
import os
import z3
from vt import core, eqprove, loader, npshim, drivermodel as dm, realcode, report
from vt.loader import VFS
from .solver import fun, objarray
from .aero import Auto

FM = dict(exp=lambda x: core.SymReal(core.term(x)).exp(), log=lambda x: core.SymReal(core.term(x)).log(), log10=lambda x: core.SymReal(core.term(x)).log10())


def converted():
    out = {}
    for w in ('convert_rate_mcm_numba', 'convert_rate_mcm_fortran'):
        ns = loader.load('rate_coeff_conversion.py', vfs=VFS())
        out[w] = dict(ns[w](dict(dm.RATES)))
    return out


def host(kind, lay):
    v = VFS()
    cache = {}

    def real(path, over):
        if path not in cache:
            mods = {'numpy': npshim.NP(v), 'pdb': dm.AnyModule('pdb'), 'pybel': dm.AnyModule('pybel')}
            cache[path] = loader.load(path, vfs=v, modules=mods)
            cache[path].update(over)
        return cache[path]

    def drop(name):
        for n in (name, name[:-4]):
            v.arrays.pop(n, None)
    H = dm.Host(kind, lay, loader.REPO, core.real, fun, objarray, npshim.NP(v), real, lambda n, val: v.arrays.__setitem__(n, list(val)), drop)
    v.open = H.open
    return H, v


def run(c, H, v, I):
    path = dm.DRIVERS[H.kind]
    mods = H.modules(None)
    mods['numpy'] = npshim.NP(v)
    src = ast.unparse(dm.transformed(os.path.join(loader.REPO, path)))
    try:
        loader.load(path, vfs=v, modules=mods, names={'__setting': H.setting}, source=src, modname='__main__')
    except (core.Inconclusive, core.PathDead):
        raise
    except Exception as ex:
        if c.poison:
            raise core.Inconclusive(c.poison)
        c.prove(False, 'the driver runs%s (%s: %s)' % (' from the saved files' if H.exist else '', type(ex).__name__, str(ex)[:200]), I)
        return False
    if c.poison:
        raise core.Inconclusive(c.poison)
    return True


PTS = [{'temp': 287.25, 'RH': 0.4375}, {'temp': 301.5, 'RH': 0.71875}]


def settle(c, claims, I):
    vals = []
    try:
        for cl in claims:
            vals.append(cl)
    except dm.Missing as ex:
        vals.append(('%s is handed over' % ex.args[0], False))
    fs = [f for f in c.pc]
    pr = eqprove.Prover(c, fs, [Auto(0, PTS[0]), Auto(1, PTS[1])])
    pr.add_path()
    for cl in vals:
        if len(cl) == 2:
            ok = c.prove(bool(cl[1]), cl[0], I)
        else:
            ok = pr.prove(core.term(cl[1]), core.term(cl[2]), cl[0], I)
        if ok is False:
            return False
    return True


def harness(kind, focus, layouts):
    def fn(c):
        lay = dict(c.choose(layouts))
        H, v = host(kind, lay)
        I = dict(kind=kind, lay=lay, focus=focus)
        for n in dm.FREE:
            if n not in ('hour_of_day', 'PInit', 'Updraft', 'vp_cutoff'):
                c.assume(core.real(n).t > 0)
        c.assume(core.real('RH').t < 1)
        c.assume(core.real('temp').t > 100)
        core.STATS.functions.add(dm.DRIVERS[kind] + ' main program')
        if not run(c, H, v, I):
            return
        I = dict(I, events=[e[0] for e in H.events])
        if focus == 'files':
            settle(c, H.claims_files(converted()), I)
            return
        if focus == 'restart':
            if 'files_exist' not in H.settings:
                c.prove(True, 'no switch to reuse saved files', I)
                return
            H.exist, H.events = True, []
            if not run(c, H, v, I):
                return
        settle(c, H.claims_run(FM), I)
    return fn


def replay(inp):
    for k in range(3):
        got = realcode.call('driver', kind=inp['kind'], lay=inp['lay'], focus=inp['focus'], k=k)
        if 'exception' in got:
            return 'the driver fails: ' + got['exception'][-700:]
        if got['bad']:
            return '; '.join(got['bad'][:3])
    return None


PERM = [2, 0, 11, 1, 10, 4, 9, 3, 7, 8, 6, 5]
AERO = [dict(perm=[2, 0, 3, 1], include=[3, 1], nb=2, ignore_vp=True, ro2=[1, 3]), dict(perm=[0, 1, 2, 3], include=[2, 0, 3], nb=3, ignore_vp=True, ro2=[], smiles_all=True),
        dict(perm=[1, 3, 0, 2], include=[], nb=2, ignore_vp=True, ro2=[0]), dict(perm=[3, 2, 1, 0], include=[1, 0], nb=1, ignore_vp=False, ro2=[2]),
        dict(perm=[0, 2, 1, 3], include=[0, 1, 2, 3], nb=2, ignore_vp=False, ro2=[0, 1]),
        dict(perm=PERM, n=12, include=[2, 9, 10, 11], nb=2, ignore_vp=True, ro2=[1, 9, 10])]
GAS = [dict(perm=p, include=[], nb=1, ignore_vp=False, ro2=r) for p, r in (([0, 1, 2, 3], [1, 3]), ([2, 0, 3, 1], []), ([3, 1, 0, 2], [0]))]
GAS.append(dict(perm=PERM, n=12, include=[], nb=1, ignore_vp=False, ro2=[2, 9, 10, 11]))
YIELD = [dict(perm=[0, 1, 2], n=3, include=[0, 1, 2], nb=2, ignore_vp=False, ro2=[]), dict(perm=[2, 0, 1], n=3, include=[1, 0, 2], nb=1, ignore_vp=False, ro2=[]),
         dict(perm=[1, 0], n=2, include=[1, 0], nb=3, ignore_vp=False, ro2=[]), dict(perm=[1, 3, 0, 2], n=4, include=[3, 0], nb=2, ignore_vp=True, ro2=[]),
         dict(perm=PERM, n=12, include=list(range(12)), nb=1, ignore_vp=False, ro2=[])]


def layouts(kind, tier):
    L = {'aerosol': AERO, 'fixed yield': YIELD}.get(kind, GAS)
    if tier == 'thorough' and kind == 'aerosol':
        import itertools
        L = L + [dict(perm=list(p), include=list(s), nb=nb, ignore_vp=g, ro2=[p[0]], smiles_all=False) for p in ([1, 0, 3, 2], [3, 0, 2, 1]) for k in range(5)
                 for s in itertools.permutations(range(4), k) if k < 3 or s[0] > s[1] for nb in (1, 16) for g in (True, False)]
    if tier == 'thorough' and kind == 'fixed yield':
        import itertools
        L = L + [dict(perm=list(p), n=4, include=list(range(4)), nb=nb, ignore_vp=False, ro2=[]) for p in itertools.permutations(range(4)) for nb in (1, 16)]
    if tier == 'thorough' and kind.startswith('gas'):
        import itertools
        L = L + [dict(perm=list(p), include=[], nb=1, ignore_vp=False, ro2=r) for p in itertools.permutations(range(4)) for r in ([2], [0, 3])]
    return L


def cases(kinds, foci, tier):
    out = []
    for k in kinds:
        L = layouts(k, tier)
        step = 1 if len(L) < 8 else (len(L) + 15) // 16
        for f in foci:
            for q in range(0, len(L), step):
                sub = L[q:q + step]
                nm = '%s %s, %s' % (k, f, '; '.join('numbering %s condensing %s bins %d cutoff %s' % (l['perm'], l['include'], l['nb'], l['ignore_vp']) for l in sub[:2]))
                out.append(report.Case(nm, harness(k, f, sub), lambda cex, c: dict(cex.info, claim=cex.label), replay,
                                       '%d layouts of up to 12 species; every temperature, humidity, time, constant, size, property and yield' % len(sub), max_paths=20000))
    return out


ASSUME = ['the parser, the property library, the size distribution and the generators are functions of exactly their documented arguments (decided by their own checks)',
          'pickling gives equal values and new objects; Open Babel molecules can be pickled', 'the commands that compile generated files succeed',
          'the settings at the top of a driver are assignments of numbers to the names documented there', 'exact real arithmetic up to rounding of constants (relative 1e-12)']
OUTSIDE = ['settings edited otherwise than by changing their number', 'plots', 'mechanisms with more species than the bound']
