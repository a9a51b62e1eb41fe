"""The emitted gas-to-particle partitioning subroutine, interpreted on symbolic inputs."""
import math
import random
from fractions import Fraction
import numpy as np
import z3
from vt import core, eqprove, fortran, loader, npshim, realcode, report
from vt.core import SymReal
from vt.loader import VFS
from ref import partition as law
from . import gen

PI = z3.Real('PI')
SCAL = ['core_diss', 'Latent_heat_unused', 'GRAV', 'Updraft', 'sigma', 'NA', 'kb', 'Rv', 'R_gas', 'Model_temp', 'cp', 'Ra', 'Lv_water_vapour']
ARGS = ['y', 'ycore', 'core_diss', 'core_mass_array', 'density_input', 'core_density_array', 'ignore_index', 'mw_array', 'Psat', 'DStar_org',
        'alpha_d_org', 'C_g_i_t', 'N_perbin', 'gamma_gas', 'Latent_heat', 'GRAV', 'Updraft', 'sigma', 'NA', 'kb', 'Rv', 'R_gas', 'Model_temp', 'cp', 'Ra', 'Lv_water_vapour']
OUTS = ['total_soa_mass', 'aw_array', 'size_array', 'dy_dt']
PER_BIN = ['ycore', 'core_mass_array', 'core_density_array', 'N_perbin']
PER_COND = ['density_input', 'mw_array', 'Psat', 'DStar_org', 'alpha_d_org', 'C_g_i_t', 'gamma_gas', 'Latent_heat']
SCALARS = [n for n in ARGS if n not in PER_BIN + PER_COND + ['y', 'ignore_index']]


class Interp(fortran.Interp):
    """literals within 2e-7 of pi stand for pi"""

    def ev(self, e):
        if e[0] == 'num' and isinstance(e[1], Fraction) and abs(float(e[1]) / math.pi - 1) < 1e-7:
            return SymReal(PI)
        return fortran.Interp.ev(self, e)

    def fun(self, n, x):
        if n in ('acos', 'dacos') and isinstance(x, Fraction) and x == -1:
            return SymReal(PI)
        return fortran.Interp.fun(self, n, x)


class SN:
    """symbolic numbers for the reference law"""
    PI = SymReal(PI)

    @staticmethod
    def num(s):
        return SymReal(core.realval(Fraction(s)))

    @staticmethod
    def exp(x):
        return SymReal(core.uf('EXP')(core.term(x)))

    @staticmethod
    def cbrt(x):
        return SymReal(core.pow_term(core.term(x), core.realval(Fraction(1, 3))))


class FN:
    PI = math.pi
    num = staticmethod(lambda s: float(Fraction(s)))
    exp = staticmethod(math.exp)
    cbrt = staticmethod(lambda x: x ** (1.0 / 3.0))


BASEV = dict(ycore=3e9, core_mass_array=1.1e-12, core_density_array=1770.0, N_perbin=150.0, density_input=1400.0, mw_array=180.0, Psat=1e-10,
             DStar_org=0.05, alpha_d_org=0.8, C_g_i_t=7e8, gamma_gas=9e-8, Latent_heat=1e5, y=4e8, core_diss=3.0, GRAV=9.8, Updraft=1.0, sigma=0.072,
             NA=6.02e23, kb=1.4e-23, Rv=461.0, R_gas=8.31451, Model_temp=295.0, cp=1005.0, Ra=287.0, Lv_water_vapour=2.5e6)


def value(name, i, k):
    """a realistic concrete value of element i of an argument, for point k"""
    r = random.Random('%s%d/%d' % (name, i, k))
    v = BASEV[name] * r.choice([0.53, 0.71, 0.87, 1.0, 1.13, 1.31, 1.7]) * (1 + r.randrange(1000) / 4000.0)
    if name == 'alpha_d_org':
        v = min(1.0, BASEV[name] * (0.5 + r.random() * 0.7))
    if name == 'Model_temp':
        v = 280 + 3.0 * k + r.random()
    return float('%.4g' % v)


def writer():
    if 'part' not in gen._cache:
        gen._cache['pv'] = v = VFS()
        gen._cache['part'] = loader.load('Parse_eqn_file.py', vfs=v, modules=gen.modules(v, lambda: gen._cache.get('cores', [4])[0]))
    v = gen._cache['pv']
    v.files.clear()
    return gen._cache['part'], v


def build(cfg):
    """the emitted subroutine, parsed"""
    P, v = writer()
    ns, nc, nb = cfg['ns'], cfg['nc'], cfg['nb']
    if cfg['variant'] == 'ignore':
        core.STATS.functions.add('Parse_eqn_file.write_partitioning_section_fortran_ignore')
        P['write_partitioning_section_fortran_ignore'](ns + nc * nb, nb, ns, nc, list(cfg['include']))
    else:
        core.STATS.functions.add('Parse_eqn_file.write_partitioning_section_fortran')
        P['write_partitioning_section_fortran'](ns + ns * nb, nb, ns)
    if 'Partitioning.f90' not in v.files:
        raise FileNotFoundError('Partitioning.f90 was not generated')
    return fortran.parse(v.files['Partitioning.f90'])


def arr(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def inputs(cfg, mk):
    ns, nc, nb = cfg['ns'], cfg['nc'], cfg['nb']
    a = {}
    for n in PER_BIN:
        a[n] = [mk(n, i) for i in range(nb)]
    for n in PER_COND:
        a[n] = [mk(n, i) for i in range(nc)]
    for n in SCALARS:
        a[n] = mk(n, 0)
    a['y'] = [mk('y', i) for i in range(ns + nc * nb)]
    a['ignore_index'] = list(cfg['ignored'])
    a['cond'] = [a['y'][ns + b * nc: ns + (b + 1) * nc] for b in range(nb)]
    return a


def facts(cfg, a):
    f = [PI > core.realval(Fraction('3.14159')), PI < core.realval(Fraction('3.1416'))]
    for n in PER_BIN + PER_COND:
        for x in a[n]:
            f.append(x.t >= 0 if n in ('C_g_i_t', 'Psat', 'Latent_heat') else x.t > 0)
    for x in a['alpha_d_org']:
        f.append(x.t <= 1)
    for x in a['y']:
        f.append(x.t >= 0)
    for n in SCALARS:
        f.append(a[n].t > 0)
    return f


def harness(cfg0, focus):
    def fn(c):
        cfg = dict(cfg0)
        if cfg['variant'] == 'plain':
            cfg['ignored'] = c.choose(cfg['patterns'])
        else:
            cfg['ignored'] = [0 if i in cfg['include'] else 1 for i in range(cfg['ns'])]
        I = (cfg,)
        ns, nc, nb = cfg['ns'], cfg['nc'], cfg['nb']
        a = inputs(cfg, lambda n, i: core.real('%s_%d' % (n, i)))
        fs = facts(cfg, a)
        for f in fs:
            c.assume(f)
        try:
            it = Interp(build(cfg), pi4=SymReal(PI / 4))
            call = {n: arr(a[n]) if isinstance(a[n], list) else a[n] for n in ARGS}
            out = it.run('dydt_partition', call)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the partitioning code is valid (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
            return
        if focus == 'threads':
            gen.no_races(c, it, lambda how: Interp(build(cfg), pi4=SymReal(PI / 4), schedule=how).run('dydt_partition', call), OUTS, I,
                         [dict(env_of(cfg, a, k)) for k in range(2)])
            return
        envs = [env_of(cfg, a, k) for k in range(2)]
        pr = eqprove.Prover(c, fs, envs)
        pr.add_path()
        dy = out['dy_dt']
        if focus == 'mass':
            inc = cfg['include']
            for g in range(ns):
                tot = [core.term(dy[ns + b * nc + inc.index(g)]) for b in range(nb)] if g in inc else []
                s = core.term(dy[g])
                if tot:
                    sub = [(t, z3.Real('flux_%d_%d' % (b, g))) for b, t in enumerate(tot)]
                    e = z3.substitute(s, *sub) + z3.Sum([v for _, v in sub])
                    if z3.is_true(z3.simplify(e == 0, som=True)):
                        core.STATS.obligations += 1
                        core.STATS.discharged += 1
                        continue
                pr.prove(s, -z3.Sum(tot) if tot else core.ZEROT, 'gas tendency of species %d is minus the sum over bins of its condensed tendency' % g, I)
            return
        ref = law.law(SN, a, nb, nc, [i for i in range(nc) if cfg['variant'] == 'plain' and cfg['ignored'][i] == 1])
        for b in range(nb):
            pr.prove(core.term(out['size_array'][b]), core.term(ref['size'][b]), 'radius of bin %d' % b, I)
            pr.prove(core.term(out['aw_array'][b]), core.term(ref['aw'][b]), 'water activity of bin %d' % b, I)
            for i in range(nc):
                k, cg, cs = ref['flux'][b][i]
                pr.prove(core.term(dy[ns + b * nc + i]), core.term(k * (cg - cs)), 'condensation of species %d on bin %d' % (i, b), I)
        pr.prove(core.term(out['total_soa_mass']), core.term(ref['soa']), 'organic aerosol mass', I)
    return fn


def env_of(cfg, a, k):
    e = {'PI': math.pi}
    for n in PER_BIN + PER_COND + ['y']:
        for i in range(len(a[n])):
            e['%s_%d' % (n, i)] = value(n, i, k)
    for n in SCALARS:
        e['%s_0' % n] = value(n, 0, k)
    return e


def to_input(cex, c):
    cfg = cex.info[0]
    a = inputs(cfg, lambda n, i: core.real('%s_%d' % (n, i)))
    pt, ok = {}, True
    for n in ARGS:
        if n == 'ignore_index':
            continue
        xs = a[n] if isinstance(a[n], list) else [a[n]]
        vs = []
        for x in xs:
            f = core.model_frac(cex.model, x.t)
            v = None if f is None else float(f)
            ok = ok and v is not None and 0 <= v < 1e30 and (v == 0 or v > 1e-30)
            vs.append(v)
        pt[n] = vs if isinstance(a[n], list) else vs[0]
    d = {'cfg': cfg, 'claim': cex.label, 'point': pt if ok else None}
    if len(cex.info) > 1:
        d['schedule'] = cex.info[1]
    return d


def points(inp):
    cfg = inp['cfg']
    out = []
    if inp.get('point'):
        out.append(inp['point'])
    for k in range(3):
        out.append({n: v for n, v in inputs(cfg, lambda n, i: value(n, i, k)).items() if n != 'cond'})
    z = dict(out[-1])
    z['y'] = [0.0 if i % 3 == 0 else x for i, x in enumerate(z['y'])]
    z['C_g_i_t'] = [0.0 if i % 2 else x for i, x in enumerate(z['C_g_i_t'])]
    out.append(z)
    return out


def replay_for(focus):
    def replay(inp):
        cfg = inp['cfg']
        ns, nc, nb = cfg['ns'], cfg['nc'], cfg['nb']
        if focus == 'threads':
            got = realcode.call('partition_threads', cfg=cfg, args=ARGS, point=points(inp)[-2])
            if 'exception' in got:
                return got['exception']
            if got['bad']:
                return got['bad']
            return inp.get('schedule')
        pts = points(inp)
        got = realcode.call('partition', cfg=cfg, args=ARGS, points=pts)
        if 'exception' in got:
            return got['exception']
        for p, g in zip(pts, got['points']):
            if len(g) != 1 + 2 * nb + ns + nc * nb:
                return 'the partitioning code returned %d values' % len(g)
            soa, aw, size, dy = g[0], g[1:1 + nb], g[1 + nb:1 + 2 * nb], g[1 + 2 * nb:]
            a = dict(p, cond=[p['y'][ns + b * nc: ns + (b + 1) * nc] for b in range(nb)])
            try:
                ref = law.law(FN, a, nb, nc, [i for i in range(nc) if cfg['variant'] == 'plain' and cfg['ignored'][i] == 1])
            except (ZeroDivisionError, OverflowError):
                continue
            if focus == 'mass':
                for s in range(ns):
                    t = [dy[ns + b * nc + cfg['include'].index(s)] for b in range(nb)] if s in cfg['include'] else []
                    if not abs(dy[s] + sum(t)) <= 1e-9 * (abs(dy[s]) + sum(map(abs, t))):
                        return 'gas tendency of species %d is %r, its condensed tendencies are %r (%s)' % (s, dy[s], t, cfg)
                continue
            chk = [('organic aerosol mass', soa, ref['soa'], abs(ref['soa']))]
            for b in range(nb):
                chk.append(('radius of bin %d' % b, size[b], ref['size'][b], ref['size'][b]))
                chk.append(('water activity of bin %d' % b, aw[b], ref['aw'][b], ref['aw'][b]))
                for i in range(nc):
                    k, cg, cs = ref['flux'][b][i]
                    chk.append(('condensation of species %d on bin %d' % (i, b), dy[ns + b * nc + i], k * (cg - cs), k * cg + k * cs))
            for n, x, e, sc in chk:
                if not abs(x - e) <= 1e-5 * sc + 1e-300:
                    return '%s: emitted Fortran gives %r, the published law %r (%s)' % (n, x, e, cfg)
        return None
    return replay


def layouts(tier, focus):
    L = [dict(variant='ignore', ns=2, nc=2, include=[0, 1], nb=1), dict(variant='ignore', ns=3, nc=2, include=[1, 2], nb=2),
         dict(variant='ignore', ns=5, nc=3, include=[2, 0, 4], nb=2), dict(variant='ignore', ns=3, nc=1, include=[2], nb=3),
         dict(variant='ignore', ns=4, nc=3, include=[0, 2, 3], nb=3),
         dict(variant='ignore', ns=12, nc=4, include=[2, 10, 3, 11], nb=1), dict(variant='ignore', ns=2, nc=1, include=[1], nb=11),
         dict(variant='plain', ns=2, nc=2, include=[0, 1], nb=1, patterns=[[0, 0], [1, 0], [0, 1], [1, 1]]),
         dict(variant='plain', ns=3, nc=3, include=[0, 1, 2], nb=2, patterns=[[0, 0, 0], [1, 0, 0], [0, 1, 0]]),
         dict(variant='plain', ns=3, nc=3, include=[0, 1, 2], nb=3, patterns=[[1, 1, 0]])]
    if tier == 'thorough':
        L += [dict(variant='ignore', ns=9, nc=5, include=[1, 3, 4, 7, 8], nb=4), dict(variant='ignore', ns=6, nc=6, include=[5, 4, 3, 2, 1, 0], nb=8),
              dict(variant='ignore', ns=12, nc=4, include=[0, 10, 3, 11], nb=16),
              dict(variant='plain', ns=5, nc=5, include=[0, 1, 2, 3, 4], nb=8, patterns=[[0, 0, 1, 1, 0], [1, 0, 1, 0, 0]])]
    return L


def cases(focus, tier):
    out = []
    for cfg in layouts(tier, focus):
        nm = '%s, %d species, %d condensing at %s, %d bins' % (cfg['variant'], cfg['ns'], cfg['nc'], cfg['include'], cfg['nb'])
        out.append(report.Case(nm, harness(cfg, focus), to_input, replay_for(focus), nm + ', every admissible value of all arguments', max_paths=2000))
    return out


ASSUME = ['concentrations, vapour pressures and gas concentrations are >= 0; core, number, densities, molecular weights, temperature > 0; 0 < accommodation <= 1',
          'water is the last condensing species, as the drivers arrange', 'exact real arithmetic; the literal of pi in the emitted code counts as pi (7 digits)',
          'x**(1/3) and exp are uninterpreted functions']
OUTSIDE = ['more species or bins than the listed shapes', 'the compiler (f2py)', 'rounding']
EXPL = ('The real writer of the current source emits the Fortran subroutine; it is interpreted on symbolic arguments; z3 decides equality with the '
        'reference for all values. ')
