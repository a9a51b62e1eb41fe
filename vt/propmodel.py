"""What surrounds Aerosol/Property_calculation.py: the UManSysProp methods, as unknown functions.

Used symbolically and, for replay, with plain numbers.  Nothing here imports z3."""
import types

BP = ['joback_and_reid', 'stein_and_brown', 'nannoolal']
VP = ['nannoolal', 'myrdal_and_yalkowsky', 'evaporation']
CRIT = ['nannoolal', 'joback_and_reid']
DENS = ['girolami', 'schroeder', 'le_bas', 'tyn_and_calus']


class Mol:
    def __init__(self, key, mw):
        self.key, self.molwt = key, mw


class Groups(dict):
    pass


class Lib:
    """fun(name, args): value of an unknown function; const(name): an unknown positive number"""

    def __init__(self, fun, const):
        self.fun, self.const = fun, const

    def bp(self, m, mol):
        return self.const('bp_%s_%s' % (m, mol.key))

    def crit(self, m, mol, b):
        return self.fun('crit_%s_%s' % (m, mol.key), [b])

    def dens(self, m, mol, t, p):
        return self.fun('dens_girolami_%s' % mol.key, [0.0]) if m == 'girolami' else self.fun('dens_%s_%s' % (m, mol.key), [t, p])

    def vp(self, m, mol, t, b):
        return self.fun('vp_evaporation_%s' % mol.key, [t]) if m == 'evaporation' else self.fun('vp_%s_%s' % (m, mol.key), [t, b])

    def group(self, mol, g):
        return self.const('n%s_%s' % (g, mol.key))

    def modules(self):
        def ns(name, **kw):
            x = types.ModuleType(name)
            x.__dict__.update(kw)
            return x
        U = 'umansysprop.'
        bp = ns(U + 'boiling_points', **{m: (lambda c, m=m: self.bp(m, c)) for m in BP})
        vp = ns(U + 'vapour_pressures', evaporation=lambda c, t: self.vp('evaporation', c, t, None),
                **{m: (lambda c, t, b, m=m: self.vp(m, c, t, b)) for m in VP if m != 'evaporation'})
        cp = ns(U + 'critical_properties', **{m: (lambda c, b, m=m: self.crit(m, c, b)) for m in CRIT})
        ld = ns(U + 'liquid_densities', girolami=lambda c: self.dens('girolami', c, None, None),
                **{m: (lambda c, t, p, m=m: self.dens(m, c, t, p)) for m in DENS if m != 'girolami'})
        gr = ns(U + 'groups', composition=lambda c: {g: self.group(c, g) for g in 'CHO'}, all_keys=lambda *a: {})
        fo = ns(U + 'forms', CoreAbundanceField=object)
        mods = {'boiling_points': bp, 'vapour_pressures': vp, 'critical_properties': cp, 'liquid_densities': ld, 'groups': gr, 'forms': fo,
                'partition_models': ns(U + 'partition_models'), 'activity_coefficient_models_dev': ns(U + 'activity_coefficient_models_dev')}
        out = {'umansysprop': ns('umansysprop', **mods)}
        out.update({U + k: m for k, m in mods.items()})
        return out


def inputs(cfg, lib):
    """cfg: names, have (names with a SMILES), methods ...  -> arguments of Pure_component1"""
    names = cfg['names']
    smiles = {s: 'S' + s for s in names if s in cfg['have']}
    mols = {q: Mol(s, lib.const('mw_' + s)) for s, q in smiles.items()}
    return dict(num_species=len(names), species_dict={i: s for i, s in enumerate(names)}, species_dict2array={s: i for i, s in enumerate(names)},
                Pybel_object_dict=mols, SMILES_dict=smiles, temp=cfg['temp'], vp_method=cfg['vp'], bp_method=cfg['bp'], critical_method=cfg['crit'],
                density_method=cfg['dens'], ignore_vp=cfg['ignore_vp'], vp_cutoff=cfg['cutoff'])


def claims1(cfg, lib, a, out, le):
    """le(x, y): the truth of x <= y on this path"""
    n = len(cfg['names'])
    for k in ('y_density_array', 'y_mw', 'o_c', 'h_c', 'sat_vp', 'Delta_H', 'Latent_heat_gas', 'ignore_index_fortran'):
        yield ('%s has one entry per species' % k, len(out[k]) == n)
        if len(out[k]) != n:
            return
    inc, ign = sorted(int(i) for i in out['include_index']), sorted(int(i) for i in out['ignore_index'])
    yield ('every species is either included or ignored, once', sorted(inc + ign) == list(range(n)))
    for s in cfg['names']:
        i = a['species_dict2array'][s]
        if s not in cfg['have']:
            yield ('%s has no SMILES and is ignored' % s, i in ign)
            flag = True
        else:
            mol = a['Pybel_object_dict'][a['SMILES_dict'][s]]
            b1 = lib.bp('nannoolal', mol)
            rho = lib.dens(cfg['dens'], mol, cfg['temp'], lib.crit(cfg['crit'], mol, b1))
            p = lib.vp(cfg['vp'], mol, cfg['temp'], lib.bp(cfg['bp'], mol))
            yield ('density of ' + s, out['y_density_array'][i], rho * 1.0e3)
            yield ('molecular weight of ' + s, out['y_mw'][i], mol.molwt)
            yield ('saturation vapour pressure of ' + s, out['sat_vp'][i], p)
            yield ('O:C of ' + s, out['o_c'][i], lib.group(mol, 'O') / lib.group(mol, 'C'))
            yield ('H:C of ' + s, out['h_c'][i], lib.group(mol, 'H') / lib.group(mol, 'C'))
            keep = le(p, cfg['cutoff']) if cfg['ignore_vp'] else True
            flag = not keep
            yield ('%s condenses exactly when its vapour pressure is not above the cutoff' % s, (i in inc) == keep)
        yield ('ignore flag of ' + s, out['ignore_index_fortran'][i], 1.0 if flag else 0.0)
