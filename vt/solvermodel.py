"""What surrounds run_simulation of the ODE solver modules: the ODE integrator, the generated modules, the output files.

Used twice: symbolically (values are proxies, functions are uninterpreted) and, for replay, with plain numbers in the
project's own interpreter.  Nothing here imports z3."""
import math
import types
import zlib


class Shape(Exception):
    pass


def stub(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


class Any:
    """accepts everything (plotting)"""

    def __call__(self, *a, **k): return Any()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()

    def __iter__(self): return iter((Any(), Any()))
    def __getitem__(self, i): return Any()
    def __setitem__(self, i, v): pass


class AnyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()


def smooth(name, args):
    """a fixed concrete function for replay, different for every name and argument position"""
    h = zlib.crc32(name.encode())
    s = (h % 1000) / 160.0
    for i, a in enumerate(args):
        s += (0.3 + ((h >> (i % 13)) * (2 * i + 1) % 97) / 61.0) * float(a)
    return 2.0 + math.sin(s)


class Env:
    """one run.  fun(name, args): value of an unknown function; fresh(name): an unknown number; array(list): vector of the solver"""

    def __init__(self, cfg, fun, fresh, array, between, eval_jac=True):
        self.cfg, self.fun, self.fresh, self.array, self.between = cfg, fun, fresh, array, between
        self.batches, self.eval_jac = [], eval_jac
        self.shape = []

    # ---- integrator
    def assimulo(self):
        env = self

        class Explicit_Problem:
            def __init__(self, rhs=None, y0=None, t0=0.0, p0=None, sw0=None, name=None):
                if rhs is not None:
                    self.rhs = rhs
                if y0 is not None:
                    self.y0 = y0
                self.t0 = t0
                self.name = name

        class CVode:
            def __init__(self, problem):
                self.problem = problem
                self.t, self.y = problem.t0, env.array(list(problem.y0))
                self.usejac = True

            def simulate(self, tfinal, ncp=0, ncp_list=None):
                return env.simulate(self, tfinal)

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return Any()

        s = dict((n, CVode) for n in ('CVode', 'RodasODE', 'RungeKutta4', 'LSODAR', 'Radau5ODE', 'IDA'))
        p = stub('assimulo.problem', Explicit_Problem=Explicit_Problem)
        q = stub('assimulo.solvers', **s)
        return {'assimulo': stub('assimulo', solvers=q, problem=p), 'assimulo.solvers': q, 'assimulo.problem': p}

    def vec(self, tag, n):
        return [self.fresh('%s_%d' % (tag, i)) for i in range(n)]

    def simulate(self, sim, tfinal):
        k = len(self.batches)
        if k >= self.cfg['max_batches']:
            raise Shape('the simulation runs more than %d batches' % k)
        n = len(sim.y)
        b = dict(t0=sim.t, y0=list(sim.y), tfinal=tfinal, evals=[], jacs=[])
        self.batches.append(b)
        for j in range(2):
            s = self.fresh('s_%d_%d' % (k, j))
            self.between(sim.t, s, tfinal)
            y = self.vec('y_%d_%d' % (k, j), n)
            arr = self.array(list(y))
            d = sim.problem.rhs(s, arr)
            b['evals'].append(dict(s=s, y=y, after=list(arr), d=flat(d)))
            attrs = sim.problem.rhs
            b['attrs'] = {q: getattr(attrs, q) for q in ('total_SOA_mass', 'size_array', 'temp', 'RH', 'water_activity') if hasattr(attrs, q)}
            if self.eval_jac and getattr(sim.problem, 'jac', None) is not None and sim.usejac:
                arr = self.array(list(y))
                J = sim.problem.jac(s, arr)
                b['jacs'].append(dict(s=s, y=y, after=list(arr), J=rows(J)))
        mid = self.fresh('tm_%d' % k)
        rowsout = [list(sim.y), self.vec('ym_%d' % k, n), self.vec('ye_%d' % k, n)]
        b['yend'] = rowsout[-1]
        sim.t, sim.y = tfinal, self.array(list(rowsout[-1]))
        return [b['t0'], mid, tfinal], self.array(rowsout)

    # ---- generated modules
    def numba(self):
        e, n, hole = self.cfg['e'], self.cfg['n'], self.cfg['hole']

        def size(what, a, *sh):
            got = tuple(getattr(a, 'shape', (len(a),)))
            if got != sh:
                raise Shape('%s has shape %s instead of %s' % (what, got, sh))

        def evaluate_rates(ttime, RO2, H2O, temp, rate_values, J):
            size('rate array', rate_values, e)
            if len(J) < 62:
                raise Shape('photolysis array has %d entries' % len(J))
            for k in range(e):
                rate_values[k] = self.fun('rate%d' % k, [ttime, RO2, H2O, temp])
            return rate_values

        def reactants(y, equations, reactants):
            size('y', y, n)
            size('reactant array', reactants, e)
            if equations != e:
                raise Shape('equations=%r' % equations)
            for k in range(e):
                reactants[k] = self.fun('react%d' % k, list(y))
            return reactants

        def dydt(dydt, rates):
            size('dydt array', dydt, n)
            size('reaction rates', rates, e)
            for i in range(n):
                if i != hole:
                    dydt[i] = self.fun('tend%d' % i, list(rates))
            return dydt

        def jacobian(rates, y, jac):
            size('jacobian', jac, n, n)
            size('rate array', rates, e)
            size('y', y, n)
            for i in range(n):
                for j in range(n):
                    if i != hole and (i + j) % 3:
                        jac[i, j] = self.fun('jac%d_%d' % (i, j), list(rates) + list(y))
            return jac
        return {'Rate_coefficients_numba': stub('Rate_coefficients_numba', evaluate_rates=evaluate_rates),
                'Reactants_conc_numba': stub('Reactants_conc_numba', reactants=reactants),
                'Loss_Gain_numba': stub('Loss_Gain_numba', dydt=dydt), 'Jacobian_numba': stub('Jacobian_numba', jacobian=jacobian)}

    def f2py(self, zeros):
        nb = self.numba()
        e, n = self.cfg['e'], self.cfg['n']

        def evaluate_rates(ro2, h2o, temp, ttime):
            return nb['Rate_coefficients_numba'].evaluate_rates(ttime, ro2, h2o, temp, zeros(e), zeros(63))

        def reactants(y):
            return nb['Reactants_conc_numba'].reactants(y, e, zeros(e))

        def loss_gain(r):
            return nb['Loss_Gain_numba'].dydt(zeros(n), r)

        def jacobian(r, y):
            return nb['Jacobian_numba'].jacobian(r, y, zeros((n, n)))
        return {'rate_coeff_f2py': stub('rate_coeff_f2py', evaluate_rates=evaluate_rates),
                'reactants_conc_f2py': stub('reactants_conc_f2py', reactants=reactants),
                'loss_gain_f2py': stub('loss_gain_f2py', loss_gain=loss_gain), 'jacobian_f2py': stub('jacobian_f2py', jacobian=jacobian)}

    # ---- what must come out
    def elapsed(self, k):
        t = 0.0
        for b in self.batches[:k]:
            t = t + (b['tfinal'] - b['t0'])
        return t

    def rates(self, k, s, y):
        c = self.cfg
        ro2 = 0.0
        for i in c['ro2']:
            ro2 = ro2 + y[i]
        tod = c['start_time'] + self.elapsed(k) + (s - self.batches[k]['t0'])
        return [self.fun('rate%d' % q, [tod, ro2, c['H2O'], c['temp']]) for q in range(c['e'])]

    def gas(self, k, s, y):
        c = self.cfg
        R = self.rates(k, s, y)
        P = [self.fun('react%d' % q, list(y[:c['n']])) for q in range(c['e'])]
        return [0.0 if i == c['hole'] else self.fun('tend%d' % i, [a * b for a, b in zip(P, R)]) for i in range(c['n'])]

    def claims_rhs(self):
        """tendencies and Jacobian"""
        c = self.cfg
        for k, b in enumerate(self.batches):
            for q, ev in enumerate(b['evals']):
                yield ('batch %d, evaluation %d: one tendency per species' % (k, q), len(ev['d']) == c['n'])
                for i, (g, x) in enumerate(zip(ev['d'], self.gas(k, ev['s'], ev['y']))):
                    yield ('batch %d, evaluation %d: tendency of species %d' % (k, q, i), g, x)
                for i, (g, x) in enumerate(zip(ev['after'], ev['y'])):
                    yield ('the state handed to the right-hand side is not changed', g, x)
            yield ('batch %d: the solver is given the Jacobian' % k, len(b['jacs']) == 2)
            for q, ev in enumerate(b['jacs']):
                R = self.rates(k, ev['s'], ev['y'])
                yield ('the Jacobian is square', len(ev['J']) == c['n'] and all(len(r) == c['n'] for r in ev['J']))
                for i in range(c['n']):
                    for j in range(c['n']):
                        x = self.fun('jac%d_%d' % (i, j), R + list(ev['y'])) if i != c['hole'] and (i + j) % 3 else 0.0
                        yield ('batch %d, evaluation %d: Jacobian element (%d,%d)' % (k, q, i, j), ev['J'][i][j], x)
                for g, x in zip(ev['after'], ev['y']):
                    yield ('the state handed to the Jacobian is not changed', g, x)

    def claims_batches(self, t_array, y_matrix):
        c, B = self.cfg, self.batches
        yield ('at least one batch is run', len(B) >= 1)
        for k, b in enumerate(B):
            yield ('batch %d integrates one batch step' % k, b['tfinal'] - b['t0'], c['batch_step'])
            if k:
                yield ('batch %d starts from a state of full length' % k, len(b['y0']) == len(B[k - 1]['yend']))
                for i, (g, x) in enumerate(zip(b['y0'], B[k - 1]['yend'])):
                    yield ('batch %d starts where batch %d ended (component %d)' % (k, k - 1, i), g, x)
        yield ('the batches cover the simulation time', '<=', c['simulation_time'], self.elapsed(len(B)))
        yield ('no batch starts after the simulation time', '<', self.elapsed(len(B) - 1), c['simulation_time'])
        if t_array is not None:
            yield ('one output time per batch', len(t_array) == len(B))
            for k in range(min(len(t_array), len(B))):
                yield ('output time %d' % k, t_array[k], self.elapsed(k + 1))
        if y_matrix is not None:
            yield ('one output row per batch', len(y_matrix) == len(B))
            for k in range(min(len(y_matrix), len(B))):
                yield ('output row %d has full length' % k, len(y_matrix[k]) == len(B[k]['yend']))
                for i, (g, x) in enumerate(zip(y_matrix[k], B[k]['yend'])):
                    yield ('output row %d, component %d is the end state of its batch' % (k, i), g, x)

    def claims_initial(self):
        c = self.cfg
        y0 = self.batches[0]['y0']
        yield ('one initial value per species', len(y0) == c['n'])
        for s, i in c['s2a'].items():
            x = c['init'][s] * 2.55e10 if s in c['init'] else 0.0
            if i < len(y0):
                yield ('initial concentration of %s' % s, y0[i], x)


def flat(a):
    return list(a.ravel()) if hasattr(a, 'ravel') else list(a)


def rows(a):
    return [list(r) for r in a]


# ------------------------------------------------------------------ gas and particles
PER_BIN = ['ycore', 'core_mass_array', 'core_density_array', 'N_perbin']
PER_COND = ['density_input', 'mw_array', 'Psat', 'DStar_org', 'alpha_d_org', 'C_g_i_t', 'gamma_gas', 'Latent_heat']
SCALARS = ['core_diss', 'GRAV', 'Updraft', 'sigma', 'NA', 'kb', 'Rv', 'R_gas', 'Model_temp', 'cp', 'Ra', 'Lv_water_vapour']
# argument of the partitioning code -> key of input_dict that holds it unchanged
DIRECT = {'ycore': 'ycore_asnumpy', 'core_diss': 'core_dissociation', 'density_input': 'y_density_array_asnumpy', 'core_density_array': 'core_density_array_asnumpy',
          'ignore_index': 'ignore_index_fortran', 'mw_array': 'y_mw', 'DStar_org': 'DStar_org_asnumpy', 'alpha_d_org': 'alpha_d_org_asnumpy',
          'N_perbin': 'N_perbin', 'gamma_gas': 'gamma_gas_asnumpy', 'Latent_heat': 'Latent_heat_asnumpy', 'GRAV': 'GRAV', 'Updraft': 'Updraft',
          'sigma': 'sigma', 'NA': 'NA', 'kb': 'kb', 'Rv': 'Rv', 'R_gas': 'R_gas', 'cp': 'cp', 'Ra': 'Ra', 'Lv_water_vapour': 'Lv_water_vapour'}


class AeroEnv(Env):
    """cfg: ns species of the gas phase with water last, nc condensing at include (water last), nb bins; order: the arguments of the
    partitioning subroutine in the order of the emitted code, and outs its results; fm: exp, log, log10, pow on the numbers in use"""

    def __init__(self, *a, fm=None, **k):
        Env.__init__(self, *a, **k)
        self.fm, self.calls, self.pickles = fm, [], {}

    def dims(self):
        c = self.cfg
        d = {n: c['nb'] for n in PER_BIN}
        d.update({n: c['nc'] for n in PER_COND})
        d['y'] = c['ns'] + c['nc'] * c['nb']
        d['ignore_index'] = c['ns']
        return d

    def partition(self):
        env, c = self, self.cfg
        dims = self.dims()
        low = {n.lower(): n for n in c['order']}

        def dydt_partition(*args, **kw):
            if len(args) > len(c['order']):
                raise Shape('partitioning called with %d arguments' % len(args))
            got = dict(zip(c['order'], args))
            for k, v in kw.items():
                if k not in low or low[k] in got:
                    raise Shape('partitioning has no argument %s left' % k)
                got[low[k]] = v
            for n in c['order']:
                if n not in got:
                    raise Shape('partitioning is called without %s' % n)
                v = got[n]
                if n in dims:
                    v = flat(v) if not isinstance(v, (int, float)) else [v]
                    if len(v) != dims[n]:
                        raise Shape('partitioning gets %d values of %s instead of %d' % (len(v), n, dims[n]))
                elif hasattr(v, 'ravel') or isinstance(v, (list, tuple)):
                    v = flat(v)[0]
                got[n] = v
            k = len(env.calls)
            out = {'total_SOA_mass': env.fresh('soa_%d' % k), 'aw_array': env.array(env.vec('aw_%d' % k, c['nb'])),
                   'size_array': env.array(env.vec('size_%d' % k, c['nb'])), 'dy_dt': env.array(env.vec('part_%d' % k, dims['y']))}
            env.calls.append(dict(args=got, out={n: (list(v) if hasattr(v, 'ravel') else v) for n, v in out.items()}, batch=len(env.batches) - 1))
            low2 = {n.lower(): v for n, v in out.items()}
            return tuple(low2[n.lower()] for n in c['outs'])
        return {'partition_f2py': stub('partition_f2py', dydt_partition=dydt_partition)}

    def pickle(self):
        def dump(obj, handle, *a, **k):
            self.pickles[str(handle.name)] = obj
        return {'pickle': stub('pickle', dump=dump, HIGHEST_PROTOCOL=4, load=None)}

    def simulate(self, sim, tfinal):
        env = self
        rhs = sim.problem.rhs

        def counted(t, y):
            d = rhs(t, y)
            env.lastcalls.append(len(env.calls) - 1)
            return d
        self.lastcalls = []
        sim.problem.rhs = counted
        try:
            r = Env.simulate(self, sim, tfinal)
        finally:
            sim.problem.rhs = rhs
        for ev, q in zip(self.batches[-1]['evals'], self.lastcalls):
            ev['call'] = q
        return r

    def psat(self):
        T, f = self.cfg['temp'], self.fm
        water = f['exp'](-0.58002206E4 / T + 0.13914993E1 - 0.48640239E-1 * T + 0.41764768E-4 * (T * T) - 0.14452093E-7 * (T * T * T) + 0.65459673E1 * f['log'](T))
        sv = list(self.cfg['inp']['sat_vp'])[:-1]
        return [f['pow'](10.0, x) for x in sv] + [f['pow'](10.0, f['log10'](water * 9.86923E-6))]

    def expected_args(self, y):
        c, D = self.cfg, self.cfg['inp']
        e = {n: D[k] for n, k in DIRECT.items()}
        e['y'] = y
        e['Model_temp'] = c['temp']
        e['core_mass_array'] = [a / D['NA'] * b for a, b in zip(D['ycore_asnumpy'], D['core_molw_asnumpy'])]
        e['Psat'] = self.psat()
        e['C_g_i_t'] = [y[i] for i in c['include']]
        return e

    def claims_args(self):
        for k, b in enumerate(self.batches):
            for q, ev in enumerate(b['evals']):
                yield ('partitioning is evaluated', ev['call'] >= 0)
                if ev['call'] < 0:
                    continue
                got, want = self.calls[ev['call']]['args'], self.expected_args(ev['y'])
                for n in self.cfg['order']:
                    if n in self.dims():
                        for i, (g, x) in enumerate(zip(got[n], list(want[n]))):
                            yield ('batch %d, evaluation %d: %s(%d) given to partitioning' % (k, q, n, i), g, x)
                    else:
                        yield ('batch %d, evaluation %d: %s given to partitioning' % (k, q, n), got[n], want[n])

    def claims_rhs(self):
        c = self.cfg
        tot = self.dims()['y']
        for k, b in enumerate(self.batches):
            for q, ev in enumerate(b['evals']):
                lab = 'batch %d, evaluation %d: ' % (k, q)
                yield (lab + 'one tendency per component', len(ev['d']) == tot)
                if len(ev['d']) != tot or ev['call'] < 0:
                    continue
                part = self.calls[ev['call']]['out']['dy_dt']
                gas = self.gas(k, ev['s'], ev['y']) if c['chem'] else []
                for i in range(tot):
                    x = part[i] + gas[i] if i < len(gas) else part[i]
                    yield (lab + 'tendency of component %d' % i, ev['d'][i], x)
                for g, x in zip(ev['after'], ev['y']):
                    yield ('the state handed to the right-hand side is not changed', g, x)

    def elapsed_rhs(self, k):
        return self.elapsed(k)

    def claims_initial(self):
        c = self.cfg
        y0 = self.batches[0]['y0']
        yield ('one initial value per component', len(y0) == self.dims()['y'])
        if len(y0) != self.dims()['y']:
            return
        if c['chem']:
            for s, i in c['s2a'].items():
                x = 0.0 if s not in c['init'] else c['init'][s] if s == 'H2O' else c['init'][s] * 2.55e10
                yield ('initial gas concentration of %s' % s, y0[i], x)
        else:
            for i in range(c['ns']):
                yield ('initial gas concentration of species %d' % i, y0[i], c['inp']['y_gas_initial'][i])
        for i in range(c['nc'] * c['nb']):
            yield ('initial condensed amount %d' % i, y0[c['ns'] + i], c['inp']['y_cond_initial'][i])

    def claims_saved(self, pick):
        """pick: file name -> content"""
        B, c = self.batches, self.cfg

        def one(part):
            f = [v for k, v in pick.items() if part in k]
            return f[0] if len(f) == 1 else None
        y, t, soa, size, inc = [one(p) for p in ('_y_output', '_t_output', '_SOA_output', '_size_output', 'include_index')]
        yield ('concentrations, times, organic mass, sizes and the condensing species are saved', all(x is not None for x in (y, t, soa, size, inc)))
        if any(x is None for x in (y, t, soa, size, inc)):
            return
        yield from self.claims_batches(t, y)
        yield ('the saved condensing species are those of the run', [int(i) for i in inc] == list(c['include']))
        yield ('one organic mass and one set of sizes per batch', len(soa) == len(B) and len(size) == len(B))
        if len(soa) != len(B) or len(size) != len(B):
            return
        for k in range(len(B)):
            last = [q for q in self.calls if q['batch'] == k][-1:]
            yield ('partitioning runs in batch %d' % k, len(last) == 1)
            if not last:
                continue
            yield ('organic mass of batch %d' % k, flat(soa[k])[0], last[0]['out']['total_SOA_mass'])
            g = flat(size[k])
            yield ('one size per bin in batch %d' % k, len(g) == c['nb'])
            for i, (a, b) in enumerate(zip(g, last[0]['out']['size_array'])):
                yield ('size of bin %d in batch %d' % (i, k), a, b)


def aero_inputs(cfg, num, array):
    """input_dict of the aerosol solvers; num(name) gives a number"""
    ns, nc, nb = cfg['ns'], cfg['nc'], cfg['nb']
    V = lambda n, k: array([num('%s_%d' % (n, i)) for i in range(k)])
    d = dict(species_dict={i: s for i, s in enumerate(cfg['s2a'])}, species_dict2array=dict(cfg['s2a']), equations=cfg['e'], num_species=ns,
             num_species_condensed=nc, num_bins=nb, include_index=list(cfg['include']), ignore_index=[i for i in range(ns) if i not in cfg['include']],
             ignore_index_fortran=array([0.0 if i in cfg['include'] else 1.0 for i in range(ns)]))
    for n in ('y_density_array_asnumpy', 'Latent_heat_asnumpy', 'DStar_org_asnumpy', 'alpha_d_org_asnumpy', 'gamma_gas_asnumpy', 'y_mw'):
        d[n] = V(n, nc)
    for n in ('sat_vp', 'Delta_H'):
        d[n] = list(V(n, nc))
    for n in ('ycore_asnumpy', 'core_density_array_asnumpy', 'core_molw_asnumpy', 'N_perbin'):
        d[n] = V(n, nb)
    for n in ('Updraft', 'GRAV', 'Rv', 'Ra', 'R_gas', 'R_gas_other', 'cp', 'sigma', 'NA', 'kb', 'Lv_water_vapour', 'core_dissociation'):
        d[n] = num(n)
    d['y_cond_initial'] = list(V('y_cond', nc * nb))
    if cfg['chem']:
        d['species_initial_conc'] = dict(cfg['init'])
    else:
        d['y_gas_initial'] = list(V('y_gas', ns))
    return d


def aero_kwargs(cfg, ro2):
    kw = dict(filename='m', save_output=True, start_time=cfg['start_time'], temp=cfg['temp'], RH=cfg['RH'], H2O=cfg['H2O'], PInit=98000.0,
              y_cond=list(cfg['inp']['y_cond_initial']), simulation_time=cfg['simulation_time'], batch_step=cfg['batch_step'])
    d = cfg['inp']
    kw['input_dict'] = {k: (v.copy() if hasattr(v, 'ravel') else list(v) if isinstance(v, list) else v) for k, v in d.items()}
    if cfg['chem']:
        kw.update(RO2_indices=ro2, plot_mass=False)
    return kw
