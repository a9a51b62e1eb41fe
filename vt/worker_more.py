def rates_full(texts, names, points, backend, chained=False):
    """rate file for names + texts through the real conversion; values at points (ttime, RO2, H2O, temp)"""
    all_ = list(names) + list(texts)
    if chained:
        R = mod('rate_coeff_conversion.py')
        d = R.convert_rate_mcm_fortran({i: t for i, t in enumerate(all_)})
        all_ = [d[i] for i in range(len(all_))]
    return rates(all_, points, backend)


def ro2(species):
    P = mod('Parse_eqn_file.py')
    P.write_RO2_indices('m', {s: i for i, s in enumerate(species)})
    a = np.load('m_RO2_indices.npy')
    r = {'indices': [int(x) for x in a]}
    try:
        np.sum(np.ones(len(species))[a])
    except Exception as e:
        r['sum_error'] = repr(e)
    return r


# ------------------------------------------------------------------ solver modules
def _sm():
    import importlib.util
    p = os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'solvermodel.py')
    s = importlib.util.spec_from_file_location('solvermodel', p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def _judge(claims):
    bad = []
    for cl in claims:
        if len(cl) == 2:
            if not cl[1]:
                bad.append(cl[0])
        elif len(cl) == 3:
            a, b = float(cl[1]), float(cl[2])
            if not (a == a and abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-13):
                bad.append('%s: %r instead of %r' % cl)
        else:
            a, b = float(cl[2]), float(cl[3])
            tol = 1e-9 * max(abs(a), abs(b))
            if not (a <= b + tol if cl[1] == '<=' else a < b - tol):
                bad.append('%s: %r %s %r' % (cl[0], a, cl[1], b))
    return bad


def _fresher(cfg):
    n, box = [0], {}

    def fr(name):
        n[0] += 1
        if name.startswith('s_'):
            q = int(name.split('_')[2])
            return box['t0'] + (box['t1'] - box['t0']) * (0.3 + 0.45 * q)
        v = 0.37 + (n[0] * 0.61803398875) % 1.9
        if cfg.get('spread') and name.startswith('y'):
            h = zlib.crc32(('%s/%d/%d' % (name, n[0], cfg['spread'])).encode())
            return v * 10.0 ** (h % 9 - 6) * (-1 if (h >> 9) % 4 == 0 else 1)
        # an integrator may leave a component slightly below zero
        return -v if cfg.get('negative') and name.startswith('y') and n[0] % 3 == 0 else v
    return fr, box


def _env(cfg):
    sm = _sm()
    fr, box = _fresher(cfg)
    env = sm.Env(cfg, sm.smooth, fr, lambda x: np.array(x, dtype=float), lambda a, s, b: None)
    sim = env.simulate

    def simulate(s, tfinal):
        box['t0'], box['t1'] = s.t, tfinal
        return sim(s, tfinal)
    env.simulate = simulate
    return sm, env


def _plain_modules(sm, mods):
    for k, m in mods.items():
        sys.modules[k] = m


def solver_gas(variant, cfg, focus):
    sm, env = _env(cfg)
    z = lambda sh: np.zeros(sh)
    _plain_modules(sm, env.assimulo())
    _plain_modules(sm, env.numba())
    _plain_modules(sm, env.f2py(z))
    mp = sm.AnyModule('matplotlib')
    sys.modules['matplotlib'] = mp
    sys.modules['matplotlib.pyplot'] = mp
    if focus == 'plots':
        import math
        pm = _beside('plotmodel')
        rec = pm.Recorder()
        sys.modules.update(rec.pyplot())
    m = mod({'numba': 'ODE_solver.py', 'f2py': 'f2py/ODE_solver.py'}[variant])
    inp = dict(species_dict={i: s for i, s in enumerate(cfg['s2a'])}, species_dict2array=dict(cfg['s2a']),
               species_initial_conc=dict(cfg['init']), equations=cfg['e'])
    kw = dict(filename='m', save_output=True, start_time=cfg['start_time'], temp=cfg['temp'], RH=cfg['RH'],
              RO2_indices=np.array(cfg['ro2'], dtype=int), H2O=cfg['H2O'], input_dict=inp, simulation_time=cfg['simulation_time'],
              batch_step=cfg['batch_step'])
    out = quiet(m.run_simulation, **kw)
    if not env.batches:
        return {'bad': ['no batch was run']}
    if focus == 'plots':
        return {'bad': _judge(pm.gas_claims(cfg, rec.figures, env.batches, env.elapsed, math.log10))}
    if focus == 'rhs':
        return {'bad': _judge(env.claims_rhs())}
    if focus == 'initial':
        return {'bad': _judge(env.claims_initial())}
    saved = np.load('m_output.npy')
    t_array = None
    bad = []
    if isinstance(out, tuple) and len(out) == 2:
        t_array, y2 = out
        if np.shape(y2) != saved.shape or not np.allclose(y2, saved):
            bad.append('saved and returned output differ')
    bad += _judge(env.claims_batches(t_array, saved))
    import csv
    import gc
    gc.collect()
    rows = list(csv.reader(open('m_output_names.csv')))
    if sorted((a, int(b)) for a, b in rows if a) != sorted(cfg['s2a'].items()):
        bad.append('names file %s does not map every species to its column' % rows)
    import pandas
    fr = pandas.read_csv('m_output_matrix.csv', index_col=0).values
    if fr.shape != saved.shape or not np.allclose(fr, saved):
        bad.append('csv table differs from the saved output')
    return {'bad': bad}


# ------------------------------------------------------------------ partitioning
def _partition_source(cfg):
    P = mod('Parse_eqn_file.py')
    ns, nc, nb = cfg['ns'], cfg['nc'], cfg['nb']
    if cfg['variant'] == 'ignore':
        quiet(P.write_partitioning_section_fortran_ignore, ns + nc * nb, nb, ns, nc, list(cfg['include']))
    else:
        quiet(P.write_partitioning_section_fortran, ns + ns * nb, nb, ns)


def _partition_driver(cfg, args, body):
    ns, nc, nb = cfg['ns'], cfg['nc'], cfg['nb']
    bins = ('ycore', 'core_mass_array', 'core_density_array', 'N_perbin')
    cond = ('density_input', 'mw_array', 'Psat', 'DStar_org', 'alpha_d_org', 'C_g_i_t', 'gamma_gas', 'Latent_heat')
    ny = ns + nc * nb
    dim = {n: nb for n in bins}
    dim.update({n: nc for n in cond})
    dim['y'] = ny
    d, r = [], []
    for n in args:
        if n == 'ignore_index':
            d.append('integer(8) :: ignore_index(%d)' % ns)
        elif n in dim:
            d.append('real(8) :: %s(%d)' % (n, dim[n]))
        else:
            d.append('real(8) :: ' + n)
        r.append('read(*,*,iostat=ios) %s\nif(ios/=0) exit' % n)
    d.append('real(8) :: soa, aw(%d), sz(%d), dy(%d), dy0(%d), sz0(%d), err\ninteger :: ios, k' % (nb, nb, ny, ny, nb))
    call = 'call dydt_partition(%s,soa,aw,sz,dy)' % ','.join(args)
    return 'program d\nimplicit none\n%s\ndo\n%s\n%s\nend do\nend program\n' % ('\n'.join(d), '\n'.join(r), body.replace('CALL', call))


def _partition_stdin(args, p, cfg):
    s = []
    for n in args:
        if n == 'ignore_index':
            s.append('\n'.join(str(int(x)) for x in cfg['ignored']))
            continue
        v = p[n] if isinstance(p[n], list) else [p[n]]
        s.append(num(v).rstrip('\n'))
    return '\n'.join(s) + '\n'


def partition(cfg, args, points):
    _partition_source(cfg)
    drv = _partition_driver(cfg, args, 'soa=-1\naw=-1\nsz=-1\ndy=-1\nCALL\nwrite(*,"(ES30.17E4)") soa,aw,sz,dy')
    q = fortran(['Partitioning.f90'], drv, ''.join(_partition_stdin(args, p, cfg) for p in points))
    if 'exception' in q:
        return q
    v = q['values']
    n = len(v) // len(points)
    return {'points': [v[i * n:(i + 1) * n] for i in range(len(points))]}


def partition_threads(cfg, args, point):
    """serial build against 8 threads, many repetitions, many bins"""
    big = dict(cfg, nb=64)
    p = dict(point)
    nb, ns, nc = cfg['nb'], cfg['ns'], cfg['nc']
    for n in ('ycore', 'core_mass_array', 'core_density_array', 'N_perbin'):
        p[n] = [p[n][i % nb] * (1 + 0.01 * i) for i in range(64)]
    p['y'] = p['y'][:ns] + [p['y'][ns + i % (nc * nb)] * (1 + 0.003 * i) for i in range(64 * nc)]
    _partition_source(big)
    drv = _partition_driver(big, args, 'CALL\nwrite(*,"(ES30.17E4)") soa,aw,sz,dy')
    s = _partition_stdin(args, p, cfg)
    a = fortran(['Partitioning.f90'], drv, s)
    b = fortran(['Partitioning.f90'], drv, s * 3000, openmp=True, threads=8)
    for q in (a, b):
        if 'exception' in q:
            return q
    n = len(a['values'])
    for k in range(3000):
        for i in range(n):
            x, y = b['values'][k * n + i], a['values'][i]
            if not abs(x - y) <= 1e-9 * abs(y) + 1e-200:
                return {'bad': 'with 8 threads output element %d is %r in call %d, serially %r (64 bins)' % (i, x, k, y)}
    return {'bad': None}


def rates_omp(n, cores):
    import multiprocessing
    multiprocessing.cpu_count = lambda: cores
    P = mod('Parse_eqn_file.py')
    quiet(P.write_rate_file_fortran, 'm', {i: '%d.0D0*TEMP+RO2*H2O' % (i + 2) for i in range(n)}, True)
    drv = ('program d\nreal(8) :: o(%d)\ninteger :: k\ndo k=1,200\no=-1\ncall evaluate_rates(3.0D0,5.0D0,290.0D0,43200.0D0,o)\n'
           'write(*,"(ES30.17E4)") o\nend do\nend program\n' % n)
    q = fortran(['Rate_coefficients.f90'], drv, openmp=True, threads=8)
    if 'exception' in q:
        return q
    v = q['values']
    return {'runs': [v[i * n:(i + 1) * n] for i in range(len(v) // n)]}


def lognormal(n, args):
    import types
    for k in ('matplotlib', 'matplotlib.pyplot'):
        try:
            __import__(k)
        except Exception:
            sys.modules[k] = types.ModuleType(k)
    if not hasattr(sys.modules['matplotlib'], 'pyplot'):
        sys.modules['matplotlib'].pyplot = sys.modules['matplotlib.pyplot']
    m = mod('Aerosol/Size_distributions.py')
    N, x = m.lognormal(n, *args)
    return {'N': [float(v) for v in N], 'x': [float(v) for v in x]}


# ------------------------------------------------------------------ component properties
def _beside(name):
    import importlib.util
    p = os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), name + '.py')
    s = importlib.util.spec_from_file_location(name, p)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def _pm():
    return _beside('propmodel')


def pure1(cfg):
    sm, pm = _sm(), _pm()
    lib = pm.Lib(sm.smooth, lambda n: sm.smooth(n, []))
    sys.modules.update(lib.modules())
    m = mod('Aerosol/Property_calculation.py')
    a = pm.inputs(cfg, lib)
    if isinstance(cfg['cutoff'], str):      # the vapour pressure of that species itself
        mol = a['Pybel_object_dict'][a['SMILES_dict'][cfg['cutoff']]]
        cfg['cutoff'] = a['vp_cutoff'] = lib.vp(cfg['vp'], mol, cfg['temp'], lib.bp(cfg['bp'], mol))
    out = quiet(m.Pure_component1, **a)
    return {'bad': _judge(pm.claims1(cfg, lib, a, out, lambda x, y: x <= y))}


def pure2(n, mw, R_gas, temp):
    import math
    sm, pm = _sm(), _pm()
    sys.modules.update(pm.Lib(sm.smooth, lambda n: 1.0).modules())
    m = mod('Aerosol/Property_calculation.py')
    out = quiet(m.Pure_component2, n, list(mw), R_gas, temp)
    bad = []
    for k in ('alpha_d_org', 'DStar_org', 'mean_them_vel', 'gamma_gas'):
        if len(out[k]) != n:
            return {'bad': ['%s has %d entries' % (k, len(out[k]))]}
    for i in range(n):
        D = 1.9 * mw[i] ** (-2.0 / 3.0)
        v = math.sqrt(8 * R_gas * temp / (math.pi * mw[i] * 1e-3))
        for k, e in (('alpha_d_org', 0.1), ('DStar_org', D), ('mean_them_vel', v), ('gamma_gas', 3 * D / (v * 100) / 100)):
            if not abs(float(out[k][i]) - e) <= 1e-9 * abs(e):
                bad.append('%s[%d] is %r instead of %r' % (k, i, float(out[k][i]), e))
    return {'bad': bad}


def solver_aero(variant, cfg, focus):
    import math
    import pickle
    sm, env0 = _env(cfg)
    env = sm.AeroEnv(cfg, env0.fun, None, env0.array, env0.between, eval_jac=False,
                     fm=dict(exp=math.exp, log=math.log, log10=math.log10, pow=lambda a, b: a ** b))
    fresh, box = _fresher(cfg)
    env.fresh = fresh
    sim = env.simulate

    def simulate(s, tfinal):
        box['t0'], box['t1'] = s.t, tfinal
        return sim(s, tfinal)
    env.simulate = simulate
    cfg['inp'] = sm.aero_inputs(cfg, lambda n: round(0.6 + (sum(ord(ch) * (7 * i + 3) for i, ch in enumerate(n)) % 997) / 700.0, 6), lambda x: np.array(x, dtype=float))
    if focus == 'plots':
        cfg['inp']['NA'] *= 1e12
    z = lambda sh: np.zeros(sh)
    for m in (env.assimulo(), env.numba(), env.f2py(z), env.partition()):
        _plain_modules(sm, m)
    for n in ('matplotlib', 'matplotlib.pyplot', 'Plotting'):
        sys.modules[n] = sm.AnyModule('matplotlib')
    rec = None
    if focus == 'plots':
        pm = _beside('plotmodel')
        rec = pm.Recorder()
        sys.modules.update(rec.modules())
        if variant == 'fixed yield':
            sys.modules['Plotting'] = mod('Aerosol/f2py/Fixed_yield/Plotting.py')
    m = mod({'aerosol': 'Aerosol/f2py/ODE_solver.py', 'fixed yield': 'Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'}[variant])
    kw = sm.aero_kwargs(cfg, np.array(cfg['ro2'], dtype=int))
    if focus == 'plots' and variant == 'aerosol':
        kw['plot_mass'] = True
    quiet(m.run_simulation, **kw)
    if not env.batches:
        return {'bad': ['no batch was run']}
    if focus == 'plots':
        import re
        get = lambda q: [pickle.load(open(f, 'rb')) for f in os.listdir('.') if q in f and f.endswith('.pickle')][0]

        def value(s):
            x = re.findall(r'-?\d+\.\d+(?:[eE][-+]?\d+)?', str(s))
            return float(x[-1]) if x else None
        return {'bad': _judge(pm.claims(variant, cfg, rec.figures, get('_t_output'), get('_y_output'), get('_SOA_output'), value))}
    if focus == 'rhs':
        return {'bad': _judge(env.claims_rhs())}
    if focus == 'args':
        return {'bad': _judge(env.claims_args())}
    if focus == 'initial':
        return {'bad': _judge(env.claims_initial())}
    pick = {f: pickle.load(open(f, 'rb')) for f in os.listdir('.') if f.endswith('.pickle')}
    bad = _judge(env.claims_saved(pick))
    if variant == 'fixed yield':
        import pandas
        for p in ('_y_output', '_t_output', '_SOA_output', '_size_output'):
            a = [v for k, v in pick.items() if p in k]
            f = [n for n in os.listdir('.') if p in n and n.endswith('.csv')]
            if len(a) != 1 or len(f) != 1:
                bad.append('no csv table %s' % p)
                continue
            t = pandas.read_csv(f[0], index_col=0).values
            if t.size != np.size(a[0]) or not np.allclose(np.ravel(t), np.ravel(a[0])):
                bad.append('csv table %s differs from the saved output' % p)
    return {'bad': bad}


# ------------------------------------------------------------------ structures and yields
def _pybel():
    import types
    pb = types.ModuleType('pybel')

    class Mol:
        def __init__(self, key):
            self.key = key
    pb.readstring = lambda fmt, s, *a: Mol(s)
    sys.modules['pybel'] = pb


def yields(text):
    _pybel()
    P = mod('Parse_eqn_file.py')
    with open('y.txt', 'w') as f:
        f.write(text)
    o = quiet(P.extract_species, 'y.txt')
    mols = {k: v.key for k, v in o['Pybel_object_dict'].items()}
    conc = {}
    for k, v in o['Pybel_object_dict'].items():
        if v in o['concentration_dict']:
            conc[k] = o['concentration_dict'][v]
    return {'n': o['species_number'], 's2a': dict(o['species_dict2array']), 'sd': {str(k): v for k, v in o['species_dict'].items()}, 'mols': mols, 'conc': conc,
            'smiles': dict(o['SMILES_dict']), 'smiles_array': list(o['smiles_array']), 'conc_array': [float(x) for x in o['concentration_array']]}


def structures(xml, species):
    from xml.sax.saxutils import escape, quoteattr
    _pybel()
    P = mod('Parse_eqn_file.py')
    t = '<?xml version="1.0"?>\n<mechanism><species_defs>\n'
    for i, (n, s) in enumerate(xml):
        t += '<species species_number="%d" species_name=%s>\n' % (i, quoteattr(n))
        if s is not None:
            t += '<smiles>%s</smiles>' % escape(s)
        t += '<inchi>InChI=1S/CH4/h1H4</inchi></species>\n'
    with open('MCM.xml', 'w') as f:
        f.write(t + '</species_defs></mechanism>\n')
    o = quiet(P.extract_smiles_species, {'species_dict': {i: s for i, s in enumerate(species)}, 'species_dict2array': {s: i for i, s in enumerate(species)}, 'max_equations': 7}, 'MCM.xml')
    return {'smiles': dict(o['SMILES_dict']), 'mols': {k: v.key for k, v in o['Pybel_object_dict'].items()}, 'kept': o.get('max_equations') == 7}


# ------------------------------------------------------------------ driver scripts
def driver(kind, lay, focus, k):
    import builtins
    import importlib.util
    import math
    sm = _sm()
    p = os.path.join(os.path.dirname(os.path.abspath(sys.argv[0])), 'drivermodel.py')
    s = importlib.util.spec_from_file_location('drivermodel', p)
    dm = importlib.util.module_from_spec(s)
    s.loader.exec_module(dm)

    def num(n):
        v = {'temp': 288.15 + 6.7 * k, 'RH': 0.25 + 0.3 * k, 'NA': 6.0221409e23, 'kb': 1.380648e-23}.get(n)
        return v if v is not None else round(0.6 + (sum(ord(ch) * (7 * i + 3) for i, ch in enumerate(n + str(k))) % 997) / 700.0, 6)
    cache = {}

    def real(path, over):
        if path not in cache:
            sys.modules.setdefault('pybel', dm.AnyModule('pybel'))
            m = mod(path)
            for q, f in over.items():
                setattr(m, q, f)
            cache[path] = m
        return cache[path]

    def drop(n):
        if '/' not in n and os.path.isfile(n):
            os.unlink(n)
    H = dm.Host(kind, lay, REPO, num, sm.smooth, lambda x: np.array(x, dtype=float), np, real, lambda n, v: np.save(n, np.array(v, dtype=int)), drop)
    code = compile(dm.transformed(os.path.join(REPO, dm.DRIVERS[kind])), dm.DRIVERS[kind], 'exec')

    def go():
        mods = H.modules(None)
        b = dict(builtins.__dict__)
        imp = builtins.__import__

        def my(name, globals=None, locals=None, fromlist=(), level=0):
            if name in mods:
                return mods[name] if fromlist or '.' not in name else mods.get(name.split('.')[0], mods[name])
            return imp(name, globals, locals, fromlist, level)
        b['__import__'] = my
        b['open'] = H.open
        b['print'] = lambda *a, **kw: None
        quiet(exec, code, {'__builtins__': b, '__name__': '__main__', '__setting': H.setting, '__file__': dm.DRIVERS[kind]})
    go()
    if focus == 'files':
        conv = {}
        for w in ('convert_rate_mcm_numba', 'convert_rate_mcm_fortran'):
            conv[w] = dict(getattr(mod('rate_coeff_conversion.py'), w)(dict(dm.RATES)))
        return {'bad': _judge(H.claims_files(conv))}
    if focus == 'restart':
        if 'files_exist' not in H.settings:
            return {'bad': []}
        H.exist, H.events = True, []
        go()
    fm = dict(exp=math.exp, log=math.log, log10=math.log10)
    return {'bad': _judge(H.claims_run(fm))}
