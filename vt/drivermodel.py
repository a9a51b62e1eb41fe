"""What surrounds the driver scripts (Gas_simulation.py and its f2py, aerosol and fixed-yield variants).

The settings a user edits at the top of a driver are replaced by given numbers; files, compilers, property libraries and the
ODE solver are stand-ins that record what they are handed.  Used symbolically and, for replay, with plain numbers.
Nothing here imports z3."""
import ast
import io
import os
import re
import types

DRIVERS = {'gas numba': 'Gas_simulation.py', 'gas f2py': 'f2py/Gas_simulation_f2py.py', 'aerosol': 'Aerosol/f2py/Aerosol_simulation_f2py.py',
           'fixed yield': 'Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py'}
SOLVERS = {'gas numba': 'ODE_solver.py', 'gas f2py': 'f2py/ODE_solver.py', 'aerosol': 'Aerosol/f2py/ODE_solver.py',
           'fixed yield': 'Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py'}
SOLVERMOD = {k: os.path.basename(v)[:-3] for k, v in SOLVERS.items()}

# values a run may take instead of those written in the driver
FREE = ['temp', 'RH', 'hour_of_day', 'simulation_time', 'batch_step', 'PInit', 'Updraft', 'Lv_water_vapour', 'Rv', 'Ra', 'R_gas', 'R_gas_other', 'GRAV', 'cp', 'sigma', 'NA', 'kb',
        'vp_cutoff', 'core_dissociation', 'total_conc', 'std', 'lowersize', 'uppersize', 'meansize', 'total_voc_mass', 'voc_mw']
# physical constants (SI, with the unit conventions of the code) and how far the written value may be off
PHYSICAL = {'NA': (6.02214076e23, 1e-4), 'kb': (1.380649e-23, 1e-4), 'R_gas': (8.314462618, 1e-4), 'GRAV': (9.80665, 2e-3), 'R_gas_other': (8.2057e-5, 1e-3),
            'Rv': (461.5, 5e-3), 'Ra': (287.05, 5e-3), 'cp': (1005.0, 5e-3), 'sigma': (72.0e-3, 3e-2), 'Lv_water_vapour': (2.5e3, 3e-2)}

# generated module -> (source file, functions that write it); None: imported as it is written
MODULES = {'rate_coeff_f2py': ('Rate_coefficients.f90', ['write_rate_file_fortran']), 'reactants_conc_f2py': ('Reactants_conc.f90', ['write_reactants_indices_fortran']),
           'loss_gain_f2py': ('Loss_Gain.f90', ['write_loss_gain_fortran']), 'jacobian_f2py': ('Jacobian.f90', ['write_gas_jacobian_fortran']),
           'partition_f2py': ('Partitioning.f90', ['write_partitioning_section_fortran_ignore']),
           'Rate_coefficients_numba': (None, ['write_rate_file_numba']), 'Reactants_conc_numba': (None, ['write_reactants_indices']),
           'Loss_Gain_numba': (None, ['write_loss_gain_matrix']), 'Jacobian_numba': (None, ['write_gas_jacobian_numba'])}
WRITERS = ['write_rate_file', 'write_rate_file_numba', 'write_rate_file_fortran', 'write_RO2_indices', 'write_reactants_indices', 'write_reactants_indices_fortran', 'write_loss_gain_matrix',
           'write_loss_gain_fortran', 'write_gas_jacobian_fortran', 'write_gas_jacobian_numba', 'write_partitioning_section_fortran', 'write_partitioning_section_fortran_ignore']


NAMES = ['APINENE', 'O3', 'C2O', 'PINONIC', 'C107O2', 'CH4', 'BUT1ENE', 'C10', 'CO', 'HCHO', 'TOLUENE', 'C3H8']
COMPOUNDS = ['CCO', 'C=O', 'CC(=O)O', 'OCC', 'C', 'CC', 'CCC', 'OC=O', 'O=CC=O', 'CCCC', 'CO', 'C1CC1']


class Settings(ast.NodeTransformer):
    """x = <constant> and x['key'] = <constant>  ->  __setting(name, constant)"""

    def const(self, v):
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, (ast.USub, ast.UAdd)):
            v = v.operand
        return isinstance(v, ast.Constant) and isinstance(v.value, (int, float, bool))

    def wrap(self, nm, v):
        c = ast.copy_location(ast.Call(ast.Name('__setting', ast.Load()), [ast.copy_location(ast.Constant(nm), v), v], []), v)
        return ast.fix_missing_locations(c)

    def visit_AnnAssign(self, n):
        if n.value is not None and isinstance(n.target, ast.Name) and self.const(n.value):
            n.value = self.wrap(n.target.id, n.value)
        return n

    def visit_Assign(self, n):
        t, v = n.targets[0], n.value
        if len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            for i, (q, x) in enumerate(zip(t.elts, v.elts)):
                if isinstance(q, ast.Name) and self.const(x):
                    v.elts[i] = self.wrap(q.id, x)
        elif len(n.targets) == 1 and isinstance(t, ast.Name) and isinstance(v, ast.Dict):
            for i, (q, x) in enumerate(zip(v.keys, v.values)):
                if isinstance(q, ast.Constant) and isinstance(q.value, str) and self.const(x):
                    v.values[i] = self.wrap('%s[%s]' % (t.id, q.value), x)
        elif len(n.targets) == 1 and isinstance(t, ast.Name) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict':
            for q in v.keywords:
                if q.arg and self.const(q.value):
                    q.value = self.wrap('%s[%s]' % (t.id, q.arg), q.value)
        elif len(n.targets) == 1 and self.const(n.value):
            nm = None
            if isinstance(t, ast.Name):
                nm = t.id
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                s = t.slice
                s = s.value if type(s).__name__ == 'Index' else s
                if isinstance(s, ast.Constant) and isinstance(s.value, str):
                    nm = '%s[%s]' % (t.value.id, s.value)
            if nm:
                n.value = self.wrap(nm, n.value)
        return n


def transformed(path):
    return ast.fix_missing_locations(Settings().visit(ast.parse(open(path, encoding='utf-8').read())))


def signatures(path):
    """function name -> parameter names, defaults, of the current source"""
    out = {}
    for n in ast.walk(ast.parse(open(path, encoding='utf-8').read())):
        if isinstance(n, ast.FunctionDef) and n.name not in out:
            out[n.name] = ([a.arg for a in n.args.posonlyargs + n.args.args], len(n.args.defaults))
    return out


def bind(sig, name, a, k):
    if name not in sig:
        raise TypeError('%s does not exist' % name)
    names, nd = sig[name]
    if len(a) > len(names):
        raise TypeError('%s takes %d arguments' % (name, len(names)))
    d = dict(zip(names, a))
    for q, v in k.items():
        if q not in names or q in d:
            raise TypeError('%s: argument %s' % (name, q))
        d[q] = v
    for q in names[:len(names) - nd]:
        if q not in d:
            raise TypeError('%s: argument %s is missing' % (name, q))
    return d


class Mol:
    def __init__(self, key):
        self.key = key


def clone(o, memo=None):
    """what unpickling a pickle gives: equal values, new molecules, new containers"""
    memo = {} if memo is None else memo
    if isinstance(o, Mol):
        return memo.setdefault(id(o), Mol(o.key))
    if isinstance(o, dict):
        return {clone(k, memo): clone(v, memo) for k, v in o.items()}
    if isinstance(o, list):
        return [clone(v, memo) for v in o]
    if isinstance(o, tuple):
        return tuple(clone(v, memo) for v in o)
    if isinstance(o, set):
        return {clone(v, memo) for v in o}
    return o.copy() if hasattr(o, 'ravel') else o


class Dumped(bytes):
    """bytes of a pickle"""
    def __new__(cls, obj):
        b = bytes.__new__(cls, b'pickle')
        b.obj = clone(obj)
        return b


class Handle(io.StringIO):
    def __init__(self, host, name, mode):
        io.StringIO.__init__(self)
        self.name, self.host, self.wr = name, host, 'r' not in mode or '+' in mode

    def write(self, s):
        if isinstance(s, Dumped):
            self.host.put(self.name, s.obj)
        return len(s)

    def read(self, *a):
        v = self.host.files.get(self.name)
        return Dumped(v[1]) if v else io.StringIO.read(self, *a)


def local(name):
    name = os.fspath(name)
    return name[2:] if name.startswith('./') else name


def path_class(host):
    import fnmatch
    import pathlib

    class Path(pathlib.PurePosixPath):
        def __new__(cls, *a, **k):
            return pathlib.PurePosixPath.__new__(cls, *a)

        def open(self, mode='r', *a, **k): return host.open(str(self), mode)
        def exists(self): return str(self) in host.files or '__pycache__' in str(self) or str(self) == '.'
        def is_file(self): return str(self) in host.files
        def is_dir(self): return '__pycache__' in str(self) or str(self) == '.'
        def iterdir(self): return [Path(*(self.parts + (n,))) for n in (host.listing() if str(self) == '.' else [])]
        def glob(self, p): return [q for q in self.iterdir() if fnmatch.fnmatch(q.name, p)]
        def rglob(self, p): return self.glob(p)

        def unlink(self, missing_ok=False):
            if not self.is_file() and missing_ok:
                return
            host.remove(str(self))

        def resolve(self, *a): return self
        def absolute(self): return self
        def mkdir(self, *a, **k): host.event('call', 'os', (str(self),))
        rename = replace = rmdir = touch = chmod = mkdir

        def write_bytes(self, b):
            with self.open('wb') as h:
                return h.write(b)

        write_text = write_bytes

        def read_bytes(self):
            with self.open('rb') as h:
                return h.read()

        read_text = read_bytes

        @classmethod
        def cwd(cls): return cls('.')
    return Path


class Any:
    def __call__(self, *a, **k): return Any()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()

    def __iter__(self): return iter((Any(), Any()))
    def __getitem__(self, i): return Any()
    def __setitem__(self, i, v): pass


class AnyModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any()


class Shim(types.ModuleType):
    """overrides first, then the namespace of the real thing (loaded on demand)"""

    def __init__(self, name, over, rest):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(over)
        self.__dict__['_rest'] = rest

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        r = self.__dict__['_rest']()
        r = r if isinstance(r, dict) else r.__dict__
        if n not in r:
            raise AttributeError('%s has no %s' % (self.__name__, n))
        return r[n]


RATES = {0: '1.6D-12*EXP(-940/TEMP)', 1: 'J(4)', 2: '2.0D+3*KRO2NO*dlog(TEMP)', 3: '1.2D-12'}
JUNK = ['Rate_coefficients.f90', 'old_output.npy', 'MCM_APINENE_species_dict.pickle', 'left.npz', 'other.eqn.txt', 'f2py_partition.py', 'ODE_solver.py', 'MCM_yield.txt', 'notes.txt',
        'rate_coeff_f2py.cpython-36m-x86_64-linux-gnu.so', 'README.md', 'MCM.xml', 'Partitioning.f90', 'Loss_Gain.f90', 'Reactants_conc.f90', 'Jacobian.f90', 'partition_f2py.cpython-36m-x86_64-linux-gnu.so', 'MCM_APINENE.eqn.txt',
        'Loss_Gain_numba.py', 'Jacobian_numba.py', 'Reactants_conc_numba.py', 'Rate_coefficients_numba.py', 'MCM_APINENE_RO2_indices.npy', 'MCM_APINENE_equations.pickle']
GENERATED = ('.f90', '.npy', '.pickle', '.npz', '.eqn.txt', '.so', '.nbi', '.nbc', '.pyc', '.mod', '.o')


class Missing(KeyError):
    """an input that is not handed to the solver"""


class Given(dict):
    def __missing__(self, k):
        raise Missing(k)


class Host:
    """one world: kind, layout, numbers.  num(name): a number; fun(name, args): an unknown function; array(list): a vector;
    np: the numpy in use; real(path): namespace of the real module with everything outside stubbed"""

    def __init__(self, kind, lay, repo, num, fun, array, np, real, store, drop):
        self.kind, self.lay, self.repo, self.num, self.fun, self.array, self.np, self.real = kind, lay, repo, num, fun, array, np, real
        self.store, self.drop = store, drop
        self.files = {n: None for n in JUNK}
        self.exist = False
        self.settings, self.written = {}, {}
        self.events = []
        self.sig = signatures(os.path.join(repo, 'Parse_eqn_file.py'))
        self.sig.update({k: v for k, v in signatures(os.path.join(repo, 'rate_coeff_conversion.py')).items()})
        self.sig.update(signatures(os.path.join(repo, 'Aerosol/Property_calculation.py')))
        self.sig.update(signatures(os.path.join(repo, 'Aerosol/Size_distributions.py')))
        self.sig['run_simulation'] = signatures(os.path.join(repo, SOLVERS[kind]))['run_simulation']
        self.build()

    # ---- the mechanism and its properties
    def build(self):
        L = self.lay
        self.names = (NAMES if self.kind != 'fixed yield' else COMPOUNDS)[:L.get('n', 4)]
        self.n = len(self.names)
        self.s2a = {s: L['perm'][i] for i, s in enumerate(self.names)}
        self.at = {i: s for s, i in self.s2a.items()}
        self.include = list(L['include'])
        self.have = [s for s in self.names if self.s2a[s] in self.include or L.get('smiles_all')] if self.kind != 'fixed yield' else list(self.names)
        self.smiles = {s: ('S' + s if self.kind != 'fixed yield' else s) for s in self.have}
        self.mols = {q: Mol(q) for q in self.smiles.values()}
        self.conc = {q: self.num('yield_%d' % i) for i, q in enumerate(self.mols)}
        V = lambda t: [self.num('%s_%d' % (t, i)) for i in range(self.n)]
        self.prop = {k: V(k) for k in ('y_density_array', 'y_mw', 'o_c', 'h_c', 'sat_vp', 'Delta_H', 'Latent_heat_gas')}

    def setting(self, name, const):
        if name == 'files_exist':
            self.settings[name] = const
            return self.exist
        if name == 'ignore_vp':
            self.settings[name] = const
            return self.lay['ignore_vp']
        if name == 'num_bins':
            self.settings[name] = const
            return self.lay['nb']
        if name == 'openMP' or isinstance(const, bool):
            return const
        if name in FREE or name.startswith('species_initial_conc['):
            self.written.setdefault(name, const)
            self.settings.setdefault(name, self.num(name))
            return self.settings[name]
        return const

    def value(self, name, default):
        return self.settings.get(name, default)

    def event(self, *e):
        self.events.append(e)

    # ---- stand-ins
    def open(self, name, mode='r', *a, **k):
        name, mode = local(name), str(mode)
        if 'r' in mode and '+' not in mode:
            if name not in self.files:
                raise FileNotFoundError(name)
        else:
            self.files.setdefault(name, None)
        return Handle(self, name, mode)

    def listing(self):
        return list(self.files)

    def put(self, name, obj):
        self.files[name] = ('pickle', clone(obj))
        self.event('dump', name)

    def get(self, name):
        v = self.files[name]
        if v is None:
            raise EOFError('%s holds no pickle' % name)
        self.event('load', name)
        return clone(v[1])

    def remove(self, name):
        b = local(name)
        self.event('remove', b)
        self.files.pop(b, None)
        self.drop(b)

    def os(self):
        me = self
        real = os

        def listdir(p='.'):
            return me.listing() if str(p) in ('.', './', '') else ['driver_numba_8.nbi', 'plain.cpython-36.pyc'] if '__pycache__' in str(p) else []

        def system(cmd):
            me.event('system', cmd if isinstance(cmd, str) else ' '.join(map(str, cmd)))
            return 0
        path = Shim('os.path', dict(isdir=lambda p: '__pycache__' in str(p) or str(p) in ('.', ''), exists=lambda p: local(p) in me.files or '__pycache__' in str(p) or str(p) == '.',
                                    isfile=lambda p: local(p) in me.files), lambda: real.path)
        none = lambda *a, **k: me.event('call', 'os', a)

        class Entry:
            def __init__(self, name): self.name = self.path = name
            def is_file(self): return True
            def is_dir(self): return False
            def __fspath__(self): return self.path

        class Scan(list):
            def __enter__(self): return self
            def __exit__(self, *a): return False
            def close(self): pass
        o = Shim('os', dict(listdir=listdir, remove=me.remove, unlink=me.remove, system=system, path=path, rmdir=none, removedirs=none, rename=none, replace=none, mkdir=none, makedirs=none,
                            chdir=none, kill=none, getcwd=lambda: '/work', scandir=lambda p='.': Scan(Entry(n) for n in listdir(p)),
                            walk=lambda p='.': [(str(p), ['__pycache__'], listdir(p))]), lambda: real)

        class Done:
            returncode, stdout, stderr = 0, '', ''

            def wait(self, *a, **k): return 0
            def communicate(self, *a, **k): return '', ''

        def run(cmd, *a, **k):
            system(cmd)
            return Done()
        sp = Shim('subprocess', dict(run=run, Popen=run, call=lambda *a, **k: system(a[0]), check_call=lambda *a, **k: system(a[0]), check_output=lambda *a, **k: (system(a[0]), '')[1]),
                  lambda: __import__('subprocess'))

        def copy(src, dst, *a, **k):
            d = real.path.basename(local(src)) if str(dst) in ('.', './', '', '/work') else local(dst)
            me.event('copy', str(src), d)
            me.files[d] = None
            return d
        sh = Shim('shutil', dict(copy2=copy, copy=copy, copyfile=copy, rmtree=none, move=none), lambda: __import__('shutil'))
        import fnmatch
        globs = lambda p, **k: [f for f in (listdir('__pycache__') if '__pycache__/' in str(p) else me.listing()) if fnmatch.fnmatch(f, local(p).split('__pycache__/')[-1])]
        gl = Shim('glob', dict(glob=globs, iglob=globs), lambda: __import__('glob'))
        P = path_class(me)
        pl = Shim('pathlib', dict(Path=P, PosixPath=P), lambda: __import__('pathlib'))
        return {'os': o, 'os.path': path, 'subprocess': sp, 'shutil': sh, 'glob': gl, 'pathlib': pl, 'io': Shim('io', dict(open=me.open), lambda: io), 'fnmatch': fnmatch,
                'codecs': Shim('codecs', dict(open=me.open), lambda: __import__('codecs'))}

    def record(self, name):
        def f(*a, **k):
            self.event('write', name, clone(bind(self.sig, name, a, k)))
        return f

    def parse(self):
        me = self

        def extract_mechanism(*a, **k):
            d = bind(me.sig, 'extract_mechanism', a, k)
            nm = str(list(d.values())[0])
            if nm not in me.files:
                raise FileNotFoundError(nm)
            me.event('parse', nm)
            return me.mechanism()

        def extract_smiles_species(*a, **k):
            d = list(bind(me.sig, 'extract_smiles_species', a, k).values())
            me.event('smiles', str(d[1]))
            o = dict(d[0])
            o.update(Pybel_object_dict=dict(me.mols), SMILES_dict=dict(me.smiles))
            return o

        def extract_species(*a, **k):
            nm = str(list(bind(me.sig, 'extract_species', a, k).values())[0])
            if nm not in me.files:
                raise FileNotFoundError(nm)
            me.event('parse', nm)
            m = me.mols
            return dict(species_dict=dict(me.at), species_dict2array=dict(me.s2a), Pybel_object_dict=dict(m), smiles_array=list(me.names), SMILES_dict=dict(me.smiles),
                        concentration_array=[me.conc[s] for s in me.names], species_number=me.n, Pybel_object_activity={m[s]: me.conc[s] for s in me.names},
                        concentration_dict={m[s]: me.conc[s] for s in me.names})

        over = {w: self.record(w) for w in WRITERS}
        ro2 = over['write_RO2_indices']

        def write_RO2_indices(*a, **k):
            ro2(*a, **k)
            d = me.events[-1][2]
            nm = '%s_RO2_indices' % list(d.values())[0]
            me.store(nm, self.lay['ro2'])
            me.files[nm + '.npy'] = None
        over.update(write_RO2_indices=write_RO2_indices, extract_mechanism=extract_mechanism, extract_smiles_species=extract_smiles_species, extract_species=extract_species)
        return over

    def mechanism(self):
        return dict(rate_dict=dict(RATES), rate_dict_reactants={k: {0: 'APINENE'} for k in RATES}, rate_def={}, loss_dict={s: {0: 1.0 + i} for i, s in enumerate(self.names)},
                    gain_dict={s: {1: 2.0 + i} for i, s in enumerate(self.names)}, stoich_dict={k: {'APINENE': -1.0} for k in RATES}, species_dict=dict(self.at),
                    species_dict2array=dict(self.s2a), max_equations=len(RATES), reaction_dict={})

    def modules(self, rest):
        """rest: relative path -> namespace of the real module"""
        me = self
        over = self.parse()
        P = Shim('Parse_eqn_file', over, lambda: me.real('Parse_eqn_file.py', over))
        C = Shim('rate_coeff_conversion', {}, lambda: me.real('rate_coeff_conversion.py', {}))

        def Pure_component1(*a, **k):
            d = bind(me.sig, 'Pure_component1', a, k)
            me.event('pure1', clone(d))
            ign = [i for i in range(me.n) if i not in me.include]
            return dict({q: list(v) for q, v in me.prop.items()}, ignore_index=ign, include_index=list(me.include),
                        ignore_index_fortran=me.np.array([0.0 if i in me.include else 1.0 for i in range(me.n)]))

        def Pure_component2(*a, **k):
            d = bind(me.sig, 'Pure_component2', a, k)
            me.event('pure2', clone(d))
            mw = list(d['y_mw'])
            return {q: [me.fun(q, [m, d['R_gas'], d['temp']]) for m in mw] for q in ('alpha_d_org', 'DStar_org', 'mean_them_vel', 'gamma_gas')}

        def lognormal(*a, **k):
            d = bind(me.sig, 'lognormal', a, k)
            v = list(d.values())
            me.event('lognormal', dict(d))
            return me.array([me.fun('N_%d' % i, v[1:]) for i in range(int(v[0]))]), me.array([me.fun('x_%d' % i, v[1:]) for i in range(int(v[0]))])

        def run_simulation(*a, **k):
            d = bind(me.sig, 'run_simulation', a, k)
            me.event('run', clone(d))
            w = self.np.zeros((3, self.n + 5))
            w += 1.0
            return [0.0, 50.0, 100.0], w

        def dump(obj, handle, *a, **k):
            me.put(handle.name, obj)

        def load(handle, *a, **k):
            return me.get(handle.name)

        class Pickler:
            def __init__(self, handle, *a, **k): self.handle = handle
            def dump(self, obj): dump(obj, self.handle)

        class Unpickler:
            def __init__(self, handle, *a, **k): self.handle = handle
            def load(self): return load(self.handle)
        pb = types.ModuleType('pybel')
        pb.readstring = lambda fmt, s, *a: Mol(s)
        ob = types.ModuleType('openbabel')
        ob.pybel = pb
        pk = Shim('pickle', dict(dump=dump, load=load, dumps=lambda o, *a, **k: Dumped(o), loads=lambda b, *a, **k: clone(b.obj), Pickler=Pickler, Unpickler=Unpickler), lambda: __import__('pickle'))
        pkg = types.ModuleType('PyBox')
        pkg.Parse_eqn_file, pkg.rate_coeff_conversion = P, C
        mods = {'Parse_eqn_file': P, 'rate_coeff_conversion': C, 'PyBox': pkg, 'pybel': pb, 'openbabel': ob, 'pickle': pk, 'cPickle': pk,
                'Property_calculation': Shim('Property_calculation', dict(Pure_component1=Pure_component1, Pure_component2=Pure_component2), lambda: {}),
                'Size_distributions': Shim('Size_distributions', dict(lognormal=lognormal), lambda: {}),
                SOLVERMOD[self.kind]: Shim(SOLVERMOD[self.kind], dict(run_simulation=run_simulation), lambda: {})}
        for n in ('matplotlib', 'pdb', 'Plotting'):
            mods[n] = AnyModule(n)
        mods['matplotlib.pyplot'] = AnyModule('matplotlib.pyplot')
        mods.update(self.os())
        return mods

    # ---- what must come out
    def reads(self, k):
        """does the solver take this input?"""
        return any(isinstance(n, ast.Constant) and n.value == k for n in ast.walk(ast.parse(open(os.path.join(self.repo, SOLVERS[self.kind]), encoding='utf-8').read())))

    def of(self, what):
        return [(i, e) for i, e in enumerate(self.events) if e[0] == what]

    def imported(self):
        """generated modules that the solver imports"""
        out = []
        for n in ast.walk(ast.parse(open(os.path.join(self.repo, SOLVERS[self.kind]), encoding='utf-8').read())):
            for m in ([n.module] if isinstance(n, ast.ImportFrom) else [a.name for a in n.names] if isinstance(n, ast.Import) else []):
                if m in MODULES and m not in out:
                    out.append(m)
        return out

    def claims_files(self, converted):
        """the generated modules belong to this mechanism and are there before the run"""
        runs = self.of('run')
        yield ('the simulation is run once', len(runs) == 1)
        if len(runs) != 1:
            return
        end = runs[0][0]
        for i, e in self.of('remove'):
            yield ('%s is not removed: only generated files are' % e[1], e[1].endswith(GENERATED))
        par = self.of('parse')
        yield ('one mechanism or yield file is parsed', len(par) == 1)
        if len(par) != 1:
            return
        if self.kind != 'fixed yield':
            cp = [e for i, e in self.of('copy') if e[2] == par[0][1][1] and i < par[0][0]]
            yield ('the parsed mechanism file was copied from mechanism_files', len(cp) >= 1 and 'mechanism_files/' + par[0][1][1] in cp[-1][1])
        run = runs[0][1][1]
        ns = self.n + (1 if self.kind in ('aerosol', 'fixed yield') else 0)
        nc = len(self.include) + 1
        mech = self.mechanism()
        want = dict(equations=len(RATES), num_species=self.n, rate_dict_reactants=mech['rate_dict_reactants'], loss_dict=mech['loss_dict'], gain_dict=mech['gain_dict'])
        W = [(i, e) for i, e in self.of('write') if i < end]
        done = set()
        for m in self.imported():
            f90, ws = MODULES[m]
            got = [(i, e) for i, e in W if e[1] in ws]
            yield ('%s is written before the run' % m, len(got) >= 1)
            if not got:
                continue
            i, e = got[-1]
            done.add(i)
            if f90:
                ok = any(q > i and q < end and re.search(r'-m\s*%s\b' % m, x[1]) and f90 in x[1] and 'f2py' in x[1] for q, x in self.of('system'))
                yield ('%s is compiled from %s after it is written and before the run' % (m, f90), ok)
        need = set(n for m in self.imported() for n in MODULES[m][1])
        if self.kind != 'fixed yield':
            yield ('the peroxy radical indices are written before the run', any(e[1] == 'write_RO2_indices' for i, e in W))
            need.add('write_RO2_indices')
        for i, e in W:
            if e[1] not in need:
                continue
            a = e[2]
            for k, v in want.items():
                if k in a and not e[1].startswith('write_partition'):
                    yield ('%s gets %s of the mechanism' % (e[1], k), a[k] == v)
            if 'species_dict2array' in a:
                yield ('%s gets the species numbering of the mechanism' % e[1], all(a['species_dict2array'].get(s) == q for s, q in self.s2a.items()))
            for k in ('rate_dict_fortran', 'rate_dict'):
                if k in a:
                    yield ('%s gets the converted rate expressions' % e[1], dict(a[k]) == converted['convert_rate_mcm_numba' if 'numba' in e[1] else 'convert_rate_mcm_fortran'])
            if e[1] == 'write_partitioning_section_fortran_ignore':
                w2 = dict(total_length_y=ns + nc * self.lay['nb'], num_bins=self.lay['nb'], num_species=ns, num_species_condensed=nc)
                for k, v in w2.items():
                    if k in a:
                        yield ('the partitioning code is written for %s=%s' % (k, v), a[k] == v)
                if 'include_index' in a:
                    yield ('the partitioning code is written for the condensing species in ascending order and water', list(a['include_index']) == sorted(self.include) + [self.n])

    def water(self, fm):
        T, RH = self.value('temp', 288.15), self.value('RH', 0.5)
        if self.kind == 'fixed yield':
            return RH * self.value('NA', 6.0221409e+23) * self.psat(fm) * 1.0e-6 / (8.314472 * T)
        c = T - 273.15
        P = RH * (610.78 * fm['exp']((c / (c + 238.3)) * 17.2694))
        return 0.002166 * (P / (c + 273.16)) * 1.0e-6 / 18.0e-3 * 6.0221409e+23

    def psat(self, fm):
        T = self.value('temp', 288.15)
        return fm['exp'](-0.58002206E4 / T + 0.13914993E1 - 0.48640239E-1 * T + 0.41764768E-4 * (T * T) - 0.14452093E-7 * (T * T * T) + 0.65459673E1 * fm['log'](T))

    def claims_run(self, fm):
        runs = self.of('run')
        yield ('the simulation is run once', len(runs) == 1)
        if len(runs) != 1:
            return
        r = runs[0][1][1]
        D = Given(r['input_dict'])
        T = self.value('temp', {'gas numba': 298.15}.get(self.kind, 288.15))
        self.settings.setdefault('temp', T)
        for k in ('temp', 'RH', 'simulation_time', 'batch_step', 'PInit'):
            if k in r and k in self.settings:
                yield ('%s is that of the driver' % k, r[k], self.settings[k])
        yield ('the start time is the hour of the day in seconds', r['start_time'], self.value('hour_of_day', 12.0) * 3600.0)
        yield ('water vapour abundance for the temperature and relative humidity', r['H2O'], self.water(fm))
        yield ('species names and numbers are those of the mechanism', all(D['species_dict2array'].get(s) == i for s, i in self.s2a.items()) and all(D['species_dict'].get(i) == s for s, i in self.s2a.items()))
        if self.kind != 'fixed yield':
            yield ('the number of reactions is that of the mechanism', D['equations'] == len(RATES))
            yield ('the peroxy radical indices are those written for the mechanism', [int(i) for i in r['RO2_indices']] == self.lay['ro2'])
            for k, v in self.settings.items():
                if k.startswith('species_initial_conc['):
                    s = k[len('species_initial_conc['):-1]
                    yield ('an initial abundance of %s is handed over' % s, s in D['species_initial_conc'])
                    if s in D['species_initial_conc']:
                        yield ('initial abundance of %s' % s, D['species_initial_conc'][s], v)
        for k, (v, tol) in PHYSICAL.items():
            if k in self.written:
                yield ('%s is the physical constant' % k, abs(self.written[k] - v) <= tol * v)
        if self.kind in ('aerosol', 'fixed yield'):
            yield from self.claims_aero(r, D, fm)

    def claims_aero(self, r, D, fm):
        n, inc, nb = self.n, sorted(self.include), self.lay['nb']
        nc = len(inc) + 1
        flat = lambda v: list(v.ravel()) if hasattr(v, 'ravel') else list(v)
        yield ('water is one more gas species', D['num_species'] == n + 1 and D['species_dict2array'].get('H2O') == n)
        clash = [k for k, i in D['species_dict2array'].items() if i <= n and k not in self.s2a and k != 'H2O']
        yield ('no other name has the number of a species', not clash)
        yield ('the condensing components are the included species in ascending order and water', [int(i) for i in D['include_index']] == inc + [n])
        yield ('number of condensing components', D['num_species_condensed'] == nc)
        yield ('number of bins', D['num_bins'] == nb)
        yield ('ignored species', sorted(int(i) for i in D['ignore_index']) == [i for i in range(n) if i not in inc])
        yield ('ignore flags of all gas species and water', [float(v) for v in flat(D['ignore_index_fortran'])] == [0.0 if i in inc else 1.0 for i in range(n)] + [0.0])
        p, V = self.prop, self.value
        Lv = V('Lv_water_vapour', 2.5e3)
        water = fm['log10'](self.psat(fm) * 9.86923E-6)
        mw = [p['y_mw'][i] for i in inc] + [18.0]
        R, T = V('R_gas', 8.3144598), V('temp', 288.15)
        vec = {'y_density_array_asnumpy': [p['y_density_array'][i] for i in inc] + [1000.0], 'y_mw': mw, 'sat_vp': [p['sat_vp'][i] for i in inc] + [water],
               'Latent_heat_asnumpy': [p['Latent_heat_gas'][i] for i in inc] + [Lv]}
        for k, q in (('DStar_org_asnumpy', 'DStar_org'), ('alpha_d_org_asnumpy', 'alpha_d_org'), ('gamma_gas_asnumpy', 'gamma_gas')):
            vec[k] = [self.fun(q, [m, R, T]) for m in mw]
        sz = [V('total_conc', 100), V('meansize', 0.2), V('std', 2.2), V('lowersize', 0.01), V('uppersize', 1.0)]
        N, x = [self.fun('N_%d' % i, sz) for i in range(nb)], [self.fun('x_%d' % i, sz) for i in range(nb)]
        NA = V('NA', 6.0221409e+23)
        import math
        core = []
        for i in range(nb):
            d = x[i] * 1.0e-6
            core.append((4.0 / 3.0) * math.pi * (d * d * d) * 1770.0 / 132.14e-3 * NA * N[i])
        vec.update(N_perbin=N, ycore_asnumpy=core, core_density_array_asnumpy=[1770.0] * nb, core_molw_asnumpy=[132.14] * nb)
        RH, cd = V('RH', 0.5), V('core_dissociation', 3.0)
        cond = [0.0] * (nc * nb)
        for i in range(nb):
            cond[i * nc + nc - 1] = core[i] * cd * RH / (1.0 - RH)
        vec['y_cond_initial'] = cond
        if self.kind == 'fixed yield':
            ppb = V('total_voc_mass', 30.0) * T / (12.187 * V('voc_mw', 136.24))
            vec['y_gas_initial'] = [self.conc[self.at[i]] * ppb * 2.46e10 for i in range(n)] + [self.water(fm)]
        else:
            yield ('initial water abundance', 'H2O' in D['species_initial_conc'])
            if 'H2O' in D['species_initial_conc']:
                yield ('initial water abundance', D['species_initial_conc']['H2O'], self.water(fm))
        for k, w in list(vec.items()) + [('y_cond', cond)]:
            if k not in D and k != 'y_cond':
                yield ('%s is handed over' % k, not self.reads(k))
                continue
            g = flat(D[k] if k != 'y_cond' else r['y_cond'])
            yield ('%s has one entry per component' % k, len(g) == len(w))
            if len(g) == len(w):
                for i in range(len(w)):
                    yield ('%s(%d)' % (k, i), g[i], w[i])
        for k in ('Updraft', 'GRAV', 'Rv', 'Ra', 'R_gas', 'R_gas_other', 'cp', 'sigma', 'NA', 'kb', 'Lv_water_vapour', 'core_dissociation'):
            if k in self.settings and k not in D:
                yield ('%s is handed over' % k, not self.reads(k))
            elif k in self.settings:
                yield ('%s is handed over' % k, D[k], self.settings[k])
        for i, e in self.of('pure1'):
            a = e[1]
            yield ('properties are computed for the species of the mechanism', a.get('num_species', n) == n and dict(a.get('species_dict', self.at)) == self.at
                   and dict(a.get('SMILES_dict', self.smiles)) == self.smiles and all(a['species_dict2array'].get(s) == q for s, q in self.s2a.items()) if 'species_dict2array' in a else True)
            if 'Pybel_object_dict' in a:
                yield ('every structure belongs to its SMILES', all(q in a['Pybel_object_dict'] and a['Pybel_object_dict'][q].key == q for q in self.smiles.values()))
            if 'temp' in a:
                yield ('properties are computed at the temperature of the run', a['temp'], T)
            if 'vp_cutoff' in a and 'vp_cutoff' in self.settings:
                yield ('the vapour pressure cutoff is that of the driver', a['vp_cutoff'], self.settings['vp_cutoff'])
            if 'ignore_vp' in a and 'ignore_vp' in self.settings:
                yield ('the cutoff switch is that of the driver', a['ignore_vp'] == self.lay['ignore_vp'])
        yield ('properties are computed once', len(self.of('pure1')) == 1)
