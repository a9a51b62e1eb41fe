"""Concrete runs of the real code (project interpreter, scratch cwd).  JSON on stdin, RESULT json on stdout."""
import contextlib
import io
import json
import os
import subprocess
import sys
import zlib
import traceback

REPO = os.environ['PYBOX_REPO']
sys.path[:0] = [REPO, os.path.join(REPO, 'Aerosol')]
import pybox_compat  # noqa
import numpy as np


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def mod(path, name=None):
    import importlib.util
    p = path if os.path.isabs(path) else os.path.join(REPO, path)
    s = importlib.util.spec_from_file_location(name or os.path.basename(path)[:-3], p)
    m = importlib.util.module_from_spec(s)
    sys.modules[s.name] = m
    s.loader.exec_module(m)
    return m


def parse_dicts(text):
    P = mod('Parse_eqn_file.py')
    with open('m.eqn.txt', 'w') as f:
        f.write(text)
    return P, quiet(P.extract_mechanism, 'm.eqn.txt', {'Full_eqn': 0})


def plain(o):
    if isinstance(o, dict):
        return [[plain(k), plain(v)] for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return o


def parse(text):
    P, o = parse_dicts(text)
    return {k: plain(o[k]) for k in ('rate_dict', 'loss_dict', 'gain_dict', 'species_dict', 'species_dict2array',
                                     'max_equations', 'rate_dict_reactants')}


def convert(which, texts):
    R = mod('rate_coeff_conversion.py')
    d = {i: t for i, t in enumerate(texts)}
    o = getattr(R, which)(d)
    return {'out': [o[i] for i in range(len(texts))]}


# ------------------------------------------------------------------ Fortran helpers
def fortran(source_files, driver, stdin='', openmp=False, threads=4, flags=()):
    with open('drv.f90', 'w') as f:
        f.write(driver)
    cmd = ['gfortran', '-O1', '-fcheck=bounds'] + list(flags) + (['-fopenmp'] if openmp else [])
    objs = [s[:-4] + '.o' for s in source_files]
    for c in [cmd + ['-c', s] for s in source_files] + [cmd + ['-ffree-line-length-none', 'drv.f90'] + objs + ['-o', 'drv']]:
        p = subprocess.run(c, capture_output=True, text=True)
        if p.returncode:
            return {'exception': 'gfortran: ' + p.stderr[-1500:]}
    env = dict(os.environ, OMP_NUM_THREADS=str(threads))
    p = subprocess.run(['./drv'], input=stdin, capture_output=True, text=True, env=env, timeout=120)
    if p.returncode:
        return {'exception': 'run: ' + p.stderr[-800:]}
    return {'values': [fl(x) for x in p.stdout.split()]}


def fl(x):
    x = x.replace('D', 'E')
    try:
        return float(x)
    except ValueError:
        # 1.0-100 style exponents
        import re
        m = re.match(r'^([-+]?[\d.]+)([-+]\d+)$', x)
        return float(m.group(1) + 'E' + m.group(2)) if m else float('nan')


def num(xs):
    return '\n'.join('%.17e' % float(x) for x in xs) + '\n'


def f_vec(name, args_in, size_out):
    """driver for subroutine name(in1,...,out)"""
    decl, read, call = [], [], []
    for i, n in enumerate(args_in):
        decl.append('real(8) :: a%d(%d)' % (i, n))
        read.append('read(*,*) a%d' % i)
        call.append('a%d' % i)
    return 'program d\n%s\nreal(8) :: o(%d)\n%s\ncall %s(%s,o)\nwrite(*,"(ES30.17E4)") o\nend program\n' % (
        '\n'.join(decl), size_out, '\n'.join(read), name, ','.join(call))


def generate(text, y=None, r=None, cores=4, what=('reactants', 'dydt', 'jac'), backends=('numba', 'fortran'), openmp=True):
    """mechanism text -> generated modules -> values at y (concentrations), r (rates / rate coefficients)"""
    import multiprocessing
    multiprocessing.cpu_count = lambda: cores
    P, o = parse_dicts(text)
    res = {'species': plain(o['species_dict2array'])}
    n, e = len(o['species_dict']), o['max_equations']
    y = dict(y or {})
    yv = np.array([float(y.get(s, 1.0)) for s in o['species_dict2array']])
    yv2 = np.zeros(n)
    for s, i in o['species_dict2array'].items():
        yv2[i] = float(y.get(s, 1.0))
    yv = yv2
    rv = np.array([float(x) for x in (r or [1.0] * e)])
    s2a, ld, gd, rr = o['species_dict2array'], o['loss_dict'], o['gain_dict'], o['rate_dict_reactants']

    def part(name, f):
        try:
            v = f()
            res[name] = v if isinstance(v, dict) else np.asarray(v, dtype=float).tolist()
        except Exception:
            res[name] = {'exception': traceback.format_exc()[-1500:]}
    if 'reactants' in what:
        if 'numba' in backends or 'sparse' in backends:
            def a():
                quiet(P.write_reactants_indices, 'm', e, n, s2a, rr, ld)
                return mod(os.path.abspath('Reactants_conc_numba.py')).reactants(yv, e, np.zeros(e))
            part('reactants_numba', a)

            def asp():
                z = np.load('reactants_indices_sparse_m.npz')
                from scipy.sparse import csr_matrix
                return csr_matrix((z['data'], z['indices'], z['indptr']), shape=tuple(z['shape'])).toarray().ravel()
            part('reactants_sparse', asp)

            def asv():
                i, t = np.load('m_reactant_indices.npy', allow_pickle=True), np.load('m_reactants_stoich_indices.npy', allow_pickle=True)
                return [float(np.prod([yv[int(a)] ** b for a, b in zip(x, z)])) for x, z in zip(i, t)]
            part('reactants_saved', asv)
        if 'fortran' in backends:
            def b():
                quiet(P.write_reactants_indices_fortran, 'm', e, s2a, rr, ld, openmp)
                q = fortran(['Reactants_conc.f90'], f_vec('reactants', [n], e), num(yv), openmp)
                return q if 'exception' in q else q['values']
            part('reactants_fortran', b)
    if 'dydt' in what:
        if 'numba' in backends or 'sparse' in backends:
            def c():
                quiet(P.write_loss_gain_matrix, 'm', e, n, ld, gd, s2a)
                return mod(os.path.abspath('Loss_Gain_numba.py')).dydt(np.zeros(n), rv)
            part('dydt_numba', c)

            def sp():
                z = np.load('loss_gain_m.npz')
                from scipy.sparse import csr_matrix
                return csr_matrix((z['data'], z['indices'], z['indptr']), shape=tuple(z['shape'])).toarray().ravel()
            part('dydt_sparse', sp)
        if 'fortran' in backends:
            def d():
                quiet(P.write_loss_gain_fortran, 'm', e, n, ld, gd, s2a, openmp)
                q = fortran(['Loss_Gain.f90'], f_vec('loss_gain', [e], n), num(rv), openmp)
                return q if 'exception' in q else q['values']
            part('dydt_fortran', d)
    if 'jac' in what:
        if 'numba' in backends or 'sparse' in backends:
            def g():
                quiet(P.write_gas_jacobian_numba, 'm', e, n, ld, gd, s2a, rr)
                return mod(os.path.abspath('Jacobian_numba.py')).jacobian(rv, yv, np.zeros((n, n))).ravel()
            part('jac_numba', g)
        if 'fortran' in backends:
            def h():
                quiet(P.write_gas_jacobian_fortran, 'm', e, n, ld, gd, s2a, rr, openmp)
                drv = f_vec('jacobian', [e, n], n * n).replace('real(8) :: o(%d)' % (n * n), 'real(8) :: o(%d,%d)' % (n, n)) \
                    .replace('write(*,"(ES30.17E4)") o', 'write(*,"(ES30.17E4)") transpose(o)')
                q = fortran(['Jacobian.f90'], drv, num(rv) + num(yv), openmp)
                return q if 'exception' in q else q['values']
            part('jac_fortran', h)
    return res


def rates(texts, points, backend, converted=False, python_converter=None):
    """rate files: values of every J and rate expression at points [(ttime, RO2, H2O, temp)]"""
    P = mod('Parse_eqn_file.py')
    R = mod('rate_coeff_conversion.py')
    d = {i: t for i, t in enumerate(texts)}
    out = []
    if backend == 'numba':
        if not converted:
            d = R.convert_rate_mcm_numba(d)
        quiet(P.write_rate_file_numba, 'm', d)
        os.environ['NUMBA_DISABLE_JIT'] = '1'
        src = open('Rate_coefficients_numba.py').read()
        m = mod(os.path.abspath('Rate_coefficients_numba.py'))
        for t, ro2, h2o, T in points:
            J = np.zeros(62)
            v = m.evaluate_rates(float(t), float(ro2), float(h2o), float(T), np.zeros(len(texts)), J)
            out.append({'rates': np.asarray(v).tolist(), 'J': J.tolist()})
    elif backend == 'python':
        if not converted:
            d = R.convert_rate_mcm(d)
        quiet(P.write_rate_file, 'm', d)
        m = mod(os.path.abspath('Rate_coefficients.py'))
        for t, ro2, h2o, T in points:
            v = m.evaluate_rates(float(t), float(ro2), float(h2o), float(T))
            out.append({'rates': np.asarray(v).tolist()})
    else:
        if not converted:
            d = R.convert_rate_mcm_fortran(d)
        quiet(P.write_rate_file_fortran, 'm', d, False)
        n = len(texts)
        drv = ('program d\nreal(8) :: a,b,c,t,o(%d)\ninteger :: k,ios\ndo\nread(*,*,iostat=ios) t,a,b,c\nif(ios/=0) exit\n'
               'call evaluate_rates(a,b,c,t,o)\nwrite(*,"(ES30.17E4)") o\nend do\nend program\n' % n)
        q = fortran(['Rate_coefficients.f90'], drv, ''.join('%.17e %.17e %.17e %.17e\n' % tuple(map(float, p)) for p in points))
        if 'exception' in q:
            return q
        v = q['values']
        for k in range(len(points)):
            out.append({'rates': v[k * n:(k + 1) * n]})
    return {'points': out}


def ro2(species):
    P = mod('Parse_eqn_file.py')
    P.write_RO2_indices('m', {s: i for i, s in enumerate(species)})
    return {'indices': np.load('m_RO2_indices.npy').tolist()}


if __name__ == '__main__':
    args = json.load(sys.stdin)
    extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'worker_more.py')
    ns = globals()
    if os.path.exists(extra):
        exec(compile(open(extra).read(), extra, 'exec'), ns)
    if os.environ.get('V_NOJIT'):
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    try:
        r = ns[sys.argv[1]](**args)
    except Exception:
        r = {'exception': traceback.format_exc()[-2500:]}
    print('RESULT ' + json.dumps(r))
