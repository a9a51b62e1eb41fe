"""Harness for the code generators: mechanism text -> real parser -> real writers -> emitted code run symbolically.

The emitted Python is executed, the emitted Fortran is interpreted, on symbolic concentrations and rates; the
coefficients of the mechanism are symbolic digits.  The oracle is the mechanism itself."""
import io
import itertools
import types
import z3
import numpy as np
from vt import core, sstr, loader, mech, realcode, npshim, fortran, eqprove
from vt.core import SymReal
from vt.sstr import SymStr, S
from vt.loader import VFS, Anything, stub

RESERVED = ('AIR', 'H2O', 'O2')
ONE = z3.RealVal(1)
_cache = {}


class Sparse:
    """scipy.sparse: assignable and in compressed form; values may be symbolic"""

    def __init__(self, arg, shape=None, *a, **k):
        self.d = {}
        if isinstance(arg, Sparse):
            self.shape, self.d = arg.shape, dict(arg.d)
            return
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list, np.ndarray)):
            data, (rows, cols) = arg
            rows, cols = [int(x) for x in rows], [int(x) for x in cols]
            self.shape = tuple(int(x) for x in shape) if shape is not None else (max(rows) + 1, max(cols) + 1)
            data = list(data)
            if not (len(rows) == len(cols) == len(data)):
                raise ValueError('row, column and data arrays must have the same length')
            for v, r, c in zip(data, rows, cols):
                self._at((r, c))
                self.d[r, c] = self.d[r, c] + v if (r, c) in self.d else v
            return
        if isinstance(arg, tuple) and len(arg) == 3:
            data, indices, ptr = arg
            self.shape = tuple(int(x) for x in shape)
            for i in range(self.shape[0]):
                for k_ in range(int(ptr[i]), int(ptr[i + 1])):
                    self.d[self._at((i, indices[k_]))] = data[k_]
            return
        if isinstance(arg, tuple):
            self.shape = tuple(int(x) for x in arg)
            return
        rows = [list(r) for r in arg]
        self.shape = (len(rows), len(rows[0]) if rows else 0)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                if isinstance(v, SymReal) or v != 0:
                    self.d[i, j] = v

    def _at(self, ij):
        i, j = (int(x) for x in ij)
        if i < 0:
            i += self.shape[0]
        if j < 0:
            j += self.shape[1]
        if not (0 <= i < self.shape[0] and 0 <= j < self.shape[1]):
            raise IndexError('sparse index (%d,%d) outside %s' % (i, j, self.shape))
        return i, j

    def __setitem__(self, ij, v):
        i, j = ij
        if isinstance(i, (list, np.ndarray)) or isinstance(j, (list, np.ndarray)):
            i, j = np.broadcast_arrays(np.array(i, dtype=int), np.array(j, dtype=int))
            v = np.broadcast_to(np.array(v, dtype=object), i.shape)
            for a, b, c in zip(i.ravel(), j.ravel(), v.ravel()):
                self.d[self._at((a, b))] = c
        else:
            self.d[self._at(ij)] = v

    def __getitem__(self, ij):
        return self.d.get(self._at(ij), 0.0)

    def copy(self):
        return Sparse(self)

    def tocsr(self, *a, **k):
        return Sparse(self)

    tolil = todok = tocoo = asformat = tocsr

    def _make(self, d, shape=None):
        r = Sparse(shape or self.shape)
        r.d = d
        return r

    def _both(self, o, f):
        if isinstance(o, Sparse):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return self._make({k: f(self.d.get(k, 0.0), o.d.get(k, 0.0)) for k in list(self.d) + [k for k in o.d if k not in self.d]})
        return NotImplemented

    def __add__(self, o):
        return self._both(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._both(o, lambda a, b: a - b)

    def __neg__(self):
        return self._make({k: -v for k, v in self.d.items()})

    def __mul__(self, o):
        return NotImplemented if isinstance(o, Sparse) else self._make({k: v * o for k, v in self.d.items()})

    __rmul__ = __mul__

    def transpose(self):
        return self._make({(j, i): v for (i, j), v in self.d.items()}, self.shape[::-1])

    T = property(transpose)

    def eliminate_zeros(self):
        pass

    sum_duplicates = sort_indices = eliminate_zeros

    @property
    def nnz(self):
        return len(self.d)

    def _compressed(self):
        keys = sorted(self.d)
        ptr = [0]
        for i in range(self.shape[0]):
            ptr.append(ptr[-1] + sum(1 for k in keys if k[0] == i))
        return np.array([self.d[k] for k in keys] + [None], dtype=object)[:-1], np.array([k[1] for k in keys], dtype=int), np.array(ptr)

    data = property(lambda self: self._compressed()[0])
    indices = property(lambda self: self._compressed()[1])
    indptr = property(lambda self: self._compressed()[2])

    def dense(self):
        out = [[core.ZEROT] * self.shape[1] for _ in range(self.shape[0])]
        for (i, j), v in self.d.items():
            out[i][j] = core.term(v)
        return out

    def toarray(self):
        return np.array(self.dense(), dtype=object)

    todense = toarray


def modules(vfs, cores):
    mp = stub('multiprocessing', cpu_count=lambda: cores())
    sp = stub('scipy.sparse', **{k + s: Sparse for k in ('lil', 'csr', 'dok', 'coo') for s in ('_matrix', '_array')})
    return {'pybel': Anything('pybel'), 'multiprocessing': mp, 'numpy': npshim.NP(vfs), 'scipy.sparse': sp,
            'scipy': stub('scipy', sparse=sp)}


def repo():
    """Parse_eqn_file: once with symbolic text (parser) and once natively (writers), compiled once per process"""
    if not _cache:
        v = _cache['vfs'] = VFS()
        _cache['cores'] = [4]
        m = modules(v, lambda: _cache['cores'][0])
        _cache['parse'] = loader.load('Parse_eqn_file.py', vfs=v, strings=True, modules=m)
        _cache['write'] = loader.load('Parse_eqn_file.py', vfs=v, strings=False, modules=m)
    v = _cache['vfs']
    v.files.clear()
    v.arrays.clear()
    v.sparse.clear()
    return _cache['parse'], _cache['write'], v


def key(k):
    return str(k) if isinstance(k, SymStr) else k


def plain(o):
    if isinstance(o, dict):
        import collections
        d = collections.defaultdict(lambda: collections.defaultdict())
        for k, v in o.items():
            d[key(k)] = plain(v)
        return d
    if isinstance(o, SymStr):
        return str(o)
    if isinstance(o, list):
        return [plain(x) for x in o]
    return o


def parsed(m):
    """run the real parser on the mechanism; native dictionaries with symbolic coefficients"""
    P, W, v = repo()
    v.files['m.eqn.txt'] = m.text
    core.STATS.functions.add('Parse_eqn_file.extract_mechanism')
    o = P['extract_mechanism']('m.eqn.txt', {'Full_eqn': 0})
    return {str(k): plain(x) for k, x in o.items()}, W, v


# ------------------------------------------------------------------ mechanisms
def names(c, n, pool=('A', 'B1', 'C2O', 'D', 'E', 'F', 'G', 'H'), reserved=()):
    """every way of naming n terms: equal or different to earlier ones, optionally a bath species"""
    out, used = [], 0
    for _ in range(n):
        opts = list(pool[:used + 1]) + list(reserved)
        x = c.choose(opts)
        out.append(x)
        if used < len(pool) and x == pool[used]:
            used += 1
    return out


def mechanism(c, layout, reserved=(), rates=None, fixed=None):
    """layout: [(reactant specs, product specs)]; spec '' | 'd' | 'd.d' ...; 'hv' for the photon"""
    n = sum(1 for rs, ps in layout for s in list(rs) + list(ps) if s != 'hv')
    nm = list(fixed) if fixed else names(c, n, reserved=reserved)
    eqs = []
    for k, (rs, ps) in enumerate(layout):
        sides = []
        for tag, specs in (('r', rs), ('p', ps)):
            side = []
            for i, s in enumerate(specs):
                if s == 'hv':
                    side.append((S(''), ONE, S('hv')))
                else:
                    t, v = mech.number('%s%d_%d' % (tag, k, i), s)
                    side.append((t, v, S(nm.pop(0))))
            sides.append(side)
        eqs.append(mech.Eq(sides[0], sides[1], S(rates[k]) if rates else S('1.0D-12')))
    return mech.render(eqs)


class Ref:
    """meaning of a mechanism: stoichiometry as z3 terms, by species name"""

    def __init__(self, m):
        self.loss, self.gain, self.species = [], [], []
        for q in m.eqs:
            for side, acc in ((q.r, self.loss), (q.p, self.gain)):
                d = {}
                for t, v, n in side:
                    if n.c == 'hv':
                        continue
                    d[n.c] = d[n.c] + v if n.c in d else v
                    if n.c not in self.species:
                        self.species.append(n.c)
                acc.append({k: z3.simplify(v) for k, v in d.items()})

    def net(self, s, k):
        return self.gain[k].get(s, core.ZEROT) - self.loss[k].get(s, core.ZEROT)

    def product(self, k, y):
        t = z3.RealVal(1)
        for s, v in self.loss[k].items():
            t = t * core.pow_term(y[s], v)
        return t

    def dproduct(self, k, y, j):
        """d product_k / d y_j"""
        if j not in self.loss[k]:
            return core.ZEROT
        t = z3.RealVal(1)
        for s, v in self.loss[k].items():
            if s == j:
                t = t * v * core.pow_term(y[s], z3.simplify(v - 1))
            else:
                t = t * core.pow_term(y[s], v)
        return t


def ev(model, t):
    f = core.model_frac(model, t)
    return None if f is None else float(f)


class Num:
    """the oracle again, on concrete numbers (for replay)"""

    def __init__(self, text_eqs):
        self.eqs = text_eqs
        self.species = sorted({s for e in text_eqs for s in list(e['loss']) + list(e['gain'])})

    def product(self, k, y, skip=None):
        p = 1.0
        for s, v in self.eqs[k]['loss'].items():
            p *= y[s] ** v
        return p

    def dproduct(self, k, y, j):
        if j not in self.eqs[k]['loss']:
            return 0.0
        p = 1.0
        for s, v in self.eqs[k]['loss'].items():
            p *= v * y[s] ** (v - 1) if s == j else y[s] ** v
        return p

    def net(self, s, k):
        return self.eqs[k]['gain'].get(s, 0.0) - self.eqs[k]['loss'].get(s, 0.0)


def clean(x):
    return x is not None and 1e-6 < x < 1e6


POINTS = [[1.37, 2.11, 0.73, 3.19, 0.41, 5.3, 1.9, 0.57], [0.11, 7.7, 2.9, 0.83, 1.3, 0.29, 3.7, 2.2],
          [2.0, 1.0, 3.0, 0.5, 4.0, 1.5, 2.5, 0.25]]


def close(a, b, scale=0.0):
    return a == a and abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-12) + 1e-9 * scale


def compare(what, got, species_index, num, y, r):
    """text of the first deviation of generated results from the oracle"""
    n, e = len(species_index), len(num.eqs)
    inv = {v: k for k, v in species_index.items()}
    bad = []
    for nm, v in sorted(got.items()):
        if nm == 'species':
            continue
        if isinstance(v, dict):
            bad.append('%s: %s' % (nm, v.get('exception', v)))
            continue
        if nm in ('reactants_numba', 'reactants_fortran', 'reactants_saved'):
            exp = [num.product(k, y) for k in range(e)]
        elif nm == 'reactants_sparse':
            exp = [num.eqs[k]['loss'].get(inv.get(i), 0.0) for k in range(e) for i in range(n)]
        elif nm in ('dydt_numba', 'dydt_fortran'):
            exp = [0.0 if inv[i] in RESERVED else sum(num.net(inv[i], k) * r[k] for k in range(e)) for i in range(n)]
        elif nm == 'dydt_sparse':
            exp = [0.0 if inv[i] in RESERVED else num.net(inv[i], k) for i in range(n) for k in range(e)]
        elif nm.startswith('jac'):
            exp = [0.0 if inv[i] in RESERVED else sum(num.net(inv[i], k) * r[k] * num.dproduct(k, y, inv[j]) for k in range(e))
                   for i in range(n) for j in range(n)]
        else:
            continue
        if len(v) != len(exp):
            bad.append('%s: %d values instead of %d' % (nm, len(v), len(exp)))
            continue
        sc = max([abs(x) for x in exp] + [0])
        for q, (a, b) in enumerate(zip(v, exp)):
            if not close(a, b, sc):
                if nm.startswith('jac'):
                    lab = 'd(d%s/dt)/d%s' % (inv[q // n], inv[q % n])
                elif nm.startswith('dydt_') and nm != 'dydt_sparse':
                    lab = 'd%s/dt' % inv[q]
                else:
                    lab = 'entry %d' % q
                bad.append('%s %s = %r, mechanism gives %r at y=%s r=%s' % (nm, lab, a, b, y, r))
                break
    return '; '.join(bad[:3]) if bad else None


def replay_for(what, backends, openmp=False):
    def replay(inp):
        num = Num(inp['expect'])
        pts = []
        if inp.get('y'):
            pts.append((inp['y'], inp['r']))
        for p in POINTS:
            pts.append(({s: p[i % len(p)] for i, s in enumerate(num.species)}, [p[(i + 3) % len(p)] * 1.1 for i in range(len(num.eqs))]))
        for y, r in pts:
            for cores in ([inp['cores']] if inp.get('cores') else [4]):
                got = realcode.call('generate', text=inp['text'], y=y, r=r, what=[what], backends=list(backends),
                                    openmp=bool(inp.get('openmp', openmp)), cores=cores)
                if 'exception' in got:
                    return got['exception']
                got = {k: v for k, v in got.items() if k != 'species' and k in WANT[what, tuple(backends)] | {'species'}} | \
                    {'species': got['species']}
                t = compare(what, got, dict(map(tuple, got['species'])), num, y, r)
                if t:
                    return 'mechanism:\n%s%s' % (inp['text'], t)
        return inp.get('schedule')
    return replay


WANT = {('reactants', ('numba',)): {'reactants_numba', 'reactants_saved'}, ('reactants', ('fortran',)): {'reactants_fortran'},
        ('dydt', ('numba',)): {'dydt_numba'}, ('dydt', ('fortran',)): {'dydt_fortran'},
        ('reactants', ('sparse',)): {'reactants_sparse', 'reactants_saved'}, ('dydt', ('sparse',)): {'dydt_sparse'},
        ('jac', ('numba',)): {'jac_numba'}, ('jac', ('fortran',)): {'jac_fortran'}}


def to_input(cex, c):
    m, ref = cex.info[:2]
    y = {s: ev(cex.model, z3.Real('y_' + s)) for s in ref.species}
    r = [ev(cex.model, z3.Real('r_%d' % k)) for k in range(len(m.eqs))]
    d = {'text': mech.conc(cex.model, m.text), 'expect': mech.conc_expected(cex.model, m), 'claim': cex.label}
    if all(map(clean, y.values())) and all(map(clean, r)):
        d['y'], d['r'] = y, r
    if len(cex.info) > 2:
        d.update(cex.info[2])
    return d


# ------------------------------------------------------------------ running the generated code
def symbols(c, ref, s2a, e):
    y = {s: z3.Real('y_' + s) for s in ref.species}
    for s in ref.species:
        c.assume(y[s] > 0)
    n = len(s2a)
    yv = np.empty(n, dtype=object)
    for s, i in s2a.items():
        yv[i] = SymReal(y[s])
    rv = np.empty(e, dtype=object)
    for k in range(e):
        rv[k] = SymReal(z3.Real('r_%d' % k))
    return y, yv, rv


def zeros(*shape):
    a = np.empty(shape, dtype=object)
    a.fill(0.0)
    return a


def gen_module(v, fname):
    if fname not in v.files:
        raise FileNotFoundError('%s was not generated' % fname)
    nb = Anything('numba')
    return loader.exec_text(v.files[fname], modules={'numba': nb, 'numpy': npshim.NP(v)}, names=dict(core.ctx().tokens), modname=fname[:-3])


def gen_fortran(v, fname):
    if fname not in v.files:
        raise FileNotFoundError('%s was not generated' % fname)
    return fortran.parse(v.files[fname])


def guard(c, info, f):
    try:
        return f()
    except (core.Inconclusive, core.PathDead):
        raise
    except Exception as ex:
        if c.poison:
            raise core.Inconclusive(c.poison)
        import traceback
        c.prove(False, 'no failure on a well-formed mechanism (%s: %s)' % (type(ex).__name__, str(ex)[:200]), info)
        return None


def write(W, what, backend, o, openmp):
    e, n = o['max_equations'], len(o['species_dict'])
    s2a, ld, gd, rr = o['species_dict2array'], o['loss_dict'], o['gain_dict'], o['rate_dict_reactants']
    fn, args = {
        ('reactants', 'numba'): ('write_reactants_indices', ('m', e, n, s2a, rr, ld)),
        ('reactants', 'sparse'): ('write_reactants_indices', ('m', e, n, s2a, rr, ld)),
        ('reactants', 'fortran'): ('write_reactants_indices_fortran', ('m', e, s2a, rr, ld, openmp)),
        ('dydt', 'numba'): ('write_loss_gain_matrix', ('m', e, n, ld, gd, s2a)),
        ('dydt', 'sparse'): ('write_loss_gain_matrix', ('m', e, n, ld, gd, s2a)),
        ('dydt', 'fortran'): ('write_loss_gain_fortran', ('m', e, n, ld, gd, s2a, openmp)),
        ('jac', 'numba'): ('write_gas_jacobian_numba', ('m', e, n, ld, gd, s2a, rr)),
        ('jac', 'fortran'): ('write_gas_jacobian_fortran', ('m', e, n, ld, gd, s2a, rr, openmp)),
    }[what, backend]
    core.STATS.functions.add('Parse_eqn_file.' + fn)
    W[fn](*args)


def harness(build, what, backend, openmp=False):
    def fn(c):
        m = build(c)
        ref = Ref(m)
        cores = None
        if openmp:
            cores = c.choose(openmp)
            _cores(cores)
        info = ('m', m)
        extra = {'cores': cores, 'openmp': True} if openmp else {'openmp': False}
        I = (m, ref, extra)

        def go():
            o, W, v = parsed(m)
            write(W, what, backend, o, bool(openmp))
            s2a = {str(k): int(i) for k, i in o['species_dict2array'].items()}
            if sorted(s2a) != sorted(ref.species) or sorted(s2a.values()) != list(range(len(s2a))) or o['max_equations'] != len(m.eqs):
                c.prove(False, 'the parser keeps the species and reactions of the mechanism', I)
                return
            e, n = len(m.eqs), len(s2a)
            y, yv, rv = symbols(c, ref, s2a, e)
            check(c, what, backend, I, ref, v, s2a, e, n, y, yv, rv)
        guard(c, I, go)
    return fn


def _cores(n):
    repo()
    _cache['cores'][0] = n


def check(c, what, backend, I, ref, v, s2a, e, n, y, yv, rv):
    inv = {i: s for s, i in s2a.items()}
    if what == 'reactants':
        exp = [ref.product(k, y) for k in range(e)]
        if backend == 'sparse':
            z = v.sparse['reactants_indices_sparse_m']
            d = Sparse((z['data'], z['indices'], z['indptr']), z['shape']).dense()
            c.prove(len(d) == e and all(len(r) == n for r in d), 'shape of the reactant matrix', I)
            for k in range(e):
                for i in range(n):
                    c.prove(d[k][i] == ref.loss[k].get(inv[i], core.ZEROT), 'reactant matrix[%d,%s]' % (k, inv[i]), I)
            idx, st = v.arrays['m_reactant_indices'], v.arrays['m_reactants_stoich_indices']
            for k in range(e):
                t = z3.RealVal(1)
                for i, s in zip(idx[k], st[k]):
                    t = t * core.pow_term(y[inv[int(i)]], core.term(s))
                c.prove(t == exp[k], 'saved reactant indices and coefficients of reaction %d' % k, I)
            return
        if backend == 'numba':
            out = gen_module(v, 'Reactants_conc_numba.py')['reactants'](yv, e, zeros(e))
        else:
            out = run_f(c, v, 'Reactants_conc.f90', 'reactants', dict(y=yv), I)['reactants_conc']
        for k in range(e):
            c.prove(core.term(out[k]) == exp[k], 'product of reactants of reaction %d' % k, I)
    elif what == 'dydt':
        if backend == 'sparse':
            z = v.sparse['loss_gain_m']
            d = Sparse((z['data'], z['indices'], z['indptr']), z['shape']).dense()
            c.prove(len(d) == n and all(len(r) == e for r in d), 'shape of the loss/gain matrix', I)
            for i in range(n):
                for k in range(e):
                    c.prove(d[i][k] == (core.ZEROT if inv[i] in RESERVED else ref.net(inv[i], k)), 'loss/gain matrix[%s,%d]' % (inv[i], k), I)
            return
        if backend == 'numba':
            out = gen_module(v, 'Loss_Gain_numba.py')['dydt'](zeros(n), rv)
        else:
            out = run_f(c, v, 'Loss_Gain.f90', 'loss_gain', dict(r=rv), I)['loss_gain_array']
        for i in range(n):
            exp = core.ZEROT if inv[i] in RESERVED else z3.Sum([ref.net(inv[i], k) * rv[k].t for k in range(e)])
            c.prove(core.term(out[i]) == exp, 'd%s/dt' % inv[i], I)
    else:
        if backend == 'numba':
            out = gen_module(v, 'Jacobian_numba.py')['jacobian'](rv, yv, zeros(n, n))
        else:
            out = run_f(c, v, 'Jacobian.f90', 'jacobian', dict(r=rv, y=yv), I)['dy_dy']
        for i in range(n):
            for j in range(n):
                exp = core.ZEROT if inv[i] in RESERVED else \
                    z3.Sum([ref.net(inv[i], k) * rv[k].t * ref.dproduct(k, y, inv[j]) for k in range(e)])
                c.prove(core.term(out[i, j]) == exp, 'd(d%s/dt)/d%s' % (inv[i], inv[j]), I)


def run_f(c, v, fname, sub, args, I):
    it = fortran.Interp(gen_fortran(v, fname))
    out = it.run(sub, args)
    pts = []
    for k in range(2):
        e = {}
        for a in args.values():
            for i, x in enumerate(a):
                e[str(x.t)] = 1.25 + 0.37 * i + 0.61 * k + 0.05 * (i * i % 7)
        pts.append(e)
    no_races(c, it, lambda how: fortran.Interp(gen_fortran(v, fname), schedule=how).run(sub, args), list(out), I, pts, out)
    return out


def no_races(c, it, rerun, outs, I, points, out=None):
    """concurrent tasks do not conflict; for a conflict, a schedule of the emitted code with a different result is searched"""
    for reg in it.regions:
        bad = fortran.races(reg)
        if not bad and not reg['every']:
            c.prove(True, 'concurrent blocks of the region do not touch the same element', I)
            continue
        what = ('concurrent blocks touch the same element: %s' % sorted(set((a, b, l[0]) for a, b, l in bad))[:2]) if bad else \
            'statements of the parallel region are executed by every thread (lines %s)' % reg['every'][:3]
        base = out if out is not None else rerun(None)
        txt = None
        for how in ('snapshot', 'lockstep', 'reverse'):
            try:
                o = rerun(how)
            except fortran.FortranError as e:
                txt = 'schedule %s: %s' % (how, e)
                break
            for n in outs:
                A, B = np.ravel(np.array(base[n], dtype=object)), np.ravel(np.array(o[n], dtype=object))
                for i, (x, y) in enumerate(zip(A, B)):
                    for p in points:
                        u, w = eqprove.feval(core.term(x), p, {}), eqprove.feval(core.term(y), p, {})
                        if txt is None and u is not None and not (w is not None and eqprove.close(u, w)):
                            txt = '%s; in the schedule "%s" of the emitted code %s element %d becomes %s, serially %s' % (what, SCHED[how], n, i, w, u)
            if txt:
                break
        c.prove(False, what, with_schedule(I, txt))
        return


SCHED = {'snapshot': 'all threads read before any of them writes back', 'lockstep': 'the threads advance statement by statement in turn',
         'reverse': 'the blocks run in the reverse order'}


def with_schedule(I, txt):
    if len(I) > 2 and isinstance(I[2], dict):
        return I[:2] + (dict(I[2], schedule=txt),)
    return I + (txt,)


# ------------------------------------------------------------------ layouts
def layouts(tier, jac=False):
    deep = tier == 'thorough'
    L = [
        ('one reaction, integer coefficients', [(['d', 'd'], ['d'])], (), 'd'),
        ('one reaction, decimal coefficients', [(['d.d', 'd.d'], ['d.d'])], (), 'd.d'),
        ('bath species', [(['', 'd'], ['', 'd'])], RESERVED if not jac else RESERVED[1:], ''),
        ('two reactions', [(['', 'd'], ['d']), (['d'], ['', ''])] if not jac else [(['', 'd'], ['']), (['d'], ['', ''])], (), ''),
        ('photolysis and sink', [(['', 'hv'], ['d', '']), (['', 'd'], [])], (), ''),
        ('photon emitted', [(['', 'd'], ['hv', '']), (['', 'hv'], ['d', 'hv'])], (), ''),
        ('three reactions', [([''], ['d']), (['', ''], ['']), (['d'], [''])], (), ''),
    ]
    if deep:
        L += [('three reactants', [(['d', 'd', 'd'], ['d'])], (), ''),
              ('two-digit and tenths coefficients', [(['dd', '.d'], ['d.dd', 'dd'])], (), ''),
              ('two full reactions', [(['', 'd'], ['d', '']), (['d', ''], ['d', ''])], (), ''),
              ('bath species, two reactions', [(['', 'd'], ['']), (['', ''], ['d'])], RESERVED, ''),
              ('four reactions', [([''], ['']), (['', ''], ['']), ([''], ['d']), (['d'], [''])], (), '')]
    return L


def long_layouts(tier):
    """one species in many reactions: exercises the line breaking of the emitted text"""
    out = []
    for n in ([7, 19] if tier != 'thorough' else [7, 12, 19, 31]):
        lay, fx = [], []
        for k in range(n):
            lay.append((['', 'd' if k == n // 2 else ''], ['d' if k == n - 2 else '']))
            fx += ['A', 'B1' if k % 2 else 'C2O', 'D' if k % 3 else 'A']
        out.append(('%d reactions of one species' % n, lay, fx))
    out.append(many_species(13 if tier != 'thorough' else 27))
    return out


def many_species(n):
    """more than ten species and reactions, met in an order that is not the alphabetic one"""
    lay, fx = [], []
    for k in range(n - 1):
        lay.append((['d' if k == 1 else '', ''] if k % 3 == 0 or k == 1 else ['d' if k == n - 3 else ''], ['', 'd' if k == n - 2 else '']))
        fx += ['C%dH' % k] + (['C%dH' % ((k * 5) % n)] if len(lay[-1][0]) == 2 else []) + ['C%dH' % (k + 1), 'C%dH' % ((k * 7 + 3) % n)]
    return ('%d species in %d reactions' % (n, n - 1), lay, fx)


BASE = [(['A', 'B1'], ['C2O', 'D']), (['A', 'B1', 'C2O'], ['D', 'E', 'A']), (['C2O', 'D', 'A'], ['B1', 'D']), (['B1', 'hv'], ['A', 'D'])]


def somewhere(c, how_many, same=False):
    """a fixed network in which any how_many of the coefficients (of one reaction) are decimal numbers"""
    pos = [(k, sd, i) for k, q in enumerate(BASE) for sd in (0, 1) for i, s in enumerate(q[sd]) if s != 'hv']
    sel = c.choose([q for q in itertools.combinations(pos, how_many) if not same or len({p[0] for p in q}) == 1])
    lay, fx = [], []
    for k, q in enumerate(BASE):
        sides = []
        for sd in (0, 1):
            sides.append(['hv' if s == 'hv' else 'd.dddd' if (k, sd, i) in sel else '' for i, s in enumerate(q[sd])])
            fx += [s for s in q[sd] if s != 'hv']
        lay.append(tuple(sides))
    return mechanism(c, lay, fixed=fx)


def cases(what, backend, tier, openmp=False):
    out = _cases(what, backend, tier, openmp)
    for k in out:
        k.name = '%s, %s' % (backend, k.name)
    return out


def omp_cases(tier):
    """emitted Fortran with the OpenMP flag, for every cpu count in the range"""
    from vt import report
    cpus = range(1, 9) if tier != 'thorough' else range(1, 33)
    lays = [('one reaction', [(['', 'd'], ['d', ''])], ['A', 'B1', 'C2O', 'A']),
            ('3 reactions', [([''], ['d']), (['', ''], ['d']), (['d'], ['', 'd'])], ['A', 'B1', 'A', 'B1', 'C2O', 'C2O', 'D', 'A']),
            ('bath and photon', [(['', 'd'], ['']), (['', 'hv'], ['d']), (['d'], [''])], ['A', 'O2', 'B1', 'B1', 'A', 'C2O', 'H2O'])]
    n = 11
    lay, fx = [], []
    for k in range(n):
        lay.append((['', 'd' if k == n // 2 else ''], ['d' if k == n - 2 else '']))
        fx += ['A', 'ABCDEFGH'[k % 7 + 1], 'ABCDEFGHIJ'[(k * 3) % 9]]
    lays.append(('%d reactions' % n, lay, fx))
    lays.append(many_species(13 if tier != 'thorough' else 27))
    if tier == 'thorough':
        n, lay, fx = 29, [], []
        for k in range(29):
            lay.append((['', 'd' if k == 3 else ''], ['d' if k == 17 else '']))
            fx += ['S%d' % (k % 13), 'S%d' % ((k * 5) % 17), 'T%d' % (k % 19)]
        lays.append(('%d reactions' % n, lay, fx))
    out = []
    for what in ('reactants', 'dydt', 'jac'):
        for nm, lay, fx in lays:
            out.append(report.Case('%s, %s' % (what, nm), harness(lambda c, lay=lay, fx=fx: mechanism(c, lay, fixed=fx), what, 'fortran', cpus),
                                   to_input, replay_for(what, ('fortran',), True),
                                   '%d reactions with fixed names, cpu counts %d..%d' % (len(lay), cpus[0], cpus[-1]), max_paths=200000))
    return out


def _cases(what, backend, tier, openmp=False):
    from vt import report
    out = []
    for nm, lay, res, _ in layouts(tier, what == 'jac'):
        out.append(report.Case(nm, harness(lambda c, lay=lay, res=res: mechanism(c, lay, res), what, backend, openmp),
                               to_input, replay_for(what, (backend,)),
                               'reactions %s, every coincidence of species names, %s' % (
                                   ' ; '.join('+'.join(x or '1' for x in r) + ' -> ' + '+'.join(x or '1' for x in p) for r, p in lay),
                                   'bath species possible' if res else 'no bath species'), max_paths=200000))
    for k, same in ((1, False), (2, True)) if tier != 'thorough' else ((1, False), (2, False), (3, True)):
        nm = '%d decimal coefficient%s %s' % (k, 's' * (k > 1), 'in one reaction' if same else 'anywhere')
        out.append(report.Case(nm, harness(lambda c, k=k, same=same: somewhere(c, k, same), what, backend, openmp),
                               to_input, replay_for(what, (backend,)), 'a network of four reactions and five species with any %s d.dddd' % nm, max_paths=200000))
    for nm, lay, fx in long_layouts(tier):
        out.append(report.Case(nm, harness(lambda c, lay=lay, fx=fx: mechanism(c, lay, fixed=fx), what, backend, openmp),
                               to_input, replay_for(what, (backend,)), '%d reactions with fixed names' % len(lay), max_paths=200000))
    return out


ASSUME = ['every reaction has at least one chemical reactant; species names and coefficients as the mechanism grammar of the parser',
          'concentrations are positive reals and arithmetic is exact real arithmetic (rounding is outside)',
          'numeric literals of emitted Fortran are read at their decimal value (default-kind literals are single precision in gfortran: about 1e-7 relative)',
          'powers with a non-integer or symbolic exponent are an uninterpreted function with p**0=1, p**1=p, p**2, p**3 and positivity',
          'the concentrations of AIR, H2O and O2 are not integrated by the gas-phase model']
OUTSIDE = ['mechanisms with more reactions or terms than the listed shapes', 'floating-point rounding and overflow', 'the compiler (f2py, numba) itself']
EXPL = ('The real parser runs on a mechanism text with symbolic coefficient digits; the real writer functions of the current source emit code; the '
        'emitted code is executed (Python) or interpreted (Fortran) on symbolic concentrations and rates; z3 decides, for every coefficient, '
        'concentration and rate, equality with the value the mechanism text prescribes. ')
