"""Symbolic execution core: path exploration by re-execution, proxies over z3 terms.

The real code of /repo is executed by CPython; values that the property quantifies over are
proxies (SymReal, SymInt, SymBool, SymStr in sstr.py).  Whenever the code needs the truth of
a symbolic condition, `branch` asks z3 which outcomes are possible under the path condition
and explores every possible one.  `prove` asks z3 for a value violating a claim.
"""
import math
import time
from fractions import Fraction
import z3


class Inconclusive(BaseException):
    """The engine cannot decide (unknown, unsupported operation, path limit)."""


class PathDead(BaseException):
    """The path condition became unsatisfiable (assume)."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.solver_s = 0.0
        self.paths = 0
        self.obligations = 0
        self.discharged = 0
        self.functions = set()


STATS = Stats()
QUERY_TIMEOUT_MS = 60000


def check(solver, *assumptions):
    t = time.time()
    r = solver.check(*assumptions)
    STATS.solver_s += time.time() - t
    STATS.queries += 1
    if r == z3.sat:
        STATS.sat += 1
    elif r == z3.unsat:
        STATS.unsat += 1
    return r


class Cex:
    def __init__(self, label, model, info):
        self.label, self.model, self.info = label, model, info


class Ctx:
    def __init__(self, prefix, facts=()):
        self.prefix = prefix
        self.trace = []
        self.alts = []
        self.pc = list(facts)
        self.poison = None
        self.fails = []
        self.tokens = {}
        self.ntok = 0
        self.nfresh = 0
        self.notes = {}
        self._solver = None
        self._n = 0

    # -- solver over path condition
    def solver(self):
        if self._solver is None:
            self._solver = z3.Solver()
            self._solver.set('timeout', QUERY_TIMEOUT_MS)
            self._n = 0
        while self._n < len(self.pc):
            self._solver.add(self.pc[self._n])
            self._n += 1
        return self._solver

    def die(self, msg):
        if self.poison is None:
            self.poison = msg
        raise Inconclusive(msg)

    def fresh(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self.pc.append(cond)
        r = check(self.solver())
        if r == z3.unsat:
            raise PathDead()
        if r != z3.sat:
            self.die('assume: solver answered unknown')

    def fact(self, cond):
        """add a fact known to be consistent (axiom instance)"""
        self.pc.append(cond)

    def feasible(self, cond):
        s = self.solver()
        s.push()
        for a in axioms_for([cond]):
            s.add(a)
        s.add(cond)
        r = check(s)
        s.pop()
        if r == z3.unknown:
            self.die('branch feasibility: solver answered unknown on %s' % str(cond)[:200])
        return r == z3.sat

    def branch(self, cond):
        """truth of z3 Bool cond, forking if both are possible"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            if self.poison:
                raise Inconclusive(self.poison)
            nc = z3.simplify(z3.Not(cond))
            if any(cond.eq(x) for x in self.pc):
                t, f = True, False
            elif any(nc.eq(x) for x in self.pc):
                t, f = False, True
            else:
                t = self.feasible(cond)
                f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                v, forced = True, False
                self.alts.append(self.trace + [(False, False)])
            else:
                v, forced = t, True
        self.trace.append((v, forced))
        if not forced:
            self.pc.append(cond if v else z3.simplify(z3.Not(cond)))
        return v

    def choose(self, options, name='choice'):
        """nondeterministic choice among concrete options (forks)"""
        options = list(options)
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i][0]
        else:
            k = 0
            for j in range(1, len(options)):
                self.alts.append(self.trace + [(j, False)])
        self.trace.append((k, False))
        return options[k]

    def prove(self, claim, label='', info=None, extra=()):
        """decide claim for all values on this path"""
        STATS.obligations += 1
        if isinstance(claim, bool):
            if claim:
                STATS.discharged += 1
                return True
            claim = z3.BoolVal(False)
        c = z3.simplify(claim)
        if z3.is_true(c):
            STATS.discharged += 1
            return True
        s = self.solver()
        s.push()
        s.add(z3.Not(c))
        for a in axioms_for([c] + self.pc):
            s.add(a)
        for e in extra:
            s.add(e)
        r = check(s)
        if r == z3.unknown:
            # one more attempt with the nonlinear tactic
            s2 = z3.SolverFor('QF_UFNRA')
            s2.set('timeout', QUERY_TIMEOUT_MS)
            for a in s.assertions():
                s2.add(a)
            r = check(s2)
            m = s2.model() if r == z3.sat else None
        else:
            m = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unsat:
            STATS.discharged += 1
            return True
        if r == z3.unknown:
            self.die('prove %s: solver answered unknown' % label)
        self.fails.append(Cex(label, m, info))
        return False

    def token(self, value):
        self.ntok += 1
        t = 'SYMV%dV' % self.ntok
        self.tokens[t] = value
        return t


CUR = None


def ctx():
    return CUR


def explore(fn, max_paths=20000, stop_after=3, time_limit=None, facts=(), on_path=None):
    """run fn(ctx) on every feasible path; returns list of (Cex, ctx) failures"""
    global CUR
    stack = [[]]
    fails = []
    n = 0
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        c = Ctx(prefix, facts)
        CUR = c
        n += 1
        if n > max_paths:
            raise Inconclusive('more than %d paths' % max_paths)
        if time_limit and time.time() - t0 > time_limit:
            raise Inconclusive('time limit %ss for exploration reached' % time_limit)
        try:
            fn(c)
        except PathDead:
            pass
        if c.poison:
            raise Inconclusive(c.poison)
        stack.extend(c.alts)
        STATS.paths += 1
        for f in c.fails:
            fails.append((f, c))
        if on_path:
            on_path(c)
        if len(fails) >= stop_after:
            break
    CUR = None
    return fails, n


# ---------------------------------------------------------------- numbers
def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            ctx().die('non-finite float in symbolic arithmetic')
        return Fraction(repr(float(x)))
    import numpy
    if isinstance(x, numpy.integer):
        return Fraction(int(x))
    if isinstance(x, numpy.floating):
        return Fraction(repr(float(x)))
    if isinstance(x, numpy.ndarray) and x.shape == ():
        return frac(x.item())
    return None


def realval(x):
    f = frac(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def term(x):
    """z3 Real term for a proxy or number; None if not numeric"""
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_expr(x):
        return x if x.sort() == z3.RealSort() else z3.ToReal(x)
    f = frac(x)
    if f is None:
        return None
    return realval(f)


ZEROT = z3.RealVal(0)
R = z3.RealSort()
UF = {}


def uf(name, arity=1):
    if name not in UF:
        UF[name] = z3.Function(name, *([R] * (arity + 1)))
    return UF[name]


for _n in ('EXP', 'LOG', 'LOG10', 'SIN', 'COS', 'TAN', 'ATAN', 'ACOS', 'ASIN', 'SQRT', 'ERF'):
    uf(_n)
uf('POW', 2)


def const_value(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def floor_term(t):
    """floor of a real term, as an Int term; the integer part of a constant summand is taken out"""
    t = z3.simplify(t, som=True)
    k = 0
    if z3.is_add(t):
        for x in t.children():
            v = const_value(x)
            if v is not None:
                k += v.numerator // v.denominator
    elif const_value(t) is not None:
        v = const_value(t)
        return z3.IntVal(v.numerator // v.denominator)
    if k:
        return z3.ToInt(z3.simplify(t - k, som=True)) + k
    return z3.ToInt(t)


def trunc_term(t):
    """truncation toward zero, as an Int term"""
    c = ctx()
    if c is not None and not c.feasible(t < 0):
        return floor_term(t)
    return z3.If(t >= 0, floor_term(t), -floor_term(-t))


def pow_term(b, e):
    ev, bv = const_value(e), const_value(b)
    if ev is not None:
        if ev.denominator == 1 and 0 <= ev <= 6:
            n = int(ev)
            if bv is not None:
                return realval(bv ** n)
            r = z3.RealVal(1)
            for _ in range(n):
                r = r * b
            return r if n else z3.RealVal(1)
        if ev.denominator == 1 and -6 <= ev < 0:
            if bv is not None and bv != 0:
                return realval(bv ** int(ev))
            return z3.RealVal(1) / pow_term(b, realval(-ev))
        if ev == Fraction(1, 2):
            return uf('SQRT')(b)
        if bv is not None and bv == 10 and ev.denominator == 1 and abs(ev) < 60:
            return realval(Fraction(10) ** int(ev))
        if ev < 0:
            return z3.RealVal(1) / pow_term(b, realval(-ev))
    return uf('POW', 2)(z3.simplify(b), z3.simplify(e))


def uf_terms(terms, names=None):
    seen, out, st = set(), [], list(terms)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                out.append(t)
            st.extend(t.children())
    return out


AXIOMS_ON = {'pow': True, 'pos': True}


def axioms_for(terms):
    """sound axiom instances for the uninterpreted functions occurring in terms"""
    ax = []
    for t in uf_terms(terms):
        n = t.decl().name()
        if n == 'POW':
            b, e = t.arg(0), t.arg(1)
            if const_value(e) is None:
                ax += [z3.Implies(e == 0, t == 1), z3.Implies(e == 1, t == b),
                       z3.Implies(e == 2, t == b * b), z3.Implies(e == 3, t == b * b * b)]
            ax.append(z3.Implies(b > 0, t > 0))
            ev = const_value(e)
            if ev is not None and ev > 0:
                ax.append(z3.Implies(b == 0, t == 0))
            ax.append(z3.Implies(b == 1, t == 1))
        elif n == 'EXP':
            ax.append(t > 0)
            ax.append(z3.Implies(t.arg(0) == 0, t == 1))
            ax.append(z3.Implies(t.arg(0) <= 0, t <= 1))
            ax.append(z3.Implies(t.arg(0) >= 0, t >= 1))
        elif n == 'SQRT':
            ax.append(z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0))))
        elif n in ('SIN', 'COS'):
            ax.append(z3.And(t >= -1, t <= 1))
    return ax


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, boolterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def logical_not(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        return mkbool(self.t == boolterm(o))

    def __ne__(self, o):
        return mkbool(self.t != boolterm(o))

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'SymBool(%s)' % self.t

    # arithmetic on masks
    def __mul__(self, o):
        return SymReal(term(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return SymReal(term(self)) + o
    __radd__ = __add__


def boolterm(o):
    if isinstance(o, SymBool):
        return o.t
    if z3.is_expr(o):
        return o
    return z3.BoolVal(bool(o))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkreal(t):
    return SymReal(t)


class SymReal:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # numpy calls these names on object arrays
    def exp(self):
        c = const_value(self.t)
        if c is not None and c == 0:
            return SymReal(z3.RealVal(1))
        x = z3.simplify(self.t)
        tr = CUR.notes.get('track_exp') if CUR is not None else None
        if tr is not None:
            tr.append(x)
        return SymReal(uf('EXP')(x))

    def log(self):
        return SymReal(uf('LOG')(z3.simplify(self.t)))

    def log10(self):
        return SymReal(uf('LOG10')(z3.simplify(self.t)))

    def sin(self):
        return SymReal(uf('SIN')(z3.simplify(self.t)))

    def cos(self):
        return SymReal(uf('COS')(z3.simplify(self.t)))

    def tan(self):
        return SymReal(uf('TAN')(z3.simplify(self.t)))

    def arctan(self):
        return SymReal(uf('ATAN')(z3.simplify(self.t)))

    def arccos(self):
        return SymReal(uf('ACOS')(z3.simplify(self.t)))

    def sqrt(self):
        return SymReal(uf('SQRT')(z3.simplify(self.t)))

    def fabs(self):
        return abs(self)

    def log1p(self): return (self + 1.0).log()
    def expm1(self): return self.exp() - 1.0
    def radians(self): return self * math.pi / 180.0
    deg2rad = radians
    def degrees(self): return self * 180.0 / math.pi
    def floor(self): return SymReal(z3.ToReal(floor_term(self.t)))
    def ceil(self): return SymReal(-z3.ToReal(floor_term(-self.t)))
    def trunc(self): return SymReal(z3.ToReal(trunc_term(self.t)))
    def rint(self): return round(self)
    def isfinite(self): return True
    def isnan(self): return False
    isinf = isnan

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        import numpy
        if method == '__call__' and not any(isinstance(a, numpy.ndarray) and a.shape != () for a in args):
            n = ufunc.__name__
            a = [x.item() if isinstance(x, numpy.ndarray) else x for x in args]
            if n in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'arctan', 'arccos', 'sqrt', 'square', 'fabs'):
                return getattr(a[0], n)()
            ops = {'add': '__add__', 'subtract': '__sub__', 'multiply': '__mul__', 'divide': '__truediv__',
                   'true_divide': '__truediv__', 'power': '__pow__', 'less': '__lt__', 'greater': '__gt__',
                   'less_equal': '__le__', 'greater_equal': '__ge__', 'equal': '__eq__', 'not_equal': '__ne__'}
            if n in ops:
                l = a[0] if isinstance(a[0], SymReal) else SymReal(term(a[0]))
                return getattr(l, ops[n])(a[1])
            if n in ('absolute',):
                return abs(a[0])
            if n == 'negative':
                return -a[0]
            if n == 'isnan':
                return False
            if n == 'isfinite':
                return True
            ctx().die('numpy ufunc %s on a symbolic scalar' % n)
        # arrays: run on object arrays
        conv = []
        for x in args:
            if isinstance(x, SymReal):
                z = numpy.empty((), dtype=object)
                z[()] = x
                conv.append(z)
            elif isinstance(x, numpy.ndarray):
                conv.append(x.astype(object))
            else:
                conv.append(x)
        return getattr(ufunc, method)(*conv, **kw)

    def _bin(self, o, f):
        t = term(o)
        if t is None:
            return NotImplemented
        return SymReal(f(t))

    def __add__(self, o): return self._bin(o, lambda t: self.t + t)
    def __radd__(self, o): return self._bin(o, lambda t: t + self.t)
    def __sub__(self, o): return self._bin(o, lambda t: self.t - t)
    def __rsub__(self, o): return self._bin(o, lambda t: t - self.t)
    def __mul__(self, o): return self._bin(o, lambda t: self.t * t)
    def __rmul__(self, o): return self._bin(o, lambda t: t * self.t)
    def __truediv__(self, o): return self._bin(o, lambda t: divide(self.t, t))
    def __rtruediv__(self, o): return self._bin(o, lambda t: divide(t, self.t))
    def __pow__(self, o): return self._bin(o, lambda t: pow_term(self.t, t))
    def __rpow__(self, o): return self._bin(o, lambda t: pow_term(t, self.t))
    def __mod__(self, o): return self._bin(o, lambda t: self.t - t * z3.ToReal(floor_term(self.t / t)))
    def __floordiv__(self, o): return self._bin(o, lambda t: z3.ToReal(floor_term(self.t / t)))
    def __rmod__(self, o): return self._bin(o, lambda t: t - self.t * z3.ToReal(floor_term(t / self.t)))
    def __rfloordiv__(self, o): return self._bin(o, lambda t: z3.ToReal(floor_term(t / self.t)))
    def __divmod__(self, o): return self // o, self % o
    def __neg__(self): return SymReal(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SymReal(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f):
        t = term(o)
        if t is None:
            return NotImplemented
        return mkbool(f(self.t, t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        t = term(o)
        return False if t is None else mkbool(self.t == t)

    def __ne__(self, o):
        t = term(o)
        return True if t is None else mkbool(self.t != t)

    def __hash__(self):
        return 11

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __str__(self):
        return ctx().token(self)
    __repr__ = __str__

    def __format__(self, spec):
        from . import sstr
        return sstr.fmt_number(spec, self)

    def __float__(self):
        c = const_value(self.t)
        if c is not None:
            return float(c)
        ctx().die('float() of a symbolic real at a C boundary')

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    def __int__(self):
        # truncation: fork over the possible values
        c = ctx()
        t = z3.simplify(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))
        return concretize_int(t)

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        return concretize_int(z3.ToInt(self.t))

    def __ceil__(self):
        return -concretize_int(z3.ToInt(-self.t))

    def __round__(self, n=None):
        k = 10 ** int(n or 0)
        t = self.t * realval(Fraction(k))
        f = floor_term(t)
        d = t - z3.ToReal(f)
        r = z3.If(d < z3.RealVal('1/2'), f, z3.If(d > z3.RealVal('1/2'), f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return SymInt(r) if n is None else SymReal(z3.ToReal(r) / realval(Fraction(k)))


def divide(a, b):
    c = ctx()
    if c is not None:
        bv = const_value(b)
        if bv is None and c.notes.get('track_div') is not None:
            c.notes['track_div'].append(b)
        if bv is not None and bv == 0:
            raise ZeroDivisionError('division by zero')
    return a / b


def concretize_int(t, limit=64):
    """fork over the values of an Int term"""
    c = ctx()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    for _ in range(limit):
        i = len(c.trace)
        if i < len(c.prefix):
            # stored as ('int', value)
            v, kind = c.prefix[i]
            c.trace.append((v, kind))
            if kind is True:      # forced: value
                return v
            if kind == 'eq':
                c.pc.append(t == v)
                return v
            if kind == 'ne':
                c.pc.append(t != v)
                continue
        s = c.solver()
        s.push()
        for a in axioms_for([t] + c.pc):
            s.add(a)
        r = check(s)
        if r != z3.sat:
            s.pop()
            c.die('concretize: no model (%s)' % r)
        v = s.model().eval(t, model_completion=True).as_long()
        s.add(t != v)
        r = check(s)
        s.pop()
        if r == z3.unknown:
            c.die('concretize: unknown')
        if r == z3.unsat:
            c.trace.append((v, True))
            return v
        c.alts.append(c.trace + [(v, 'ne')])
        c.trace.append((v, 'eq'))
        c.pc.append(t == v)
        return v
    c.die('concretize: too many values')


class SymInt:
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def _bin(self, o, fi, fr):
        if isinstance(o, SymInt):
            return SymInt(fi(self.t, o.t))
        if isinstance(o, (int,)) and not isinstance(o, bool):
            return SymInt(fi(self.t, z3.IntVal(o)))
        t = term(o)
        if t is None:
            return NotImplemented
        return SymReal(fr(z3.ToReal(self.t), t))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
    __radd__ = __add__
    __rmul__ = __mul__
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)
    def __truediv__(self, o): return SymReal(divide(z3.ToReal(self.t), term(o)))
    def __rtruediv__(self, o): return SymReal(divide(term(o), z3.ToReal(self.t)))
    def __floordiv__(self, o): return self._bin(o, lambda a, b: a / b, lambda a, b: z3.ToReal(z3.ToInt(a / b)))
    def __mod__(self, o): return self._bin(o, lambda a, b: a % b, lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)))
    def __neg__(self): return SymInt(-self.t)
    def __pow__(self, o): return SymReal(pow_term(z3.ToReal(self.t), term(o)))
    def __rpow__(self, o): return SymReal(pow_term(term(o), z3.ToReal(self.t)))

    def _cmp(self, o, f):
        if isinstance(o, SymInt):
            return mkbool(f(self.t, o.t))
        if isinstance(o, int):
            return mkbool(f(self.t, z3.IntVal(o)))
        t = term(o)
        if t is None:
            return NotImplemented
        return mkbool(f(z3.ToReal(self.t), t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if term(o) is None:
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if term(o) is None:
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return concretize_int(self.t).__hash__()

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        return concretize_int(self.t)

    __int__ = __index__

    def __float__(self):
        return float(concretize_int(self.t))

    def __str__(self):
        return str(concretize_int(self.t))
    __repr__ = __str__

    def __format__(self, spec):
        return format(concretize_int(self.t), spec)


def mathfun(name):
    """math-like function usable on proxies and numbers"""
    import math
    pyn = {'arctan': 'atan', 'arccos': 'acos'}.get(name, name)

    def f(x):
        if isinstance(x, (SymReal, SymInt)):
            x = x if isinstance(x, SymReal) else SymReal(term(x))
            return getattr(x, name)()
        return getattr(math, pyn)(x)
    return f


def real(name):
    return SymReal(z3.Real(name))


def model_frac(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
