"""Equality of two real terms with uninterpreted functions, decided bottom-up.

Function applications are replaced, innermost first, by variables; two applications of one function get the same
variable only when z3 shows their (already rewritten) arguments equal.  What remains is an equality of rational
functions for z3.  Only a selection of pairs is guided by floating-point evaluation, never the verdict.
"""
import math
import random
from fractions import Fraction
import z3
from . import core

NUM = {'EXP': math.exp, 'LOG': math.log, 'LOG10': math.log10, 'SIN': math.sin, 'COS': math.cos, 'SQRT': math.sqrt, 'POW': lambda a, b: a ** b}


def feval(t, env, memo):
    """floating value of a term, None if undefined"""
    st = [t]
    while st:
        u = st[-1]
        i = u.get_id()
        if i in memo:
            st.pop()
            continue
        ch = u.children()
        todo = [x for x in ch if x.get_id() not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        memo[i] = (u, _ap(u, [memo[x.get_id()][1] for x in ch], env))
    return memo[t.get_id()][1]


def _ap(u, a, env):
    k = u.decl().kind()
    try:
        if z3.is_rational_value(u):
            return u.numerator_as_long() / u.denominator_as_long()
        if z3.is_int_value(u):
            return u.as_long()
        if any(x is None for x in a):
            return None
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for x in a:
                r *= x
            return r
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_ITE:
            return a[1] if a[0] else a[2]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_TO_REAL:
            return a[0]
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_UNINTERPRETED:
            n = u.decl().name()
            if not a:
                if n == 'PI4':
                    return math.pi / 4
                if n in env:
                    return env[n]
                return None
            if n in NUM:
                return float(NUM[n](*a))
    except (ValueError, OverflowError, ZeroDivisionError, TypeError):
        return None
    return None


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, complex) or isinstance(b, complex) or a != a or b != b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-290


def names_of(t):
    """names of the variables of a term"""
    st, seen, out = [t], set(), set()
    while st:
        u = st.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(u.decl().name())
        st.extend(u.children())
    return out


def var_at(n, v):
    if n.startswith('c!') or isinstance(v, int):
        return z3.Int(n) == v
    return z3.Real(n) == core.realval(Fraction(repr(v)))


def ratform(t, memo):
    """(numerator, denominator) of a term over +, -, *, /"""
    i = t.get_id()
    if i in memo:
        return memo[i][1]
    k = t.decl().kind() if z3.is_app(t) else None
    one = z3.RealVal(1)
    ch = t.children()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = ratform(ch[0], memo)
        for x in ch[1:]:
            n2, d2 = ratform(x, memo)
            if k == z3.Z3_OP_SUB:
                n2 = -n2
            n, d = (n + n2, d) if d.eq(d2) else (n * d2 + n2 * d, d * d2)
    elif k == z3.Z3_OP_MUL:
        n, d = one, one
        for x in ch:
            n2, d2 = ratform(x, memo)
            n, d = n * n2, d if d2.eq(one) else d * d2
    elif k == z3.Z3_OP_DIV:
        n, d = ratform(ch[0], memo)
        n2, d2 = ratform(ch[1], memo)
        n, d = n * d2, d * n2
    elif k == z3.Z3_OP_UMINUS:
        n, d = ratform(ch[0], memo)
        n = -n
    elif k == z3.Z3_OP_ITE and False:
        pass
    else:
        n, d = t, one
    n = z3.simplify(n)
    d = z3.simplify(d)
    memo[i] = (t, (n, d))
    return n, d


ROUND = Fraction(1, 10 ** 12)


def monomials(t):
    """coefficient of every product of variables in a sum of products"""
    out = {}
    for m in (t.children() if z3.is_add(t) else [t]):
        c, f = Fraction(1), []
        st = [m]
        while st:
            x = st.pop()
            if z3.is_mul(x):
                st.extend(x.children())
            elif z3.is_rational_value(x):
                c *= Fraction(x.numerator_as_long(), x.denominator_as_long())
            elif x.decl().kind() == z3.Z3_OP_UMINUS:
                c = -c
                st.append(x.arg(0))
            else:
                f.append(x.sexpr())
        k = tuple(sorted(f))
        out[k] = out.get(k, 0) + c
    return {k: v for k, v in out.items() if v}


def rounding(a, b):
    """equal up to the rounding of folded constants: |a - b| <= 1e-12 * (sum of the magnitudes of the products), decided by z3"""
    try:
        A, B = monomials(a), monomials(b)
    except Exception:
        return False
    if set(A) != set(B) or len(A) > 400:
        return False
    s = z3.Solver()
    s.set('timeout', 5000)
    diff, tot = [], []
    for i, k in enumerate(A):
        v, m = z3.Real('mono!%d' % i), z3.Real('size!%d' % i)
        s.add(m >= 0, v <= m, -m <= v)
        diff.append(core.realval(A[k] - B[k]) * v)
        tot.append(core.realval(abs(B[k])) * m)
    d, t = z3.Sum(diff), core.realval(ROUND) * z3.Sum(tot)
    s.add(z3.Or(d > t, d < -t))
    return core.check(s) == z3.unsat


class Normal:
    """powers, roots, logarithms and exponentials in one form: x**e = EXP(e*LOG(x)), LOG(x*y) = LOG(x)+LOG(y), LOG10(x) =
    LOG(x)/LOG(10), EXP(a+b) = EXP(a)*EXP(b), EXP(-a) = 1/EXP(a); the laws of LOG only where z3 shows the arguments positive"""
    def __init__(self, facts):
        self.facts, self.memo, self.pos = facts, {}, {}

    def positive(self, t):
        v = core.const_value(t)
        if v is not None:
            return v > 0
        if t.get_id() not in self.pos:
            s = z3.Solver()
            s.set('timeout', 3000)
            for f in self.facts:
                s.add(f)
            for a in core.axioms_for([t]):
                s.add(a)
            s.add(t <= 0)
            self.pos[t.get_id()] = (t, core.check(s) == z3.unsat)
        return self.pos[t.get_id()][1]

    def log(self, b):
        v = core.const_value(b)
        if v is not None:
            if v == 1:
                return z3.RealVal(0)
            return core.uf('LOG')(core.realval(v)) if v > 1 else -core.uf('LOG')(core.realval(1 / v))
        n = b.decl().name() if z3.is_app(b) else ''
        if n == 'EXP':
            return b.arg(0)
        k = b.decl().kind()
        if k == z3.Z3_OP_MUL and all(self.positive(x) for x in b.children()):
            return z3.Sum([self.log(x) for x in b.children()])
        if k == z3.Z3_OP_DIV and all(self.positive(x) for x in b.children()):
            return self.log(b.arg(0)) - self.log(b.arg(1))
        return core.uf('LOG')(b)

    def exp(self, x):
        n, d = ratform(z3.simplify(x), {})
        n = z3.simplify(n, som=True)
        dv = core.const_value(d)
        r = z3.RealVal(1)
        for m in (n.children() if z3.is_add(n) else [n]):
            c, rest = Fraction(1), m
            if core.const_value(m) is not None:
                c, rest = core.const_value(m), z3.RealVal(1)
            elif z3.is_mul(m) and core.const_value(m.arg(0)) is not None:
                c = core.const_value(m.arg(0))
                rest = m.arg(1) if m.num_args() == 2 else z3.Product(m.children()[1:])
            if c == 0:
                continue
            if dv is not None and z3.is_app(rest) and rest.decl().name() == 'LOG' and abs(c / dv) <= 6:
                # exp(c*LOG(x)) = x**floor(c) * EXP((c-floor(c))*LOG(x))
                e, x = c / dv, rest.arg(0)
                k = e.numerator // e.denominator
                for _ in range(abs(k)):
                    r = r / x if k < 0 else r * x
                if e != k:
                    r = r * core.uf('EXP')(z3.simplify(core.realval(e - k) * rest))
                continue
            f = core.uf('EXP')(z3.simplify(core.realval(abs(c)) * rest / d))
            neg = c < 0
            r = r / f if neg else r * f
        return r

    def __call__(self, t):
        st = [t]
        while st:
            u = st[-1]
            if u.get_id() in self.memo:
                st.pop()
                continue
            todo = [x for x in u.children() if x.get_id() not in self.memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            self.memo[u.get_id()] = (u, self.one(u, [self.memo[x.get_id()][1] for x in u.children()]))
        return self.memo[t.get_id()][1]

    def one(self, u, ch):
        if not ch:
            return u
        n = u.decl().name() if u.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
        if n in ('POW', 'SQRT', 'LOG', 'LOG10', 'EXP'):
            ch = [z3.simplify(x) for x in ch]
            if n == 'EXP':
                return self.exp(ch[0])
            if self.positive(ch[0]):
                L = self.log(ch[0])
                if n == 'LOG':
                    return L
                if n == 'LOG10':
                    return L / core.uf('LOG')(z3.RealVal(10))
                return self.exp(L / 2 if n == 'SQRT' else L * ch[1])
        return z3.simplify(u.decl()(*ch))


def roots(terms, facts, envs):
    """substitution of w**q for a variable x whose fractional powers p/q occur: EXP(p/q*LOG(x)) = w**p"""
    exps = {}
    for t in core.uf_terms(terms):
        if t.decl().name() != 'EXP':
            continue
        m = t.arg(0)
        if not (z3.is_mul(m) and m.num_args() == 2 and core.const_value(m.arg(0)) is not None):
            continue
        g = m.arg(1)
        if z3.is_app(g) and g.decl().name() == 'LOG' and z3.is_const(g.arg(0)) and g.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            exps.setdefault(g.arg(0), []).append((core.const_value(m.arg(0)), t))
    sub, new, info = [], [dict(e) for e in envs], []
    for x, L in exps.items():
        n = x.decl().name()
        q = math.lcm(*[c.denominator for c, _ in L])
        if q > 24 or any(n not in e or e[n] <= 0 for e in envs):
            continue
        w = z3.Real('root!' + n)
        for c, t in L:
            k = int(c * q)
            pw = z3.Product([w] * abs(k)) if k else z3.RealVal(1)
            sub.append((t, pw if k >= 0 else 1 / pw))
        sub.append((x, z3.Product([w] * q)))
        info.append((x, q, w))
        for e in new:
            e['root!' + n] = e[n] ** (1.0 / q)
    for e in new:
        e['@'] = info
    return sub, new


class Prover:
    def __init__(self, c, facts, envs, timeout=20000):
        self.c, self.envs, self.timeout = c, envs, timeout
        self.facts, self.raw = list(facts), list(facts)
        self.map = {}        # id -> (term, rewritten)
        self.reps = {}       # function name -> list of (args, var, original)
        self.memo = [dict() for _ in envs]
        self.vals = {}
        self.n = 0
        self.keep = []

    def num(self, t):
        i = t.get_id()
        if i not in self.vals:
            self.vals[i] = (t, [feval(t, e, m) for e, m in zip(self.envs, self.memo)])
        return self.vals[i][1]

    def alike(self, a, b):
        return all(close(x, y) for x, y in zip(self.num(a), self.num(b)))

    def rewrite(self, t):
        st = [t]
        while st:
            u = st[-1]
            i = u.get_id()
            if i in self.map:
                st.pop()
                continue
            todo = [x for x in u.children() if x.get_id() not in self.map]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            ch = [self.map[x.get_id()][1] for x in u.children()]
            if u.decl().kind() == z3.Z3_OP_UNINTERPRETED and ch:
                r = self.rep(u, ch)
            elif not ch:
                r = u
            else:
                r = z3.simplify(u.decl()(*ch))
            self.map[i] = (u, r)
        return self.map[t.get_id()][1]

    def rep(self, u, ch):
        n = u.decl().name()
        L = self.reps.setdefault(n, [])
        for args, var, orig in L:
            if all(a.eq(b) for a, b in zip(args, ch)):
                return var
        for args, var, orig in L:
            if self.alike(orig, u) and all(self.alike(orig.arg(k), u.arg(k)) for k in range(len(ch))):
                if all(self.equal(a, b) == z3.unsat for a, b in zip(args, ch)):
                    return var
        self.n += 1
        var = z3.Real('%s@%d' % (n, self.n))
        L.append((ch, var, u))
        # what the function value satisfies, over the rewritten arguments
        for ax in core.axioms_for([u.decl()(*ch)]):
            self.facts.append(z3.substitute(ax, (u.decl()(*ch), var)))
        return var

    def equal(self, a, b, timeout=None):
        d = z3.simplify(a == b)
        if z3.is_true(d):
            return z3.unsat
        d2 = z3.simplify(a - b == 0, som=True)
        if z3.is_true(d2):
            return z3.unsat
        m = {}
        (n1, q1), (n2, q2) = ratform(a, m), ratform(b, m)
        if z3.is_true(z3.simplify(n1 * q2 - n2 * q1 == 0, som=True)):
            return z3.unsat
        if rounding(z3.simplify(n1 * q2, som=True), z3.simplify(n2 * q1, som=True)):
            return z3.unsat
        for facts in (self.sign_facts(a, b), self.facts):
            s = z3.Solver()
            s.set('timeout', timeout or self.timeout)
            for f in facts:
                s.add(f)
            s.add(a != b)
            r = core.check(s)
            if r == z3.unsat:
                return r
        return r

    def sign_facts(self, a, b):
        vs = names_of(a) | names_of(b)
        out = []
        for f in self.facts:
            fv = names_of(f)
            if fv and fv <= vs:
                out.append(f)
        return out

    def prove(self, a, b, label, info=None, extra=()):
        """record a == b as an obligation of the path"""
        S = core.STATS
        d = z3.simplify(a == b)
        if z3.is_true(d):
            S.obligations += 1
            S.discharged += 1
            return True
        if self.alike(a, b):
            x, y = self.rewrite(a), self.rewrite(b)
            if self.equal(x, y, 2000) == z3.unsat or self.again(a, b) or self.equal(x, y) == z3.unsat:
                S.obligations += 1
                S.discharged += 1
                return True
            return self.c.prove(a == b, label, info, extra)
        # a floating-point difference: let the solver confirm a counterexample at that point
        for k, e in enumerate(self.envs):
            if not close(self.num(a)[k], self.num(b)[k]):
                pt = z3.And([var_at(n, v) for n, v in e.items()])
                return self.point(a, b, pt, label, info)

    def again(self, a, b):
        """second attempt, over the normal form of powers and logarithms"""
        facts = self.raw + list(self.c.pc)
        nf = Normal(facts)
        x, y = z3.simplify(nf(a)), z3.simplify(nf(b))
        sub, envs = roots([x, y], facts, self.envs)
        facts = [z3.substitute(f, *sub) for f in facts] + [w > 0 for _, _, w in envs[0].get('@', [])]
        p = Prover(self.c, facts, [{k: v for k, v in e.items() if k != '@'} for e in envs], self.timeout)
        u, v = z3.simplify(z3.substitute(x, *sub)), z3.simplify(z3.substitute(y, *sub))
        q = Prover(self.c, [], self.envs)
        if not (q.alike(x, a) and q.alike(y, b) and p.alike(u, v)):
            return False
        for f in self.c.pc:
            p.facts.append(p.rewrite(z3.substitute(f, *sub)))
        p.facts.append(p.rewrite(core.uf('LOG')(z3.RealVal(10))) > 0)
        return p.equal(p.rewrite(u), p.rewrite(v)) == z3.unsat

    def point(self, a, b, pt, label, info):
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(pt, a != b)
        s.add(self.c.pc)
        S = core.STATS
        S.obligations += 1
        r = core.check(s)
        if r == z3.unsat:
            # the point satisfies the equality in exact arithmetic: use the general query
            S.obligations -= 1
            return self.c.prove(a == b, label, info)
        if r != z3.sat:
            self.c.die('prove %s: solver answered unknown' % label)
        self.c.fails.append(core.Cex(label, s.model(), info))
        return False

    def claim(self, cl, label, info=None):
        """record an arbitrary claim as an obligation of the path, decided over the rewritten terms"""
        S = core.STATS
        q = z3.simplify(self.rewrite(z3.simplify(cl)))
        S.obligations += 1
        if z3.is_true(q):
            S.discharged += 1
            return True
        for facts in (self.sign_facts(q, q), self.facts):
            s = z3.Solver()
            s.set('timeout', self.timeout)
            s.add(facts)
            s.add(z3.Not(q))
            r = core.check(s)
            if r == z3.unsat:
                S.discharged += 1
                return True
        for k, e in enumerate(self.envs):
            if self.num(cl)[k] is False:
                pt = z3.And([var_at(n, v) for n, v in e.items()])
                s = z3.Solver()
                s.set('timeout', self.timeout)
                s.add(pt, z3.Not(cl))
                s.add(self.c.pc)
                if core.check(s) == z3.sat:
                    self.c.fails.append(core.Cex(label, s.model(), info))
                    return False
        S.obligations -= 1
        return self.c.prove(cl, label, info)

    def add_path(self):
        for p in list(self.c.pc):
            self.facts.append(self.rewrite(p))
