"""Harness for rate expressions and rate files: conversion, generated evaluate_rates, reference values."""
import ast
import math
import os
import random
import re
import sys
from fractions import Fraction
import numpy as np
import z3
from vt import core, sstr, loader, npshim, fortran, realcode, mech
from vt.core import SymReal
from vt.sstr import SymStr, S, new_char
from vt.loader import VFS, Anything, stub, REPO

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref'))
import mcm  # noqa
from vt import eqprove

_c = {}


class SF:
    """symbolic functions for the reference"""
    @staticmethod
    def c(s): return SymReal(core.realval(Fraction(s)))
    @staticmethod
    def exp(x): return x.exp()
    @staticmethod
    def log(x): return x.log()
    @staticmethod
    def log10(x): return x.log10()
    @staticmethod
    def sqrt(x): return x.sqrt()
    @staticmethod
    def cos(x): return x.cos()
    @staticmethod
    def sin(x): return x.sin()
    @staticmethod
    def abs(x): return abs(x)
    @staticmethod
    def pow(a, b): return a ** b


class NF:
    c = staticmethod(float)
    exp, log, log10, sqrt, cos, sin = math.exp, math.log, math.log10, math.sqrt, math.cos, math.sin
    abs = staticmethod(abs)
    pow = staticmethod(lambda a, b: a ** b)


# ------------------------------------------------------------------ the generated files, run symbolically
class ExactFloats(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name('__C', ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n


def repo():
    if not _c:
        v = _c['vfs'] = VFS()
        _c['cores'] = [4]
        from props import gen
        m = gen.modules(v, lambda: _c['cores'][0])
        _c['P'] = loader.load('Parse_eqn_file.py', vfs=v, strings=False, modules=m)
        _c['R'] = loader.load('rate_coeff_conversion.py', vfs=v, strings=True, modules={}, skip=lambda n: False)
        _c['Rn'] = loader.load('rate_coeff_conversion.py', vfs=v, strings=False, modules={}, skip=lambda n: True)
    _c['vfs'].files.clear()
    return _c['P'], _c['R'], _c['vfs']


def pi_term():
    return npshim.pi4()


def run_numba(rate_dict, T, H2O, RO2, t, n=None):
    P, R, v = repo()
    core.STATS.functions.add('Parse_eqn_file.write_rate_file_numba')
    P['write_rate_file_numba']('m', rate_dict)
    src = v.files['Rate_coefficients_numba.py']
    tree = ExactFloats().visit(ast.parse(src))
    ast.fix_missing_locations(tree)
    ns = dict(core.ctx().tokens)
    ns['__C'] = lambda s: SymReal(core.realval(Fraction(s)))
    ns['__FLOOR'] = None
    b = dict(__builtins__ if isinstance(__builtins__, dict) else __builtins__.__dict__)
    nb, npm = Anything('numba'), NPx(v)
    real = b['__import__']

    def imp(name, *a, **k):
        return {'numba': nb, 'numpy': npm}.get(name) or real(name, *a, **k)
    b['__import__'] = imp
    b['int'] = lambda x: trunc(x)
    ns['__builtins__'] = b
    ns['__name__'] = 'Rate_coefficients_numba'
    exec(compile(tree, 'Rate_coefficients_numba.py', 'exec'), ns)
    out = np.empty(len(rate_dict), dtype=object)
    out.fill(0.0)
    J = np.empty(62, dtype=object)
    J.fill(SymReal(core.ZEROT))
    return ns['evaluate_rates'](t, RO2, H2O, T, out, J)


def trunc(x):
    """int() of a real without forking: the integer as a real term"""
    if isinstance(x, SymReal):
        return SymReal(z3.ToReal(core.trunc_term(x.t)))
    return int(x)


class NPx(npshim.NP):
    def arctan(self, x):
        if isinstance(x, SymReal) and core.const_value(x.t) == 1:
            return npshim.pi4()
        return npshim.NP.arctan(self, x)

    def floor(self, x):
        return SymReal(z3.ToReal(core.floor_term(x.t))) if isinstance(x, SymReal) else np.floor(x)


def run_fortran(rate_dict, T, H2O, RO2, t, openmp=False, cores=4):
    P, R, v = repo()
    _c['cores'][0] = cores
    core.STATS.functions.add('Parse_eqn_file.write_rate_file_fortran')
    P['write_rate_file_fortran']('m', rate_dict, openmp)
    subs = fortran.parse(v.files['Rate_coefficients.f90'])
    it = fortran.Interp(subs)
    out = it.run('evaluate_rates', dict(RO2=RO2, H2O=H2O, TEMP=T, ttime=t))['rate_values']
    return out, it


def run(backend, rate_dict, T, H2O, RO2, t, **k):
    if backend == 'numba':
        return run_numba(rate_dict, T, H2O, RO2, t)
    return run_fortran(rate_dict, T, H2O, RO2, t, **k)[0]


def variables(c, t_nonneg=True):
    T, W, RO2, t = (core.real(n) for n in ('T', 'H2O', 'RO2', 't'))
    c.assume(z3.And(T.t > 0, W.t >= 0, RO2.t >= 0, t.t >= 0))
    return T, W, RO2, t


NOON = Fraction(43200)


def prover(c, chars=()):
    """prover with sample points that satisfy the path condition on the characters"""
    cv = {}
    for s in chars:
        for x in s.e:
            if not isinstance(x, int):
                cv[str(x.v)] = x
    names = set(cv)
    facts = [z3.Real('T') > 0, z3.Real('H2O') >= 0, z3.Real('RO2') >= 0]
    cond = [p for p in c.pc if names and eqprove.names_of(p) <= names]
    facts += cond
    envs = []
    s = z3.Solver()
    s.add(cond)
    for k, p in enumerate(PTS):
        e = dict(zip(('t', 'RO2', 'H2O', 'T'), p))
        s.push()
        rng = random.Random(k)
        for n, x in cv.items():
            dom = sorted(x.base)
            rng.shuffle(dom)
            for q in range(len(dom)):        # pull the model away from the smallest characters
                v = x.v == dom[q]
                if core.check(s, v) == z3.sat:
                    s.add(v)
                    e[n] = dom[q]
                    break
        s.pop()
        envs.append(e)
    return eqprove.Prover(c, facts, envs)


# ------------------------------------------------------------------ literals with symbolic digits
def asS(x):
    return x if isinstance(x, SymStr) else S(x)


def is_digit(x):
    return 48 <= x <= 57 if isinstance(x, int) else x.dom() <= sstr.DIGITS


def is_sign(x):
    return x in (43, 45) if isinstance(x, int) else x.dom() <= {43, 45}


def is_word(x):
    return chr(x).isalnum() or x == 95 if isinstance(x, int) else x.dom() <= sstr.WORD


def scan(es, i, expchars):
    """end of the numeric literal starting at i, or i; parts"""
    n, j = len(es), i
    a = j
    while j < n and is_digit(es[j]):
        j += 1
    ip = es[a:j]
    fp = ()
    if j < n and es[j] == 46:
        k = j + 1
        while k < n and is_digit(es[k]):
            k += 1
        fp = es[j + 1:k]
        if ip or fp:
            j = k
    if not ip and not fp:
        return i, None
    ex, sg = (), None
    if j < n and isinstance(es[j], int) and chr(es[j]) in expchars:
        k = j + 1
        s = None
        if k < n and is_sign(es[k]):
            s = es[k]
            k += 1
        b = k
        while k < n and is_digit(es[k]):
            k += 1
        if k > b:
            ex, sg, j = es[b:k], s, k
    return j, (ip, fp, ex, sg)


def dig(x):
    return z3.RealVal(x - 48) if isinstance(x, int) else z3.ToReal(x.v - 48)


def p10(es, neg):
    t = z3.RealVal(1)
    for k, x in enumerate(reversed(es)):
        base = Fraction(10) ** (10 ** k)
        base = 1 / base if neg else base
        if isinstance(x, int):
            t = t * core.realval(base ** (x - 48))
        else:
            f = core.realval(1)
            for d in sorted(x.base, reverse=True):
                f = z3.If(x.v == d, core.realval(base ** (d - 48)), f)
            t = t * f
    return t


def lit_value(parts):
    ip, fp, ex, sg = parts
    v = z3.RealVal(0)
    for x in ip:
        v = v * 10 + dig(x)
    sc = 1
    for x in fp:
        sc *= 10
        v = v + dig(x) / sc
    if ex:
        if sg is None or isinstance(sg, int):
            v = v * p10(ex, sg == 45)
        else:
            v = v * z3.If(sg.v == 45, p10(ex, True), p10(ex, False))
    return z3.simplify(v)


def all_int(es):
    return all(isinstance(x, int) for x in es)


def tokenized(s, expchars):
    """text with every literal that has symbolic characters replaced by a token"""
    es, out, i = s.e, [], 0
    while i < len(es):
        if is_word(es[i]) and not is_digit(es[i]):
            j = i
            while j < len(es) and is_word(es[j]):
                j += 1
            if not all_int(es[i:j]):
                core.ctx().die('symbolic character inside a name')
            out.append(''.join(map(chr, es[i:j])))
            i = j
            continue
        j, parts = scan(es, i, expchars)
        if parts is None:
            if not isinstance(es[i], int):
                core.ctx().die('symbolic character outside a literal')
            out.append(chr(es[i]))
            i += 1
            continue
        if all_int(es[i:j]):
            out.append(''.join(map(chr, es[i:j])))
        else:
            # a literal directly followed by a letter does not end there
            out.append(core.ctx().token(SymReal(lit_value(parts))) + ' ')
        i = j
    return ''.join(out)


# ------------------------------------------------------------------ meaning of a rate expression of the mechanism language
class Eval:
    """the oracle: mechanism (KPP/Fortran style) expression over symbolic or concrete values"""

    def __init__(self, s, env, J, F):
        self.F, self.env, self.J = F, env, J
        es, self.toks, i = asS(s).e, [], 0
        while i < len(es):
            x = es[i]
            if isinstance(x, int) and chr(x).isspace():
                i += 1
                continue
            if is_word(x) and not is_digit(x):
                j = i
                while j < len(es) and is_word(es[j]):
                    j += 1
                self.toks.append(('name', ''.join(map(chr, es[i:j]))))
                i = j
                continue
            j, parts = scan(es, i, 'DdEe')
            if parts is not None:
                if F is NF:
                    self.toks.append(('num', float(''.join(map(chr, es[i:j])).replace('D', 'E').replace('d', 'e'))))
                else:
                    self.toks.append(('num', SymReal(lit_value(parts))))
                i = j
                continue
            if x == 42 and i + 1 < len(es) and es[i + 1] == 42:
                self.toks.append(('op', '**'))
                i += 2
                continue
            self.toks.append(('op', chr(x)))
            i += 1
        self.i = 0
        self.v = self.add()
        if self.i != len(self.toks):
            raise ValueError('oracle cannot read %r' % (self.toks,))

    def op(self, *o):
        if self.i < len(self.toks) and self.toks[self.i][0] == 'op' and self.toks[self.i][1] in o:
            self.i += 1
            return self.toks[self.i - 1][1]
        return None

    def add(self):
        o = self.op('+', '-')
        a = self.mul()
        if o == '-':
            a = -a
        while True:
            o = self.op('+', '-')
            if not o:
                return a
            b = self.mul()
            a = a + b if o == '+' else a - b

    def mul(self):
        a = self.pow()
        while True:
            o = self.op('*', '/')
            if not o:
                return a
            b = self.pow()
            a = a * b if o == '*' else a / b

    def pow(self):
        a = self.prim()
        if self.op('**'):
            o = self.op('+', '-')
            b = self.pow()
            return self.F.pow(a, -b if o == '-' else b)
        return a

    def prim(self):
        if self.op('('):
            a = self.add()
            assert self.op(')')
            return a
        k, v = self.toks[self.i]
        self.i += 1
        if k == 'num':
            return v
        if self.op('('):
            if v == 'J':
                k, n = self.toks[self.i]
                self.i += 1
                assert self.op(')')
                n = int(n if self.F is NF else core.const_value(n.t))
                return self.J(n)
            a = self.add()
            assert self.op(')')
            return getattr(self.F, {'EXP': 'exp', 'LOG': 'log', 'dlog': 'log', 'dsqrt': 'sqrt', 'dabs': 'abs', 'LOG10': 'log10',
                                    'dexp': 'exp'}[v])(a)
        return self.env[v]


JS = sorted(mcm.PHOT)
BASE = mcm.NAMES + ['J(%d)' % k for k in JS]


def env_of(vals, off=0):
    e = {n: vals[off + i] for i, n in enumerate(mcm.NAMES)}
    e = {k: x if isinstance(x, SymReal) else SymReal(core.term(x)) for k, x in e.items()}
    j = {k: vals[off + len(mcm.NAMES) + i] for i, k in enumerate(JS)}
    return e, (lambda n: j[n])


# ------------------------------------------------------------------ C04 / C05
def new_chr(n, d):
    x = new_char(n, d)
    return x.e if isinstance(x, SymStr) else (x,)


def lit(tag, spec):
    """spec: d symbolic digit, n symbolic non-zero digit, ? symbolic sign, other characters themselves"""
    e = []
    for i, ch in enumerate(spec):
        if ch == 'd':
            e.extend(new_chr('%s_%d' % (tag, i), sstr.DIGITS))
        elif ch == 'n':
            e.extend(new_chr('%s_%d' % (tag, i), frozenset(range(49, 58))))
        elif ch == '?':
            e.extend(new_chr('%s_%d' % (tag, i), {43, 45}))
        elif ch == 'x':
            e.extend(new_chr('%s_%d' % (tag, i), frozenset(range(48, 52))))
        else:
            e.append(ord(ch))
    return SymStr(e)


def build(tag, template):
    """template text with <spec> literals"""
    out = S('')
    for k, p in enumerate(re.split(r'(<[^>]*>)', template)):
        out = out + (lit('%s_%d' % (tag, k), p[1:-1]) if p.startswith('<') else S(p))
    return out


A = '<n.ddD-xd>'
SHIPPED_FORMS = [
    A, '<n.dD-xd>', '<nD-xd>', '<n.ddD+xd>', '<n.ddDxd>', '<n.dDd>', '<n.ddE-xd>', '<n.dE+0d>', '<0.ddd>', '<ndd>', '<n.>', '<.nd>',
    A + '*<0.ddd>', A + '*<0.d>*RO2', '2*(K298CH3O2*' + A + ')**0.5*RO2*<0.d>', '2*(KCH3O2*' + A + '*EXP(<ndd>/TEMP))**0.5*RO2*<0.d>',
    '2*(KCH3O2*' + A + '*EXP(-<ndd>/TEMP))**<0.n>*RO2*<0.d>', A + '*(TEMP/<ndd>)**<n.dd>*EXP(<ndd>/TEMP)', A + '*(TEMP/<ndd>)**<n.d>*EXP(-<nddd>/TEMP)',
    A + '*(TEMP/<ndd>)**-<0.n>', A + '*EXP(<nddd>/TEMP)', A + '*EXP(<nddd>/TEMP)*<0.ddd>', A + '*EXP(<ndd>/TEMP)*(1-1/(1+<ndd>*EXP(-<nddd>/TEMP)))',
    A + '*EXP(<ndd>/TEMP)*(1/(1+<ndd>*EXP(-<nddd>/TEMP)))', A + '*EXP(<nddd>/TEMP)*O2', A + '*EXP(<nd>/TEMP)*O2+' + A + '*EXP(<ndd>/TEMP)*N2',
    A + '*EXP(-<nddd>/TEMP)*EXP(<n.ddDd>/TEMP**3)*<0.d>', A + '*EXP(-<nddd>/TEMP)*M', A + '*EXP(-<nddd>/TEMP)+' + A + '*EXP(<ndd>/TEMP)',
    '<n.ddDxd>*EXP(-<nddd>/TEMP)+' + A + '*O2', A + '*H2O', '<0.d>*J(18)', '<0.dd>*<0.dd>*KRO2HO2', '2*KNO3AL*<n.d>',
    A + '*KMT06*EXP(<ndd>/TEMP)+' + A + '*M*KMT06*EXP(<ndd>/TEMP)', '2*KCH3O2*RO2*<0.d>*(1-<n.dd>*EXP(-<ndd>/TEMP))', '2*KCH3O2*RO2*<n.dd>*EXP(-<ndd>/TEMP)',
    A + '*N2*(TEMP/300)**-<n.d>*O2+' + A + '*O2*(TEMP/300)**-<n.d>*O2', A + '*O2*<n.d>*(1-EXP(-<ndd>/TEMP))', A + '*RO2*<0.d>',
    A + '*TEMP**2*EXP(-<ndd>/TEMP)*<0.dd>', 'J(31)', 'J(23)*2', 'J(4)*<0.d>*<0.d>', 'J(15)*2+J(22)', 'J(41)+J(22)*2+J(15)', 'KDEC*<0.d>*<0.ddd>', 'KROPRIM*O2',
    'KBPAN+J(56)*<n>', 'J(17)*J(41)/J(1)',
]
FUNCTION_FORMS = [
    'LOG(TEMP)', 'dlog(TEMP)', 'dsqrt(TEMP)', 'dabs(<ndd>-TEMP)', 'EXP(TEMP/<ndd>)', 'LOG10(TEMP)',
    'EXP(LOG(TEMP)*<0.d>)', 'LOG(EXP(-<ndd>/TEMP)+1)', 'dabs(dlog(TEMP/<ndd>))', 'dsqrt(dabs(TEMP-<ndd>))*EXP(-<ndd>/TEMP)',
    'LOG(TEMP)*LOG(H2O+1)', 'EXP(-<ndd>/TEMP)*EXP(<ndd>/TEMP)', 'dsqrt(TEMP)+dsqrt(M)*dlog(TEMP)', A + '*dabs(RO2-H2O)',
    'EXP(-J(4))*J(3)', 'J(4)*(J(3)+J(11)*EXP(-<nd>/TEMP))', '(J(4)+J(5))*(J(6)+J(7))',
]
FACT = ['<n.dD-xd>', 'EXP(-<ndd>/TEMP)', 'EXP(<ndd>/TEMP)', 'LOG(TEMP)', 'dlog(TEMP)', 'dsqrt(TEMP)', 'dabs(<nd>-TEMP)', 'J(11)', 'KMT05', 'KRO2NO', 'RO2',
        'H2O', 'O2', 'M', 'TEMP', '(TEMP/<ndd>)**<0.n>', '(TEMP/300)**-<n.n>', '<0.n>', '<nDd>', 'TEMP**2']
OPS = ['*', '/', '+', '-']


def pair_forms(deep):
    out = ['%s%s%s' % (a, o, b) for a in FACT for b in FACT for o in OPS]
    if deep:
        g = FACT[::2]
        out += ['%s*(%s%s%s)' % (a, b, o, d) for a in FACT for b in g for d in g for o in '+-/']
    return out


def conv_harness(backend, forms, chained=False):
    conv = {'numba': 'convert_rate_mcm_numba', 'fortran': 'convert_rate_mcm_fortran'}[backend]

    def fn(c):
        P, R, v = repo()
        T, W, RO2, t = variables(c)
        src = [build('f%d' % i, f) for i, f in enumerate(forms)]
        info = (src,)
        core.STATS.functions.add('rate_coeff_conversion.' + conv)
        try:
            d = {i: s for i, s in enumerate(src)}
            if chained:
                core.STATS.functions.add('rate_coeff_conversion.convert_rate_mcm_fortran')
                d = R['convert_rate_mcm_fortran'](d)
            d = R[conv](d)
            if set(d) != set(range(len(src))):
                c.prove(False, 'every expression is converted', info)
                return
            n0 = len(BASE)
            rd = {i: n for i, n in enumerate(BASE)}
            if backend == 'numba':
                rd = {i: n.replace('J(', 'J[').replace(')', ']') if n.startswith('J') else n for i, n in rd.items()}
            for i in range(len(src)):
                rd[n0 + i] = tokenized(asS(d[i]), 'eE' if backend == 'numba' else 'eEdD')
            vals = run(backend, rd, T, W, RO2, NOON)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'converted expressions are valid (%s: %s)' % (type(ex).__name__, str(ex)[:200]), info)
            return
        env, J = env_of(vals)
        pr = prover(c, src)
        for i, s in enumerate(src):
            exp = Eval(s, env, J, SF).v
            got = vals[n0 + i]
            pr.prove(core.term(got), exp.t, 'value of %s' % forms[i], info + (i,))
    return fn


def conv_input(cex, c):
    src = cex.info[0]
    texts = [mech.conc(cex.model, s) for s in src]
    return {'texts': texts, 'at': cex.info[1] if len(cex.info) > 1 else None, 'claim': cex.label}


PTS = [(43200.0, 1.7e9, 3.1e17, 287.3), (30000.0, 4.2e8, 1.3e17, 251.9), (61234.0, 9.1e9, 5.5e17, 312.7), (50000.0, 1.1e9, 2.2e17, 300.0)]


def rel(a, b, tol):
    if a != a or b != b:
        return not (a != a and b != b)
    return abs(a - b) > tol * max(abs(a), abs(b)) + 1e-300


def conv_replay(backend, chained=False):
    def replay(inp):
        idx = range(len(inp['texts'])) if inp['at'] is None else [inp['at']]
        texts = [inp['texts'][i] for i in idx]
        if inp['at'] is None and len(texts) > 40:
            texts = texts[:]
        got = realcode.call('rates_full', texts=texts, names=BASE, points=PTS, backend=backend, chained=chained)
        if 'exception' in got:
            return 'expressions %s: %s' % (texts[:3], got['exception'][-600:])
        for p, g in zip(PTS, got['points']):
            v = g['rates']
            env = dict(zip(mcm.NAMES, v))
            J = dict(zip(JS, v[len(mcm.NAMES):]))
            for k, tx in enumerate(texts):
                try:
                    e = Eval(tx, env, lambda n: J[n], NF).v
                except (OverflowError, ZeroDivisionError, ValueError):
                    continue
                a = v[len(BASE) + k]
                mag = abs(e)
                if rel(a, e, 3e-5 if backend == 'fortran' else 1e-9) and mag < 1e300:
                    return 'expression %r at TEMP=%s gives %r in the generated %s code, the mechanism text means %r' % (tx, p[3], a, backend, e)
        return None
    return replay


def split_forms(forms, n):
    return [forms[i:i + n] for i in range(0, len(forms), n)]


def conv_cases(backend, tier):
    from vt import report
    deep = tier == 'thorough'
    out = []

    def add(nm, forms, bounds, chained=False):
        out.append(report.Case(nm, conv_harness(backend, forms, chained), conv_input, conv_replay(backend, chained), bounds, max_paths=20000))
    # one by one where a digit follows D directly (the converter looks at it)
    fork = [f for f in SHIPPED_FORMS + FUNCTION_FORMS if re.search(r'D[dx]|\?', f)]
    plain = [f for f in SHIPPED_FORMS + FUNCTION_FORMS if f not in fork]
    for k, g in enumerate(split_forms(plain, 12)):
        add('forms of the shipped mechanisms %d' % k, g, '%d expression forms with symbolic digits: %s' % (len(g), ' ; '.join(g)))
    for k, f in enumerate(fork):
        add('unsigned exponents: ' + f, [f], 'symbolic digits')
    add('symbolic exponent signs', ['<n.dD?xd>*EXP(<ndd>/TEMP)+<n.dD?xd>*O2', '<nD?xd>'], 'symbolic digits and signs')
    prs = pair_forms(deep)
    prs = [p for p in prs if 'Dd' not in p]
    size = 200
    for k, g in enumerate(split_forms(prs, size)):
        add('operand pairs %d' % k, g, '%d expressions: all pairs of %d operands with * / + -' % (len(g), len(FACT)))
    if backend == 'numba':
        for k, g in enumerate(split_forms(plain, 24)):
            add('after a Fortran conversion %d' % k, g, 'the same dictionary converted for Fortran first, then for Python', True)
    # the shipped mechanisms, verbatim
    seen, fs = set(), []
    files = sorted(os.listdir(os.path.join(REPO, 'mechanism_files')))
    for f in files:
        if not f.endswith('.eqn.txt'):
            continue
        t = open(os.path.join(REPO, 'mechanism_files', f), errors='replace').read()
        for m in re.finditer(r'\{\d+\.\}([^;]*);', t):
            p = m.group(1).split(':', 1)
            if len(p) == 2:
                x = ''.join(p[1].split())
                if x not in seen:
                    seen.add(x)
                    fs.append(x)
    fs = [x for x in fs if '<' not in x]
    for k, g in enumerate(split_forms(fs, 700)):
        add('shipped expressions %d' % k, g, '%d distinct rate expressions of mechanism_files, verbatim' % len(g))
    return out


# ------------------------------------------------------------------ C06
def k_harness(backend):
    def fn(c):
        T, W, RO2, t = variables(c)
        info = ()
        try:
            rd = dict(enumerate(mcm.NAMES))
            vals = run(backend, rd, T, W, RO2, NOON)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the rate file can be evaluated (%s: %s)' % (type(ex).__name__, str(ex)[:200]), info)
            return
        ref = mcm.constants(SF, T, W, RO2)
        pr = prover(c)
        for i, n in enumerate(mcm.NAMES):
            pr.prove(core.term(vals[i]), ref[n].t, 'constant %s' % n, (n,))
    return fn


def simple_input(cex, c):
    d = {'claim': cex.label, 'names': list(cex.info)}
    for n in ('T', 'H2O', 'RO2', 't'):
        x = core.model_frac(cex.model, z3.Real(n))
        d[n] = None if x is None else float(x)
    return d


def pts_for(inp):
    p = list(PTS)
    if inp.get('T') and 150 < inp['T'] < 400:
        p.append((inp.get('t') if inp.get('t') and inp['t'] < 1e6 else 43200.0, 1e9, inp['H2O'] if inp.get('H2O') and inp['H2O'] < 1e19 else 1e17, inp['T']))
    return p


def k_replay(backend):
    def replay(inp):
        pts = pts_for(inp) + [(43200.0, 1e9, 1e17, float(T)) for T in range(200, 340, 20)] + [(43200.0, 1e9, 0.0, 273.0)]
        got = realcode.call('rates_full', texts=[], names=mcm.NAMES, points=pts, backend=backend)
        if 'exception' in got:
            return got['exception'][-600:]
        for p, g in zip(pts, got['points']):
            ref = mcm.constants(NF, p[3], p[2], p[1])
            for n, a in zip(mcm.NAMES, g['rates']):
                if rel(a, ref[n], 1e-5 if backend == 'fortran' else 1e-9):
                    return '%s = %r at TEMP=%s H2O=%s in the generated %s code, published definition gives %r' % (n, a, p[3], p[2], backend, ref[n])
        return None
    return replay


def k_cases(tier):
    from vt import report
    return [report.Case('constants, ' + b, k_harness(b), simple_input, k_replay(b), 'every generic and complex rate constant, all TEMP > 0, H2O >= 0', min_obligations=30)
            for b in ('numba', 'fortran')]


# ------------------------------------------------------------------ C07
def jdict(backend):
    br = ('J[%d]' if backend == 'numba' else 'J(%d)')
    return {i: br % k for i, k in enumerate(JS)}


def frac_day(t):
    x = t.t / 86400
    return SymReal(x - z3.ToReal(core.floor_term(x)))


def no_overflow(pr, exps):
    """exp(x) is finite in double precision: an infinite factor times a zero one is not a number"""
    seen = set()
    for x in exps:
        if x.get_id() not in seen:
            seen.add(x.get_id())
            pr.keep.append(x)
            pr.claim(z3.Implies(z3.And(z3.Real('T') >= TMIN, z3.Real('T') <= TMAX), x <= 700), 'the argument of an exponential does not overflow', ())


def j_harness(backend):
    def fn(c):
        T, W, RO2, t = variables(c)
        c.fact(z3.And(z3.Real('PI4') > core.realval(Fraction('0.78539816')), z3.Real('PI4') < core.realval(Fraction('0.78539817'))))
        c.notes['track_exp'] = []
        try:
            vals = run(backend, jdict(backend), T, W, RO2, t)
            exps, c.notes['track_exp'] = c.notes['track_exp'], None
            t2 = SymReal(t.t + 86400)
            vals2 = run(backend, jdict(backend), T, W, RO2, t2)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the rate file can be evaluated (%s: %s)' % (type(ex).__name__, str(ex)[:200]), ())
            return
        pi = SymReal(4 * z3.Real('PI4'))
        cx = mcm.cosx(SF, pi, frac_day(t))
        up = cx.t > core.realval(Fraction('1E-30'))
        ref = mcm.photolysis(SF, cx)
        pr = prover(c)
        pr.add_path()
        no_overflow(pr, exps)
        for i, k in enumerate(JS):
            got = core.term(vals[i])
            pr.claim(z3.Implies(z3.Not(up), got == 0), 'J(%d) is zero with the sun down' % k, (k,))
            pr.claim(z3.Implies(up, got == ref[k].t), 'J(%d) follows the published law' % k, (k,))
            pr.claim(got >= 0, 'J(%d) is not negative' % k, (k,))
            pr.claim(core.term(vals2[i]) == got, 'J(%d) repeats after 24 h' % k, (k,))
    return fn


def j_replay(backend):
    def replay(inp):
        ts = [float(x) for x in range(0, 86400, 3600)] + [15000.0, 75000.0]
        if inp.get('t') is not None and inp['t'] < 1e7:
            ts.append(inp['t'])
        pts = [(x, 1e9, 1e17, 298.15) for x in ts]
        pts += [(x[0] + 86400.0,) + x[1:] for x in pts] + [(x[0] + 5 * 86400.0,) + x[1:] for x in pts]
        hz = [x for x in range(0, 86400, 10) if abs(mcm.cosx(NF, math.pi, x / 86400.0)) < 2e-3]
        pts += [(float(x), 1e9, 1e17, 298.15) for x in hz]          # about sunrise and sunset
        names = ['J(%d)' % k for k in JS]
        got = realcode.call('rates_full', texts=[], names=names, points=pts, backend=backend)
        if 'exception' in got:
            return got['exception'][-600:]
        for p, g in zip(pts, got['points']):
            fd = p[0] / 86400 - math.floor(p[0] / 86400)
            cx = mcm.cosx(NF, math.pi, fd)
            if abs(cx) < 0.02:
                for k, a in zip(JS, g['rates']):
                    if not 0 <= a < 1:
                        return 'J(%d) = %r at t=%s s in the generated %s code, near the horizon (cos zenith %.5f)' % (k, a, p[0], backend, cx)
                continue            # rounding of single precision literals matters at the horizon
            ref = mcm.photolysis(NF, cx) if cx > 0 else {k: 0.0 for k in JS}
            for k, a in zip(JS, g['rates']):
                if rel(a, ref[k], 1e-4 if backend == 'fortran' else 1e-8) or a < 0:
                    return 'J(%d) = %r at t=%s s in the generated %s code, published law gives %r (cos zenith %.4f)' % (k, a, p[0], backend, ref[k], cx)
        return None
    return replay


def j_cases(tier):
    from vt import report
    return [report.Case('photolysis, ' + b, j_harness(b), simple_input, j_replay(b), 'all times >= 0 (real), every J', min_obligations=30) for b in ('numba', 'fortran')]


# ------------------------------------------------------------------ C08
TMIN, TMAX, WMAX = 200, 330, Fraction('4e18')


def domain_axioms(terms):
    """sound bounds for exp, log, log10 beyond core.axioms_for"""
    ax = []
    for t in core.uf_terms(terms):
        n, x = t.decl().name(), t.arg(0)
        if n == 'EXP':
            ax += [t >= 1 + x, z3.Implies(x < 1, t * (1 - x) <= 1)]
        if n in ('LOG', 'LOG10'):
            ax += [z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0), z3.Implies(z3.And(x > 0, x < 1), t < 0)]
    return ax


def dom_harness(backend):
    def fn(c):
        T, W, RO2, t = variables(c)
        c.notes['track_div'], c.notes['track_exp'] = [], []
        try:
            rd = dict(enumerate(mcm.NAMES))
            vals = [core.term(v) for v in run(backend, rd, T, W, RO2, t)]
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the rate file can be evaluated (%s: %s)' % (type(ex).__name__, str(ex)[:200]), ())
            return
        divs, c.notes['track_div'] = c.notes['track_div'], None
        exps, c.notes['track_exp'] = c.notes['track_exp'], None
        pr = prover(c)
        pr.facts += [T.t >= TMIN, T.t <= TMAX, W.t <= core.realval(WMAX)]
        for e in pr.envs:
            e['T'] = min(max(e['T'], TMIN), TMAX)
        terms = vals + divs + list(c.pc)
        for ax in domain_axioms(terms):
            pr.facts.append(pr.rewrite(ax))
        pr.add_path()
        seen = set()
        for u in core.uf_terms(terms):
            n = u.decl().name()
            if n in ('LOG', 'LOG10'):
                q, lab = u.arg(0) > 0, 'argument of %s is positive' % n
            elif n == 'SQRT':
                q, lab = u.arg(0) >= 0, 'argument of the square root is not negative'
            elif n == 'POW':
                q, lab = z3.Or(u.arg(0) > 0, z3.And(u.arg(0) == 0, u.arg(1) > 0)), 'power stays in its domain'
            else:
                continue
            pr.claim(q, lab, ())
        no_overflow(pr, exps)
        for d in divs:
            k = z3.simplify(d)
            if k.get_id() in seen:
                continue
            seen.add(k.get_id())
            pr.keep.append(k)
            pr.claim(d != 0, 'denominator is not zero', ())
        for n, v in zip(mcm.NAMES, vals):
            if n not in ('H2O', 'RO2'):
                pr.claim(v > 0, '%s is positive' % n, (n,))
    return fn


def dom_replay(backend):
    def replay(inp):
        pts = [(x, 1e9, w, float(T)) for T in range(TMIN, TMAX + 1, 5) for w in (0.0, 1e17, 4e18) for x in (0.0, 43200.0)]
        if inp.get('T') and TMIN <= inp['T'] <= TMAX:
            pts.append((43200.0, 1e9, min(inp.get('H2O') or 0.0, 4e18), inp['T']))
        got = realcode.call('rates_full', texts=[], names=mcm.NAMES, points=pts, backend=backend)
        if 'exception' in got:
            return got['exception'][-600:]
        for p, g in zip(pts, got['points']):
            for n, a in zip(mcm.NAMES, g['rates']):
                if a != a or a in (float('inf'), float('-inf')) or (a <= 0 and n not in ('H2O', 'RO2')):
                    return '%s = %r at TEMP=%s H2O=%s in the generated %s code' % (n, a, p[3], p[2], backend)
        return None
    return replay


def dom_cases(tier):
    from vt import report
    return [report.Case('domains, ' + b, dom_harness(b), simple_input, dom_replay(b), '%d K <= TEMP <= %d K, 0 <= H2O <= 4e18, all times' % (TMIN, TMAX), min_obligations=60)
            for b in ('numba', 'fortran')]


EXPL = ('The real conversion and writer functions produce the rate file; the file is executed (Python) or interpreted (Fortran) on symbolic temperature, '
        'time, water vapour and peroxy-radical total; z3 decides every equality for all of their values. ')
ASSUME = ['exp, log, log10, sin, cos, sqrt and non-integer powers are functions known only by congruence and sign/monotonicity axioms; a satisfiable answer is '
          'replayed numerically on the real code before it is reported', 'exact real arithmetic; literals are read at their decimal value (default-kind Fortran literals: 6e-8 relative)',
          'TEMP > 0; literal exponents below 40 in magnitude (single precision range of default-kind Fortran literals)',
          'no quotient of two integer literals occurs in a rate expression (Fortran would truncate it)']


# ------------------------------------------------------------------ C15: threaded rate file
def omp_harness(sizes, cpus):
    from props import gen

    def fn(c):
        n, cores = c.choose(sizes), c.choose(cpus)
        T, W, RO2, t = variables(c)
        I = ('rates', None, {'n': n, 'cores': cores})
        rd = {i: '%d.0D0*TEMP+RO2*H2O' % (i + 2) for i in range(n)}
        try:
            out, it = run_fortran(rd, T, W, RO2, t, True, cores)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the threaded rate file is valid (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
            return
        gen.no_races(c, it, lambda how: {'rate_values': omp_again(rd, how)}, ['rate_values'], I,
                     [dict(zip(('t', 'RO2', 'H2O', 'T'), p)) for p in PTS[:1]], {'rate_values': out})
        for i in range(n):
            c.prove(core.term(out[i]) == (i + 2) * T.t + RO2.t * W.t, 'rate %d of %d, %d cpus' % (i, n, cores), I)

    def omp_again(rd, how):
        P, R, v = _c['P'], _c['R'], _c['vfs']
        T, W, RO2, t = (core.real(x) for x in ('T', 'H2O', 'RO2', 't'))
        return fortran.Interp(fortran.parse(v.files['Rate_coefficients.f90']), schedule=how).run(
            'evaluate_rates', dict(RO2=RO2, H2O=W, TEMP=T, ttime=t))['rate_values']
    return fn


def omp_input(cex, c):
    return dict(cex.info[2], claim=cex.label)


def omp_replay(inp):
    got = realcode.call('rates_omp', n=inp['n'], cores=inp['cores'])
    if 'exception' in got:
        return got['exception'][-600:]
    for k, vs in enumerate(got['runs']):
        for i, v in enumerate(vs):
            e = (i + 2) * 290.0 + 3.0 * 5.0
            if not abs(v - e) <= 1e-9 * e:
                return 'rate %d of %d with %d cpus is %r instead of %r (threaded call %d)' % (i, inp['n'], inp['cores'], v, e, k)
    return inp.get('schedule')


def omp_cases(tier):
    from vt import report
    sizes = [1, 2, 7, 11] if tier != 'thorough' else [1, 2, 3, 5, 7, 8, 11, 16, 23, 31]
    cpus = list(range(1, 9)) if tier != 'thorough' else list(range(1, 25))
    return [report.Case('rate file, %d expressions' % n, omp_harness([n], cpus), omp_input, omp_replay,
                        '%d expressions, cpu counts 1..%d' % (n, cpus[-1]), max_paths=2000) for n in sizes]
