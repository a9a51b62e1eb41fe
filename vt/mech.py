"""Mechanism texts with symbolic parts, and the meaning they must have (the oracle)."""
import z3
from . import core, sstr
from .core import SymReal
from .sstr import SymStr, new_char, S

FIRST = sstr.ALPHA
REST = sstr.ALPHA | sstr.DIGITS | {ord('_')}
ZERO = z3.RealVal(0)


def name(tag, n, first=FIRST, rest=REST):
    """symbolic species name of n characters, never the reserved photon symbol"""
    e = [new_char('%s_%d' % (tag, i), first if i == 0 else rest) for i in range(n)]
    s = SymStr(e)
    if n == 2:
        core.ctx().assume(z3.Not(z3.And(e[0].v == ord('h'), e[1].v == ord('v'))))
    return s


def number(tag, spec, positive=True):
    """spec like 'd', 'd.d', '.d', 'dd', '2', '1.5': d is a symbolic digit. -> (SymStr text, z3 Real value)"""
    if spec == '':
        return SymStr(''), z3.RealVal(1)
    e, val, sc, frac = [], z3.RealVal(0), 1, False
    for i, ch in enumerate(spec):
        if ch == '.':
            e.append(46)
            frac = True
            continue
        if ch == 'd':
            c = new_char('%s_d%d' % (tag, i), sstr.DIGITS)
            e.append(c)
            dv = z3.ToReal(c.v - 48)
        else:
            e.append(ord(ch))
            dv = z3.RealVal(ch)
        if frac:
            sc *= 10
            val = val + dv / sc
        else:
            val = val * 10 + dv
    val = z3.simplify(val)
    if positive:
        core.ctx().assume(val > 0)
    return SymStr(e), val


class Eq:
    def __init__(self, reactants, products, rate):
        # each: list of (stoich text, stoich value, name SymStr)
        self.r, self.p, self.rate = reactants, products, rate


class Mech:
    def __init__(self, eqs, text):
        self.eqs, self.text = eqs, text


def render(eqs, label='{%d.}', a=' \t ', plus=' + ', eqs_sep=' = ', colon=' : \t', end=' \t;\n', head='', empty_products=''):
    out = S(head)
    for k, q in enumerate(eqs):
        out = out + S(label % (k + 1)) + S(a)
        out = out + S(plus).join([t + n for t, v, n in q.r]) + S(eqs_sep)
        out = out + (S(plus).join([t + n for t, v, n in q.p]) if q.p else S(empty_products))
        out = out + S(colon) + q.rate + S(end)
    return Mech(eqs, out)


def eq_t(a, b):
    t = a.eq_term(b)
    return z3.BoolVal(t) if isinstance(t, bool) else t


def expected(side, nm):
    """sum of stoichiometric coefficients of the terms whose name equals nm"""
    tot = ZERO
    for t, v, n in side:
        tot = tot + z3.If(eq_t(n, nm), v, ZERO)
    return tot


def is_hv(n):
    return n.c == 'hv'


def conc(m, s):
    """concrete text of a symbolic string under a model"""
    out = []
    for x in s.e:
        if isinstance(x, int):
            out.append(chr(x))
        else:
            v = m.eval(x.v, model_completion=True).as_long()
            if v not in x.base:
                v = min(x.base)
            out.append(chr(v))
    return ''.join(out)


def conc_expected(m, mech):
    """concrete oracle for a model: per equation, multiset sums"""
    eqs = []
    for q in mech.eqs:
        d = {'loss': {}, 'gain': {}, 'rate': ''.join(conc(m, q.rate).split())}
        for key, side in (('loss', q.r), ('gain', q.p)):
            for t, v, n in side:
                nm = conc(m, n)
                if nm == 'hv':
                    continue
                val = core.model_frac(m, v)
                d[key][nm] = d[key].get(nm, 0) + float(val)
        eqs.append(d)
    return eqs


def check_parse(out, exp):
    """compare worker.parse result with conc_expected; text of the first deviation or None"""
    if 'exception' in out:
        return 'extract_mechanism raises: ' + out['exception'][-400:]
    bad = []
    g = {k: {a: dict(map(tuple, b)) for a, b in out[k]} for k in ('loss_dict', 'gain_dict')}
    names = set()
    for k, e in enumerate(exp):
        names |= set(e['loss']) | set(e['gain'])
        for key, d in (('loss', g['loss_dict']), ('gain', g['gain_dict'])):
            got = {s: v[k] for s, v in d.items() if k in v}
            for s in set(got) | set(e[key]):
                v = got.get(s, 0)
                if isinstance(v, str) or v is None or abs(v - e[key].get(s, 0)) > 1e-9:
                    bad.append('reaction %d %s of %s: recorded %s, equation says %s' % (
                        k + 1, key, s, got.get(s, 0), e[key].get(s, 0)))
        rr = sorted(str(x[1]) for a, b in out['rate_dict_reactants'] if a == k for x in b)
        if rr != sorted(e['loss']):
            bad.append('reaction %d lists the reactants %s, equation says %s' % (k + 1, rr, sorted(e['loss'])))
        rd = dict(map(tuple, out['rate_dict']))
        if rd.get(k) != e['rate']:
            bad.append('reaction %d rate text %r, file says %r' % (k + 1, rd.get(k), e['rate']))
    if out['max_equations'] != len(exp):
        bad.append('equations counted %s, file has %s' % (out['max_equations'], len(exp)))
    s2a = dict(map(tuple, out['species_dict2array']))
    sd = dict(map(tuple, out['species_dict']))
    if sorted(s2a) != sorted(names):
        bad.append('species %s, file has %s' % (sorted(s2a), sorted(names)))
    if sorted(s2a.values()) != list(range(len(s2a))) or any(s2a.get(v) != k for k, v in sd.items()) or len(sd) != len(s2a):
        bad.append('index maps not mutually inverse onto 0..n-1: %s %s' % (s2a, sd))
    return '; '.join(bad) if bad else None
