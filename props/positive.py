"""Generated reactant products and tendencies together: an absent species is never consumed."""
import numpy as np
import z3
from vt import core, mech, realcode, report
from vt.core import SymReal
from . import gen
from .gen import Ref, RESERVED


def facts(terms):
    """0**e = 0 for e > 0 (the general axioms cover positive bases)"""
    out = []
    for t in core.uf_terms(terms):
        if t.decl().name() == 'POW':
            out.append(z3.Implies(z3.And(t.arg(0) == 0, t.arg(1) > 0), t == 0))
            out.append(z3.Implies(t.arg(0) >= 0, t >= 0))
    return out


def zero(c, t, extra):
    """t = 0 for all values on this path"""
    t = z3.simplify(t)
    if core.const_value(t) is not None:
        return core.const_value(t) == 0
    s = c.solver()
    s.push()
    for a in core.axioms_for([t]) + extra:
        s.add(a)
    s.add(t != 0)
    r = core.check(s)
    s.pop()
    return r == z3.unsat


def harness(build, backend):
    def fn(c):
        m = build(c)
        ref = Ref(m)
        I = (m, ref, {})

        def go():
            o, W, v = gen.parsed(m)
            gen.write(W, 'reactants', backend, o, False)
            gen.write(W, 'dydt', backend, o, False)
            s2a = {str(k): int(i) for k, i in o['species_dict2array'].items()}
            e, n = len(m.eqs), len(s2a)
            if sorted(s2a) != sorted(ref.species) or sorted(s2a.values()) != list(range(n)) or o['max_equations'] != e:
                c.prove(False, 'the parser keeps the species and reactions of the mechanism', I)
                return
            yv, rv = np.empty(n, dtype=object), np.empty(e, dtype=object)
            for s, i in s2a.items():
                yv[i] = SymReal(z3.Real('y_' + s))
                c.assume(yv[i].t >= 0)
            for k in range(e):
                rv[k] = SymReal(z3.Real('r_%d' % k))
            if backend == 'numba':
                p = gen.gen_module(v, 'Reactants_conc_numba.py')['reactants'](yv, e, gen.zeros(e))
                d = gen.gen_module(v, 'Loss_Gain_numba.py')['dydt'](gen.zeros(n), rv)
            else:
                p = gen.run_f(c, v, 'Reactants_conc.f90', 'reactants', dict(y=yv), I)['reactants_conc']
                d = gen.run_f(c, v, 'Loss_Gain.f90', 'loss_gain', dict(r=rv), I)['loss_gain_array']
            p = [core.term(x) for x in p]
            for k in range(e):
                if c.prove(p[k] >= 0, 'product of reactants of reaction %d is not negative' % k, I, facts([p[k]])) is False:
                    return
            for s, i in sorted(s2a.items()):
                if s in RESERVED:
                    continue
                ex = []
                for k in range(e):
                    t = z3.substitute(p[k], (yv[i].t, z3.RealVal(0)))
                    ex.append(rv[k].t == 0 if zero(c, t, facts([t])) else rv[k].t >= 0)
                c.prove(core.term(d[i]) >= 0, 'd%s/dt >= 0 while %s is absent' % (s, s), (m, ref, {'absent': s}), ex)
        gen.guard(c, I, go)
    return fn


def replay_for(backend):
    def replay(inp):
        num = gen.Num(inp['expect'])
        cand = [inp['absent']] if inp.get('absent') else [s for s in num.species if s not in RESERVED]
        for s in cand:
            for q, pt in enumerate(gen.POINTS):
                y = {x: pt[i % len(pt)] for i, x in enumerate(num.species)}
                y[s] = 0.0
                arg = dict(text=inp['text'], y=y, backends=[backend], openmp=False)
                got = realcode.call('generate', what=['reactants'], **arg)
                p = got.get('reactants_' + backend, got)
                if isinstance(p, dict):
                    return p.get('exception', str(p))
                if any(not x >= 0 for x in p):
                    return 'mechanism:\n%sreactant products %s at %s' % (inp['text'], p, y)
                for wgt in ([pt[(i + 3) % len(pt)] for i in range(len(p))], [10.0 ** (3 * ((i + q) % 3)) for i in range(len(p))]):
                    got = realcode.call('generate', r=[a * b for a, b in zip(p, wgt)], what=['dydt'], **arg)
                    d = got.get('dydt_' + backend, got)
                    if isinstance(d, dict):
                        return d.get('exception', str(d))
                    i = dict(map(tuple, got['species']))[s]
                    if not d[i] >= -1e-9 * max(map(abs, d)):
                        return 'mechanism:\n%s%s is absent and d%s/dt = %r (concentrations %s, rate constants %s)' % (inp['text'], s, s, d[i], y, wgt)
        return None
    return replay


def to_input(cex, c):
    m, ref, extra = cex.info
    return dict({'text': mech.conc(cex.model, m.text), 'expect': mech.conc_expected(cex.model, m), 'claim': cex.label}, **extra)


def cases(tier):
    out = []
    for b in ('numba', 'fortran'):
        for nm, lay, res, _ in gen.layouts(tier):
            if nm == 'three reactions' and tier != 'thorough':
                continue
            out.append(report.Case('%s, %s' % (b, nm), harness(lambda c, lay=lay, res=res: gen.mechanism(c, lay, res), b), to_input, replay_for(b),
                                   'reactions %s, every coincidence of species names, %s' % (
                                       ' ; '.join('+'.join(x or '1' for x in r) + ' -> ' + '+'.join(x or '1' for x in p) for r, p in lay),
                                       'bath species possible' if res else 'no bath species'), max_paths=200000))
        for nm, lay, fx in gen.long_layouts(tier):
            out.append(report.Case('%s, %s' % (b, nm), harness(lambda c, lay=lay, fx=fx: gen.mechanism(c, lay, fixed=fx), b), to_input, replay_for(b),
                                   '%d reactions with fixed names' % len(lay), max_paths=200000))
    return out


ASSUME = ['concentrations and rate constants are not negative', 'arithmetic is exact real arithmetic',
          'a power with a symbolic exponent is an uninterpreted function, zero at base 0 and positive at positive base', 'every reaction has at least one chemical reactant']
OUTSIDE = gen.OUTSIDE
EXPL = ('The real parser and writers run on a mechanism text with symbolic coefficient digits; the emitted products and tendencies are executed on symbolic '
        'concentrations and rates; z3 decides for every species and every state without it that its tendency is not negative. ')
