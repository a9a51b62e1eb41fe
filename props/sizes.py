"""Size_distributions.lognormal executed symbolically."""
import math
from fractions import Fraction
import numpy as np
import z3
from vt import core, eqprove, loader, npshim, realcode, report
from vt.core import SymReal
from vt.loader import VFS, stub

PAR = ['total_conc', 'meansize', 'std', 'lowersize', 'uppersize']


def expx(x):
    """exp with exp(log(x)) = x"""
    x = SymReal(core.term(x))
    t = z3.simplify(x.t)
    if t.decl().name() == 'LOG':
        return SymReal(t.arg(0))
    return x.exp()


def logx(x):
    x = SymReal(core.term(x))
    t = z3.simplify(x.t)
    if t.decl().name() == 'EXP':
        return SymReal(t.arg(0))
    return x.log()


class NPS(npshim.NP):
    def _map(self, name, x):
        f = {'exp': expx, 'log': logx}.get(name)
        if f is None or not npshim.has_sym(x):
            return npshim.NP._map(self, name, x)
        if isinstance(x, npshim.SYM):
            return f(x)
        x = npshim.objarr(x)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = f(x[i])
        return out


    def geomspace(self, a, b, num=50, **k):
        n = int(num)
        la, lb = logx(a), logx(b)
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = a if i == 0 else b if i == n - 1 else expx(la + (lb - la) * SymReal(core.realval(Fraction(i, n - 1))))
        return out

    def logspace(self, a, b, num=50, base=10.0, **k):
        # 10 ** (log10(p) + k (log10(q) - log10(p))) is the geometric spacing of p and q
        ta, tb = (z3.simplify(core.term(q)) for q in (a, b))
        if float(base) == 10.0 and ta.decl().name() == tb.decl().name() == 'LOG10':
            return self.geomspace(SymReal(ta.arg(0)), SymReal(tb.arg(0)), num)
        return npshim.NP.logspace(self, a, b, num, base)


ROOT = math.sqrt(2 * math.pi)


def pdf1(x, s, loc, scale):
    z = (x - loc) / scale
    l = logx(z) / s
    return expx(-(l * l) / 2.0) / (s * z * ROOT) / scale


def npdf1(x, loc, scale):
    z = (x - loc) / scale
    return expx(-(z * z) / 2.0) / (ROOT * scale)


class Frozen:
    def __init__(self, dist, *a, **k):
        self.dist, self.a, self.k = dist, a, k

    def __getattr__(self, n):
        f = getattr(self.dist, n)
        return lambda x, *a: f(x, *(self.a + a), **self.k)


class Dist:
    """pdf and logpdf of a distribution, also in the frozen form dist(...).pdf(x)"""
    def __init__(self, one):
        self.one = one

    def __call__(self, *a, **k):
        return Frozen(self, *a, **k)

    def freeze(self, *a, **k):
        return Frozen(self, *a, **k)

    def pdf(self, x, *a, **k):
        if isinstance(x, (np.ndarray, list, tuple)):
            x = npshim.objarr(x)
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = self.one(x[i], *a, **k)
            return out
        return self.one(x, *a, **k)

    def logpdf(self, x, *a, **k):
        p = self.pdf(x, *a, **k)
        return NPS()._map('log', p)


Lognorm = Dist(lambda x, s, loc=0, scale=1: pdf1(x, s, loc, scale))
Norm = Dist(lambda x, loc=0, scale=1: npdf1(x, loc, scale))


POINTS = [(100.0, 0.2, 2.2, 0.01, 1.0), (250.5, 0.11, 1.7, 0.02, 0.6), (31.0, 0.45, 1.35, 0.1, 2.5)]


def harness(n):
    def fn(c):
        v = {p: core.real(p) for p in PAR}
        fs = [v['total_conc'].t > 0, v['meansize'].t > 0, v['std'].t > 1, v['lowersize'].t > 0, v['uppersize'].t > v['lowersize'].t]
        for f in fs:
            c.assume(f)
        I = (n,)
        try:
            st = stub('scipy.stats', lognorm=Lognorm, norm=Norm)
            any_ = loader.Anything('matplotlib')
            ns = loader.load('Aerosol/Size_distributions.py', vfs=VFS(), modules={
                'numpy': NPS(), 'scipy': stub('scipy', stats=st), 'scipy.stats': st, 'matplotlib': any_})
            core.STATS.functions.add('Size_distributions.lognormal')
            N, x = ns['lognormal'](n, *[v[p] for p in PAR])
            N, x = list(N), list(x)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the size distribution is computed (%s: %s)' % (type(ex).__name__, str(ex)[:200]), I)
            return
        c.prove(len(N) == n and len(x) == n, 'one number and one size per bin', I)
        if len(N) != n or len(x) != n:
            return
        pr = eqprove.Prover(c, fs + [core.uf('LOG')(v['std'].t) > 0], [dict(zip(PAR, p)) for p in POINTS])
        pr.add_path()
        lo, hi = logx(v['lowersize']), logx(v['uppersize'])
        for i in range(n):
            e = v['lowersize'] if i == 0 else v['uppersize'] if i == n - 1 else expx(lo + (hi - lo) * SymReal(core.realval(Fraction(i, n - 1))))
            if not pr.prove(core.term(x[i]), core.term(e), 'size of bin %d' % i, I):
                return
        p = []
        sg = logx(v['std'])
        for i in range(n):
            z = logx(SymReal(core.term(x[i])) / v['meansize']) / sg
            p.append(expx(-(z * z) / 2.0) / SymReal(core.term(x[i])))
        tot = p[0]
        for q in p[1:]:
            tot = tot + q
        # positive sizes make every density positive
        for i in range(n):
            pr.facts.append(pr.rewrite(core.term(x[i])) > 0)
            pr.facts.append(pr.rewrite(core.term(p[i])) > 0)
        for i in range(n):
            if not pr.prove(core.term(N[i]), core.term(v['total_conc'] * p[i] / tot), 'number of particles in bin %d' % i, I):
                return
        # every N[i] is total*w[i]/sum(w) with w > 0, whatever the w are: their sum is the total
        w = [z3.Real('w%d' % i) for i in range(n)]
        iW, T = z3.Reals('iW T')
        W = z3.Sum(w) if n > 1 else w[0]
        s = z3.Solver()
        s.set('timeout', 60000)
        lhs = z3.simplify(z3.Sum([T * x_ * iW for x_ in w]) if n > 1 else T * w[0] * iW, som=True)
        s.add([x_ > 0 for x_ in w] + [T * (iW * W) == T, iW * W == 1, lhs != T])
        if core.check(s) != z3.unsat:
            c.die('the sum lemma was not decided')
    return fn


def to_input(cex, c):
    d = {'n': cex.info[0], 'claim': cex.label}
    for p in PAR:
        f = core.model_frac(cex.model, z3.Real(p))
        d[p] = None if f is None else float(f)
    return d


def replay(inp):
    pts = list(POINTS)
    p = tuple(inp[k] for k in PAR)
    if all(q is not None and 1e-6 < q < 1e6 for q in p) and 1.01 < p[2] < 50 and p[4] > 1.01 * p[3]:
        pts.append(p)
    for p in pts:
        n = inp['n']
        got = realcode.call('lognormal', n=n, args=p)
        if 'exception' in got:
            return got['exception'][-600:]
        N, x = got['N'], got['x']
        if len(N) != n or len(x) != n:
            return 'lognormal%s returns %d numbers, %d sizes' % ((n,) + p, len(N), len(x))
        tot, M, s, lo, hi = p
        w = []
        for i in range(n):
            e = lo if n == 1 else lo * (hi / lo) ** (i / (n - 1))
            if not abs(x[i] - e) <= 1e-9 * e:
                return 'lognormal(%s, %s): size of bin %d is %r instead of %r' % (n, p, i, x[i], e)
            w.append(math.exp(-(math.log(e / M) / math.log(s)) ** 2 / 2) / e)
        if sum(w) < 1e-200:
            continue
        for i in range(n):
            e = tot * w[i] / sum(w)
            if not abs(N[i] - e) <= 1e-9 * e + 1e-200:
                return 'lognormal(%s, %s): bin %d holds %r instead of %r' % (n, p, i, N[i], e)
    return None


def cases(tier):
    return [report.Case('%d bins' % n, harness(n), to_input, replay, '%d bins, every total, mean size, width and size range' % n)
            for n in ([1, 2, 3, 4, 5, 8, 12] if tier != 'thorough' else [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 40])]
