"""Peroxy-radical index list: the real write_RO2_indices on dictionaries with symbolic species names."""
import os
import numpy as np
import z3
from vt import core, sstr, loader, mech, npshim, realcode, report
from vt.sstr import SymStr, S
from vt.loader import VFS, REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_c = {}


def ref():
    return open(os.path.join(HERE, 'ref', 'ro2_names.txt')).read().split()


def same(a, b):
    """truth of a == b for species names; an equality found true fixes the name on the path"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    dec = core.ctx().notes.setdefault('dec', {})
    ka = dec.get(id(a))
    if isinstance(b, str) or b.c is not None:
        bs = b if isinstance(b, str) else b.c
        if ka is not None:
            return ka == bs
        if a.c is not None:
            return a.c == bs
        r = bool(a == S(bs))
        if r:
            dec[id(a)] = bs
        return r
    return bool(a == b)


class Names(dict):
    """species -> position with symbolic keys"""

    def __init__(self, items):
        dict.__init__(self)
        self.it = list(items)

    def _f(self, k):
        for n, v in self.it:
            if same(n, k):
                return (v,)

    def __contains__(self, k): return self._f(k) is not None

    def __getitem__(self, k):
        r = self._f(k)
        if r is None:
            raise KeyError(k)
        return r[0]

    def get(self, k, d=None):
        r = self._f(k)
        return d if r is None else r[0]

    def keys(self): return [k for k, _ in self.it]
    def values(self): return [v for _, v in self.it]
    def items(self): return list(self.it)
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.it)
    def copy(self): return self


class Set:
    """set whose members may be compared with symbolic names"""

    def __init__(self, it=()):
        self.n, self.s = set(), []
        for x in it:
            self.add(x)

    def add(self, x):
        if isinstance(x, SymStr) and x.c is None:
            if x not in self:
                self.s.append(x)
        else:
            self.n.add(str(x) if isinstance(x, SymStr) else x)

    def __contains__(self, x):
        if isinstance(x, SymStr) and x.c is None:
            ka = core.ctx().notes.get('dec', {}).get(id(x))
            if ka is not None:
                return ka in self.n
            return any(same(x, y) for y in list(self.n)) or any(same(x, y) for y in self.s)
        return x in self.n or any(same(y, x) for y in self.s)

    def __iter__(self): return iter(list(self.n) + self.s)
    def __len__(self): return len(self.n) + len(self.s)
    def intersection(self, o): return Set(x for x in o if x in self)
    __and__ = intersection
    def __rand__(self, o): return Set(x for x in o if x in self)
    def union(self, o): return Set(list(self) + list(o))
    __or__ = union


def repo():
    if not _c:
        v = _c['v'] = VFS()
        from props import gen
        m = gen.modules(v, lambda: 4)
        ns = loader.load('Parse_eqn_file.py', vfs=v, strings=False, modules=m)
        ns['__builtins__']['set'] = ns['__builtins__']['frozenset'] = Set
        _c['f'] = ns['write_RO2_indices']
    _c['v'].arrays.clear()
    core.STATS.functions.add('Parse_eqn_file.write_RO2_indices')
    return _c['f'], _c['v']


def saved(v):
    a = [x for k, x in v.arrays.items() if k.startswith('m_RO2_indices')]
    return None if len(a) != 1 else a[0]


def is_ro2(nm, names):
    c = [mech.eq_t(nm, S(r)) for r in names if len(r) == len(nm)]
    return z3.Or(c) if c else z3.BoolVal(False)


CHARS = frozenset(range(65, 91)) | sstr.DIGITS


def sym_case(lens):
    names = ref()

    def fn(c):
        f, v = repo()
        sym = [mech.name('n%d' % i, L, first=CHARS - sstr.DIGITS, rest=CHARS) for i, L in enumerate(lens)]
        for i in range(len(sym)):
            for j in range(i):
                if len(sym[i]) == len(sym[j]):
                    c.assume(z3.Not(mech.eq_t(sym[i], sym[j])))
            for o in ('O3', 'NO2', 'NO'):
                if len(o) == lens[i]:
                    c.assume(z3.Not(mech.eq_t(sym[i], S(o))))
        items = [('O3', 0)]
        pos = []
        for i, s in enumerate(sym):
            pos.append(len(items))
            items.append((s, len(items)))
            items.append((['NO2', 'NO'][i], len(items)))
        try:
            f('m', Names(items))
            a = saved(v)
            a = None if a is None else np.asarray(a)
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            if c.poison:
                raise core.Inconclusive(c.poison)
            c.prove(False, 'the index list can be written (%s: %s)' % (type(ex).__name__, ex), sym)
            return
        if a is None:
            c.prove(False, 'exactly one index file is written', sym)
            return
        got = [int(x) for x in a]
        c.prove(a.dtype.kind in 'iu' or a.dtype == object and all(isinstance(x, int) for x in a) and len(a) > 0, 'indices are integers', sym)
        for p, s in zip(pos, sym):
            k = got.count(p)
            r = is_ro2(s, names)
            c.prove(z3.And(z3.Implies(r, z3.BoolVal(k == 1)), z3.Implies(z3.Not(r), z3.BoolVal(k == 0))), 'membership', sym)
        c.prove(all(g in pos for g in got), 'no other species in the list', sym)
    return fn


def to_input(cex, c):
    items = ['O3']
    for i, s in enumerate(cex.info):
        items += [mech.conc(cex.model, s) if isinstance(s, SymStr) else s, ['NO2', 'NO'][i]] if isinstance(s, SymStr) else [s]
    return {'species': items, 'claim': cex.label}


def replay(inp):
    sp = inp['species']
    names = set(ref())
    got = realcode.call('ro2', species=sp)
    if 'exception' in got:
        return got['exception'][-600:]
    exp = sorted(i for i, s in enumerate(sp) if s in names)
    if sorted(got['indices']) != exp:
        miss = [sp[i] for i in exp if i not in got['indices']]
        return 'peroxy radical positions %s, expected %s (missing %s)' % (sorted(got['indices'])[:40], exp[:40], miss[:10])
    if got.get('sum_error'):
        return 'the saved list cannot be used as an index: ' + got['sum_error']
    return None


def mech_case(order):
    """all published names and decoys together; concrete names, so a single path"""
    names = ref()

    def fn(c):
        f, v = repo()
        L = names + [x + 'X' for x in names[::7]] + [x[:-1] for x in names[::11]] + ['O3', 'CH3OOH', 'NO3', 'RO2']
        L = list(dict.fromkeys(L))
        L = [L, L[::-1], L[::2] + L[1::2]][order]
        try:
            f('m', {n: i for i, n in enumerate(L)})
            got = sorted(int(x) for x in saved(v))
        except (core.Inconclusive, core.PathDead):
            raise
        except Exception as ex:
            c.prove(False, 'the index list can be written (%s)' % ex, L)
            return
        R = set(names)
        c.prove(got == [i for i, n in enumerate(L) if n in R], 'positions of the published list', L)
    return fn


def cases(tier):
    lens = list(range(1, 13 if tier == 'quick' else 17))
    out = [report.Case('one species of %d characters' % L, sym_case((L,)), to_input, replay, 'every name of %d capital letters and digits' % L, max_paths=3000) for L in lens[::-1]]
    two = [(4, 5), (11, 4), (5, 11)] + ([(5, 5), (5, 8)] if tier != 'quick' else [])
    out += [report.Case('two species of %d and %d characters' % p, sym_case(p), to_input, replay, 'every pair of names', max_paths=20000) for p in two]
    out += [report.Case('whole list, order %d' % k, mech_case(k), lambda cex, c: {'species': list(cex.info), 'claim': cex.label}, replay, 'all published names with near misses') for k in range(3)]
    return out
