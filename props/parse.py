"""Symbolic harness for extract_mechanism: real source, symbolic mechanism text."""
import z3
from vt import core, sstr, loader, mech, realcode
from vt.sstr import SymStr, S
from vt.loader import VFS, Anything

MODS = lambda: {'pybel': Anything('pybel'), 'multiprocessing': Anything('multiprocessing')}
_cache = {}


def parser(vfs):
    """the real extract_mechanism with file access going to vfs (module compiled once per process)"""
    if 'ns' not in _cache:
        _cache['vfs'] = VFS()
        _cache['ns'] = loader.load('Parse_eqn_file.py', vfs=_cache['vfs'], strings=True, modules=MODS())
    _cache['vfs'].files = {}
    _cache['vfs'].files.update(vfs)
    core.STATS.functions.add('Parse_eqn_file.extract_mechanism')
    return _cache['ns']['extract_mechanism']


def run(m):
    o = parser({'m.eqn.txt': m.text})('m.eqn.txt', {'Full_eqn': 0})
    return {str(k): v for k, v in o.items()}


def species_terms(m):
    out = []
    for q in m.eqs:
        for side in (q.r, q.p):
            for t, v, n in side:
                if not mech.is_hv(n):
                    out.append(n)
    return out


def lift_val(x):
    t = core.term(x)
    if t is None:
        raise TypeError('stoichiometry is not a number: %r' % (x,))
    return t


def assert_stoich(c, m, o):
    names = species_terms(m)
    keys = list(o['species_dict2array'].keys())
    for label, d, pick in (('loss', o['loss_dict'], lambda q: q.r), ('gain', o['gain_dict'], lambda q: q.p)):
        for k, q in enumerate(m.eqs):
            # every recorded entry, and every species of the file
            for nm in names + [x for x in d.keys() if not any(x == y for y in names)]:
                got = core.ZEROT
                for s, entries in d.items():
                    if k in entries:
                        got = got + z3.If(mech.eq_t(sstr.lift(s), nm), lift_val(entries[k]), core.ZEROT)
                c.prove(got == mech.expected([x for x in pick(q) if not mech.is_hv(x[2])], nm),
                        '%s of a species in reaction %d equals the sum of its coefficients' % (label, k + 1), ('m', m))
    # the list of reactants from which the rate of a reaction is built
    for k, q in enumerate(m.eqs):
        listed = [sstr.lift(x) for x in (o['rate_dict_reactants'][k].values() if k in o['rate_dict_reactants'] else [])]
        mine = [n for t, v, n in q.r if not mech.is_hv(n)]
        for nm in mine:
            c.prove(z3.Or([mech.eq_t(nm, x) for x in listed]) if listed else False, 'every reactant of reaction %d is listed' % (k + 1), ('m', m))
        for i, x in enumerate(listed):
            c.prove(z3.Or([mech.eq_t(nm, x) for nm in mine]) if mine else False, 'every listed reactant of reaction %d occurs in it' % (k + 1), ('m', m))
            for y in listed[:i]:
                c.prove(z3.Not(mech.eq_t(x, y)), 'a reactant of reaction %d is listed once' % (k + 1), ('m', m))


def assert_species(c, m, o):
    s2a, sd = o['species_dict2array'], o['species_dict']
    names = species_terms(m)
    keys = [sstr.lift(x) for x in s2a.keys()]
    for nm in names:
        c.prove(z3.Or([mech.eq_t(nm, k) for k in keys]) if keys else False, 'every species of the file has an index', ('m', m))
    for i, k in enumerate(keys):
        c.prove(z3.Or([mech.eq_t(nm, k) for nm in names]) if names else False, 'every indexed species occurs in the file', ('m', m))
        for j in range(i):
            c.prove(z3.Not(mech.eq_t(k, keys[j])), 'indexed species are distinct', ('m', m))
    vals = [int(v) for v in s2a.values()]
    c.prove(sorted(vals) == list(range(len(keys))), 'indices are exactly 0..n-1', ('m', m))
    c.prove(sorted(int(x) for x in sd.keys()) == list(range(len(keys))), 'name map covers 0..n-1', ('m', m))
    for k, v in zip(keys, vals):
        c.prove(mech.eq_t(sstr.lift(sd[v]), k) if v in sd else False, 'index -> name -> index is the identity', ('m', m))


def assert_rates(c, m, o):
    c.prove(len(m.eqs) == o['max_equations'] if isinstance(o['max_equations'], int) else False,
            'number of reactions', ('m', m))
    c.prove(sorted(o['rate_dict'].keys()) == list(range(len(m.eqs))), 'one rate expression per reaction', ('m', m))
    for k, q in enumerate(m.eqs):
        want = SymStr([x for x in q.rate.e if not sstr.in_set(x, sstr.SPACE)])
        got = o['rate_dict'].get(k)
        c.prove(mech.eq_t(sstr.lift(got), want) if got is not None else False,
                'rate text of reaction %d is the text of the file without blanks' % (k + 1), ('m', m))


def guard(c, m, f):
    """an exception of the code under analysis on a well-formed file violates the property"""
    try:
        return f()
    except (core.Inconclusive, core.PathDead):
        raise
    except Exception as e:
        if c.poison:
            raise core.Inconclusive(c.poison)
        c.prove(False, 'no exception on a well-formed file (%s: %s)' % (type(e).__name__, str(e)[:100]), ('m', m))
        return None


def to_input(cex, c):
    m = cex.info[1]
    return {'text': mech.conc(cex.model, m.text), 'expect': mech.conc_expected(cex.model, m), 'claim': cex.label}


def replay(inp):
    return mech.check_parse(realcode.call('parse', text=inp['text']), inp['expect'])


# ---------------------------------------------------------------- shapes of mechanism explored
ONE = z3.RealVal(1)
RATE = '1.2D-12*EXP(490/TEMP)*0.65'
SPECS = ['', 'd', 'd.d', '.d', 'dd', 'd.dd', 'd.']


def term(tag, spec, n):
    t, v = mech.number(tag, spec)
    return (t, v, mech.name(tag, n))


def shape(c, layout, rate=None, **kw):
    """layout: list of (reactant (spec,len) list, product (spec,len) list)"""
    eqs = []
    for k, (rs, ps) in enumerate(layout):
        mk = lambda side, terms: [(S(''), ONE, S('hv')) if t == 'hv' else term('%s%d%s' % (side, k, i), *t)
                                  for i, t in enumerate(terms)]
        eqs.append(mech.Eq(mk('r', rs), mk('p', ps), rate or S(RATE)))
    return mech.render(eqs, **kw)


def body(build, *asserts):
    def fn(c):
        m = build(c)
        o = guard(c, m, lambda: run(m))
        if o is not None:
            for a in asserts:
                guard(c, m, lambda: a(c, m, o))
    return fn


def stoich_cases(tier):
    out = []
    deep = tier == 'thorough'
    # repeated species: every partition of the names of one reaction, symbolic coefficients
    for spec in ['d', 'd.d'] + (['d.dd', 'dd', '.d'] if deep else []):
        out.append(('repeats %s' % spec, 'one reaction, 2 reactants + 2 products, 1-character names, coefficients %s' % spec,
                    lambda c, s=spec: shape(c, [([(s, 1), (s, 1)], [(s, 1), (s, 1)])])))
    out.append(('three of a kind', 'one reaction, 3 reactants + 3 products, 1-character names, no coefficients',
                lambda c: shape(c, [([('', 1)] * 3, [('', 1)] * 3)])))
    # number syntax against names containing digits
    n = 4 if deep else 3
    for spec in SPECS:
        out.append(('coefficient %r before %d-character name' % (spec, n),
                    'one reaction, 1 reactant + 1 product, %d-character names, coefficient %s' % (n, spec),
                    lambda c, s=spec: shape(c, [([(s, n)], [(s, n)])])))
    out.append(('mixed coefficients', '1 reaction, 2 reactants + 2 products, 2-character names, coefficients d and d.d on half',
                lambda c: shape(c, [([('d', 2), ('', 2)], [('', 2), ('d.d', 2)])])))
    # several reactions
    out.append(('two reactions', '2 reactions, 2 reactants + 1 product each, 1-character names, coefficient d on products',
                lambda c: shape(c, [([('', 1), ('', 1)], [('d', 1)]), ([('', 1), ('', 1)], [('d', 1)])])))
    out.append(('three reactions', '3 reactions, 1 reactant + 1 product each, 1-character names',
                lambda c: shape(c, [([('d', 1)], [('', 1)]), ([('', 1)], [('d', 1)]), ([('', 1)], [('', 1)])])))
    out.append(('photolysis', '2 reactions with hv on the left, 1-character names',
                lambda c: shape(c, [([('', 1), 'hv'], [('', 1), ('d', 1)]), (['hv', ('', 1)], [('', 1)])])))
    out.append(('photon emitted', '2 reactions with hv on the right, first or last, 1-character names',
                lambda c: shape(c, [([('', 1)], ['hv', ('d', 1)]), ([('', 1), 'hv'], [('', 1), 'hv'])])))
    out.append(('no products', '2 reactions, second/first without products',
                lambda c: shape(c, [([('', 1), ('', 1)], []), ([('', 1)], [('', 1)])])))
    out.append(('no products, last', '2 reactions, last without products',
                lambda c: shape(c, [([('', 1)], [('', 1)]), ([('', 1), ('d', 1)], [])])))
    if deep:
        out.append(('many products', '1 reaction, 2 reactants + 5 products, 1-character names',
                    lambda c: shape(c, [([('', 1)] * 2, [('', 1)] * 5)])))
        out.append(('two reactions deep', '2 reactions, 2 reactants + 2 products each, 1-character names',
                    lambda c: shape(c, [([('', 1), ('', 1)], [('d', 1), ('', 1)]), ([('', 1), ('', 1)], [('d', 1), ('', 1)])])))
        out.append(('2-character names', '1 reaction, 3 reactants + 3 products, 2-character names',
                    lambda c: shape(c, [([('', 2)] * 3, [('', 2)] * 3)])))
    out += WIDE + (DEEPWIDE if deep else [])
    # layout of the text
    for lab in ('{%d.}', '{%d}'):
        def lay(c, lab=lab):
            kw = dict(label=lab, a=c.choose([' \t ', '\t', '']), plus=c.choose([' + ', '+', ' +\n ']),
                      eqs_sep=c.choose([' = ', '=', '\n = ', '\t=\t']), colon=c.choose([' : \t', ':', ' :\n']),
                      end=c.choose([' \t;\n', ';', '\n;\n']))
            # names are fixed here (one may coincide with another), the coefficient digit is free
            a, b = S('A1'), S(c.choose(['B2', 'A1']) if deep else 'B2')
            t, v = mech.number('k', 'd')
            if deep:
                t = t + S(c.choose(['', ' ']))
            one = lambda n: (S(''), ONE, n)
            return mech.render([mech.Eq([(t, v, a), one(b)], [one(S('C3O'))], S(RATE)), mech.Eq([one(S('C3O'))], [one(a), one(b)], S(RATE))], **kw)
        def gap(c, lab=lab):
            # blanks or a line break between a coefficient and its species
            (t, v), (u, w) = mech.number('k', 'd.d'), mech.number('l', 'd')
            sp = S(c.choose([' ', '  ', '\t', ' \n']))
            where = c.choose(range(4))
            x = [sp if i == where else S('') for i in range(4)]
            n = [mech.name('n%d' % i, 2) for i in range(4)]
            return mech.render([mech.Eq([(t + x[0], v, n[0]), (u + x[1], w, n[1])], [(u + x[2], w, n[2]), (t + x[3], v, n[3])], S(RATE))], label=lab)
        if deep or lab == '{%d.}':
            out.append(('coefficient apart ' + lab, '1 reaction of 2 + 2 species of 2 characters, coefficients d and d.d, one of them apart from its species, label ' + lab, gap))
        out.append(('layout ' + lab, 'white space and line breaks around labels, +, =, :, ; (3*3*4*3*3 layouts), 2 reactions with fixed names and a free coefficient digit, label ' + lab, lay))
    return out


def fixed(t, spec, n):
    x, v = mech.number(t, spec)
    return (x, v, S(n))


def big(c, nr, npr, specs):
    """one long reaction: nr reactants, npr products, fixed names, the coefficient forms of specs in turn; then a plain one"""
    at = c.choose(range(nr + npr))
    side = lambda k, n, pre: [fixed('%s%d' % (pre, i), specs[(i + k) % len(specs)] if i + k == at else '', '%s%dO%d' % (pre, i, i % 4)) for i in range(n)]
    eqs = [mech.Eq(side(0, nr, 'R'), side(nr, npr, 'P'), S(RATE)), mech.Eq([fixed('x', '', 'P%dO%d' % (npr - 1, (npr - 1) % 4))], [fixed('y', 'd', 'R0O0')], S('1.0D-3'))]
    return mech.render(eqs)


def chain(c, n):
    """n reactions through n + 1 species with fixed names; the coefficients of the last ones are free"""
    free = {0: 'd', n // 2: 'd.d', n - 1: 'd'}
    return mech.render([mech.Eq([fixed('a%d' % i, '', 'C%dH' % i)], [fixed('b%d' % i, free.get(i, ''), 'C%dH' % (i + 1)), fixed('c%d' % i, '', 'CO' if i % 2 else 'X%d' % i)],
                                S('%d.%dD-12*KRO2NO' % (i // 10, i % 10))) for i in range(n)])


WIDE = [('many terms', '1 reaction of 5 reactants + 9 products with fixed names, a coefficient d, d.d, d.dd, dd.d, 0.ddd, ddd or d.dddd at any one place; another reaction',
         lambda c: big(c, 5, 9, ['d', 'd.d', 'd.dd', 'dd.d', '0.ddd', 'ddd', 'd.dddd'])),
        ('chain of 25', '25 reactions, 39 species, fixed names, 3 free coefficients', lambda c: chain(c, 25))]
DEEPWIDE = [('chain of 120', '120 reactions, 182 species, fixed names, 3 free coefficients', lambda c: chain(c, 120))]


def index_cases(tier):
    deep = tier == 'thorough'
    out = WIDE + (DEEPWIDE if deep else []) + [
        ('two reactions', '2 reactions, 2 reactants + 2 products / 1 + 1, 1-character names',
         lambda c: shape(c, [([('', 1), ('', 1)], [('', 1), ('', 1)]), ([('', 1)], [('', 1)])])),
        ('three reactions', '3 reactions, 1 reactant + 1 product each, 1-character names',
         lambda c: shape(c, [([('', 1)], [('', 1)])] * 3)),
        ('digits in names', '1 reaction, 2 reactants + 1 product, 3-character names',
         lambda c: shape(c, [([('', 3), ('', 3)], [('', 3)])])),
        ('coefficients', '2 reactions with coefficients d, d.d and 2-character names',
         lambda c: shape(c, [([('d', 2)], [('d.d', 2)]), ([('', 1)], [('d', 1)])])),
        ('photolysis', '2 reactions with hv, one without products',
         lambda c: shape(c, [([('', 1), 'hv'], [('', 1), ('', 1)]), ([('', 1), ('', 1)], [])])),
        ('photon emitted', '2 reactions with hv on the right, first or last',
         lambda c: shape(c, [([('', 1)], ['hv', ('', 1)]), ([('', 1), 'hv'], [('', 1), 'hv'])])),
        ('different lengths', '2 reactions, names of 1, 2 and 3 characters (one a prefix of another)',
         lambda c: shape(c, [([('', 1), ('', 2)], [('', 3)]), ([('', 2)], [('', 1)])])),
    ]
    if deep:
        out += [('four reactions', '4 reactions, 1 reactant + 1 product each, 1-character names',
                 lambda c: shape(c, [([('', 1)], [('', 1)])] * 4)),
                ('six names of 2', '1 reaction, 3 + 3, 2-character names', lambda c: shape(c, [([('', 2)] * 3, [('', 2)] * 3)]))]
    return out


RATECH = frozenset(map(ord, '0123456789ABCDEJKMNOPRTX()*+-./ \t'))


def rate_cases(tier):
    deep = tier == 'thorough'
    n = 6 if deep else 4

    def free(c, k, i=0):
        return SymStr([sstr.new_char('q%d_%d' % (i, j), RATECH) for j in range(k)])

    def texts(c):
        a, b = free(c, n, 0), free(c, 2, 1)
        # a rate expression has at least one visible character
        for s in (a, b):
            c.assume(z3.Or([z3.And(x.v != 32, x.v != 9) for x in s.e]))
        return a, b

    def two(c):
        a, b = texts(c)
        one = (S(''), ONE, S('A'))
        two_ = (S(''), ONE, S('B1'))
        return mech.render([mech.Eq([one], [two_], a), mech.Eq([two_], [one], b)])
    out = [('free rate text', '2 reactions, rate text of %d and 2 characters over %d symbols' % (n, len(RATECH)), two)]

    def counted(c):
        k = c.choose(range(1, 13))
        lab = c.choose(['{%d.}', '{%d}'])
        e = []
        for i in range(k):
            e.append(mech.Eq([(S(''), ONE, S('A%d' % i))], [(S(''), ONE, S('A%d' % (i + 1)))] if i % 3 != 2 or i == k - 1 else [],
                             SymStr([sstr.new_char('q%d' % i, frozenset(map(ord, 'KJM')))]) + S('*1.0D-%d' % (i + 1))))
        return mech.render(e, label=lab)
    out.append(('1 to 12 reactions', 'files of 1..12 reactions, both label styles, one free rate character each', counted))

    def wrapped(c):
        a = SymStr([sstr.new_char('q0', frozenset(map(ord, 'KJM ')))])
        brk = c.choose(['\n', ' \n', '\n  ', '\t', '  '])
        r = S('1.2D-12') + S(brk) + S('*') + S(brk) + a + S('KRO2NO*TEMP/300')
        return mech.render([mech.Eq([(S(''), ONE, S('A'))], [(S(''), ONE, S('B'))], r)] * 2, colon=c.choose([':', ' :\t', ':\n']))
    def commented(c):
        # text in front of, between and behind reactions: any characters but braces (they delimit labels)
        def free_text(i, k):
            return SymStr([sstr.new_char('c%d_%d' % (i, j), frozenset(map(ord, 'AB12=+*/:;#! .%'))) for j in range(k)])
        lead = c.choose(['// ', '#', '*', ' ! ', ''])
        blank = c.choose(['\n', '\n\n', '\n \t\n'])
        one, two_, three = [(S(''), ONE, S(x)) for x in ('A', 'B1', 'O3')]
        cm = lambda i: S(lead) + free_text(i, 2) + S(blank)
        k = c.choose(range(4))
        e = [([one], [two_], S('1.2D-12*EXP(490/TEMP)')), ([two_, one], [three], S('J(4)')), ([three], [one], SymStr([sstr.new_char('q', frozenset(map(ord, 'KJM')))]) + S('*0.5'))]
        out = cm(0) if k == 0 else S('')
        eqs = []
        for i, (r, p, q) in enumerate(e):
            one_eq = mech.render([mech.Eq(r, p, q)], label='{%d.}' % (i + 1) + '%.0s')
            out = out + one_eq.text
            eqs += one_eq.eqs
            if k == i + 1:
                out = out + cm(i + 1)
        return mech.Mech(eqs, out)
    out.append(('comments', 'a comment of 2 free characters and blank lines before, between or behind 3 reactions', commented))
    out += WIDE[1:] + (DEEPWIDE if deep else [])
    out.append(('wrapped rate text', 'rate text broken over lines or with blanks inside', wrapped))
    return out


OUTSIDE = ['names longer than the stated lengths, more reactions/terms than stated', 'coefficients written with an exponent or a sign', 'comments or braces inside reactions; files whose last label is not the number of reactions']
ASSUME = ['a file is well formed: reactions {n} or {n.} numbered 1..N in order, each reactants = products : rate ;',
          'species names start with a letter and consist of letters, digits and underscore',
          'open() returns the symbolic text; print output is dropped']
EXPL = ('extract_mechanism of the current /repo source is executed by CPython on a mechanism text whose species-name characters, '
        'coefficient digits and rate characters are solver variables; every branch on them is decided by z3 and all feasible paths are '
        'explored; at the end of each path the claim is refuted or discharged by z3 for all remaining values. ')


def make_cases(shapes, *asserts):
    from vt import report
    return [report.Case(n, body(b, *asserts), to_input, replay, bd, max_paths=60000) for n, bd, b in shapes]
