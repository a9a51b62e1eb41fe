"""extract_species (fixed-yield files) and extract_smiles_species (structures from the MCM xml), executed symbolically."""
import types
from fractions import Fraction
import z3
from vt import core, loader, mech, realcode, report, sstr
from vt.core import SymReal
from vt.loader import VFS, Anything
from vt.sstr import SymStr, S, new_char

SMI = sstr.ALPHA | {ord(x) for x in '()=#[]+-@/\\.123456789'}
SMI_FIRST = sstr.ALPHA | {ord('['), ord('(')}
NAME = sstr.ALPHA | sstr.DIGITS
_ns = {}


class Mol:
    def __init__(self, fmt, key):
        self.fmt, self.key = fmt, key


def module(dom=None):
    if 'v' not in _ns:
        _ns['v'] = VFS()
        _ns['mini'] = types.ModuleType('xml.dom.minidom')
        xd, x = types.ModuleType('xml.dom'), types.ModuleType('xml')
        xd.minidom, x.dom = _ns['mini'], xd
        pb = types.ModuleType('pybel')
        pb.readstring = lambda fmt, s, *a: Mol(fmt, s)
        _ns['ns'] = loader.load('Parse_eqn_file.py', vfs=_ns['v'], strings=True,
                                modules={'pybel': pb, 'multiprocessing': Anything('multiprocessing'), 'xml': x, 'xml.dom': xd, 'xml.dom.minidom': _ns['mini']})
    _ns['mini'].parse = lambda f, *a, **k: dom
    return _ns['ns'], _ns['v']


def smiles(tag, n):
    return SymStr([new_char('%s_%d' % (tag, i), SMI_FIRST if i == 0 else SMI) for i in range(n)])


def guard(c, I, what, f):
    try:
        return f()
    except (core.Inconclusive, core.PathDead):
        raise
    except Exception as ex:
        if c.poison:
            raise core.Inconclusive(c.poison)
        c.prove(False, '%s (%s: %s)' % (what, type(ex).__name__, str(ex)[:150]), I)
        return None


def same(c, a, b):
    """truth of the equality of two strings on this path"""
    t = sstr.lift(a).eq_term(sstr.lift(b))
    return t if isinstance(t, bool) else c.branch(t)


# ------------------------------------------------------------------ fixed yields
COMPOUNDS = ['CCCCCCCC(=O)O', 'C', 'O=CCO', 'CC', 'OCC(O)C(O)CO', 'C=O', 'CO', 'c1ccccc1', 'CCO', 'O', 'CC(=O)C', 'CCC', 'N', 'OC=O']


def many_yields(n):
    """n lines with fixed SMILES of different lengths; two of the yields are free"""
    free = {n - 2: 'd.dd', 3: '0.ddddd'}
    return yields([COMPOUNDS[i] for i in range(n)], lambda i: free.get(i))


def yields(lens, spec):
    def fn(c):
        gap, end, last = c.choose([('  ', '\n', True), ('\t', ' \n', False), (' ', '   \n', True)])
        rows, text = [], S('')
        for i, n in enumerate(lens):
            s = S(n) if isinstance(n, str) else smiles('s%d' % i, n)
            f = spec(i) if callable(spec) else spec
            t, v = mech.number('y%d' % i, f, positive=False) if f else (S('0.%02d' % (i + 1)), core.realval(Fraction(i + 1, 100)))
            rows.append((s, t, v))
            text = text + s + S(gap) + t + (S(end) if last or i + 1 < len(lens) else S(''))
        ns, v = module()
        v.files.clear()
        v.files['y.txt'] = text
        I = ('y', rows, text)
        core.STATS.functions.add('Parse_eqn_file.extract_species')
        o = guard(c, I, 'the yield file is read', lambda: ns['extract_species']('y.txt'))
        if o is None:
            return
        if c.poison:
            raise core.Inconclusive(c.poison)
        o = {str(k): x for k, x in o.items()}
        guard(c, I, 'the species of the yield file are complete', lambda: claims_yields(c, rows, o, I))
    return fn


def claims_yields(c, rows, o, I):
    first = []
    dup = set()
    for i, (s, t, v) in enumerate(rows):
        for k in first:
            if same(c, s, rows[k][0]):
                dup.add(k)
                break
        else:
            first.append(i)
    n = len(first)
    s2a, sd, mols = o['species_dict2array'], o['species_dict'], o['Pybel_object_dict']
    P = lambda q, lab: c.prove(q, lab, I)
    P(o['species_number'] == n, 'number of species')
    P(len(s2a) == n and len(sd) == n and len(mols) == n and len(o['SMILES_dict']) == n and len(o['smiles_array']) == n and len(o['concentration_array']) == n,
      'one entry per compound')
    vals = sorted(int(x) for x in s2a.values())
    P(vals == list(range(n)), 'positions are 0..n-1')
    for k in first:
        s, t, v = rows[k]
        lab = ' of compound %d' % k
        hit = [x for x in s2a if same(c, x, s)]
        if len(hit) != 1:
            P(False, 'one position' + lab)
            continue
        p = int(s2a[hit[0]])
        P(p in sd and mech.eq_t(sstr.lift(sd[p]), s), 'position to name' + lab)
        h = [x for x in o['SMILES_dict'] if same(c, x, s)]
        P(len(h) == 1 and mech.eq_t(sstr.lift(o['SMILES_dict'][h[0]]), s), 'structure' + lab)
        h = [x for x in mols if same(c, x, s)]
        if len(h) != 1:
            P(False, 'one molecule' + lab)
            continue
        m = mols[h[0]]
        P(mech.eq_t(sstr.lift(m.key), s), 'molecule' + lab)
        P(mech.eq_t(sstr.lift(o['smiles_array'][p]), s), 'list of structures' + lab)
        if k in dup:
            continue
        P(m in o['concentration_dict'] and core.term(o['concentration_dict'][m]) == v, 'yield' + lab)
        P(core.term(o['concentration_array'][p]) == v, 'list of yields' + lab)


def to_input_y(cex, c):
    _, rows, text = cex.info
    m = cex.model
    return dict(text=mech.conc(m, text), rows=[[mech.conc(m, s), float(core.model_frac(m, v) if z3.is_expr(v) else v)] for s, t, v in rows], claim=cex.label)


def replay_y(inp):
    got = realcode.call('yields', text=inp['text'])
    if 'exception' in got:
        return 'extract_species fails on %r: %s' % (inp['text'], got['exception'][-400:])
    names = []
    for s, v in inp['rows']:
        if s not in names:
            names.append(s)
    alone = {s: v for s, v in inp['rows'] if [q for q, _ in inp['rows']].count(s) == 1}
    bad = []
    if got['n'] != len(names) or sorted(got['s2a']) != sorted(names) or sorted(got['s2a'].values()) != list(range(len(names))):
        bad.append('positions %s (number %s) for %s' % (got['s2a'], got['n'], names))
    elif len(got['smiles_array']) != len(names) or len(got['conc_array']) != len(names):
        bad.append('%d structures and %d yields are listed for %d compounds' % (len(got['smiles_array']), len(got['conc_array']), len(names)))
    else:
        for s in names:
            p = got['s2a'][s]
            if got['sd'].get(str(p)) != s or got['smiles'].get(s) != s or got['mols'].get(s) != s or got['smiles_array'][p] != s:
                bad.append('structure of %s' % s)
            if s in alone and (abs(got['conc'].get(s, 1e9) - alone[s]) > 1e-9 or abs(got['conc_array'][p] - alone[s]) > 1e-9):
                bad.append('yield of %s: %s, %s instead of %s' % (s, got['conc'].get(s), got['conc_array'][p], alone[s]))
    return '; '.join(bad) + ' in %r' % inp['text'] if bad else None


def yield_cases(tier):
    deep = tier == 'thorough'
    L = [[1, 1], [2, 1, 2], [3, 3], [1, 1, 1]] + ([[2, 2, 2], [1, 1, 1, 1], [5, 2, 4], [1] * 5] if deep else [])
    out = []
    for k, lens in enumerate(L):
        spec = ['d.dd', '0.ddddd', 'd', '.d', 'd.d'][k % 5]
        out.append(report.Case('%d lines, SMILES of %s characters, yields %s' % (len(lens), lens, spec), yields(lens, spec), to_input_y, replay_y,
                               'every file of %d lines with SMILES of %s characters and yields of the form %s, three layouts' % (len(lens), lens, spec), max_paths=50000))
    for n in (11, 14):
        out.append(report.Case('%d lines with fixed SMILES' % n, many_yields(n), to_input_y, replay_y, '%d lines with fixed SMILES of different lengths, two free yields, three layouts' % n, max_paths=50000))
    return out


# ------------------------------------------------------------------ structures
class Text:
    nodeType = 3

    def __init__(self, s):
        self.data = self.nodeValue = s

    def toxml(self, *a): return self.data


class Attr:
    def __init__(self, v):
        self.value = self.nodeValue = v


class AttrMap(dict):
    def __getitem__(self, k): return dict.__getitem__(self, str(k))
    def __contains__(self, k): return dict.__contains__(self, str(k))
    def get(self, k, d=None): return dict.get(self, str(k), d)
    getNamedItem = get


class NodeList(list):
    length = property(len)

    def item(self, i):
        return self[i] if 0 <= i < len(self) else None


class Node:
    nodeType = 1

    def __init__(self, tag, attrs=None, children=()):
        self.tagName = self.nodeName = self.localName = tag
        self.attributes = AttrMap({k: Attr(v) for k, v in (attrs or {}).items()})
        self.childNodes = NodeList(children)

    firstChild = property(lambda s: s.childNodes.item(0))

    def getAttribute(self, n):
        return self.attributes[str(n)].value if str(n) in self.attributes else ''

    def hasAttribute(self, n): return str(n) in self.attributes

    def hasChildNodes(self): return len(self.childNodes) > 0

    def getElementsByTagName(self, tag):
        out = NodeList()
        for x in self.childNodes:
            if isinstance(x, Node):
                if x.tagName == str(tag):
                    out.append(x)
                out.extend(x.getElementsByTagName(tag))
        return out

    def toxml(self, *a):
        r = S('<' + self.tagName)
        for k, v in self.attributes.items():
            r = r + S(' %s="' % k) + v.value + S('"')
        if not self.childNodes:
            return r + S('/>')
        r = r + S('>')
        for x in self.childNodes:
            r = r + x.toxml()
        return r + S('</%s>' % self.tagName)

    documentElement = property(lambda s: s.firstChild)


SKIP = ['OH', 'HO2', 'O3', 'hv']


def structures(nlen, slen, nx):
    """nx entries in the xml, two species in the mechanism; names of nlen characters (a list: of the entries, then of the species)"""
    nl = nlen if isinstance(nlen, list) else [nlen] * (nx + 2)

    def fn(c):
        rest = NAME | {ord('_')}
        xs, nodes = [], []
        have = c.choose([[bool(k >> i & 1) for i in range(nx)] for k in range(2 ** nx)])
        for i in range(nx):
            nm = SymStr([new_char('x%d_%d' % (i, j), sstr.ALPHA if j == 0 else rest) for j in range(nl[i])])
            sm = smiles('s%d' % i, slen)
            xs.append((nm, sm if have[i] else None))
            kids = [Text(S('\n'))]
            if have[i]:
                kids.append(Node('smiles', None, [Text(sm)]))
            kids.append(Node('inchi', None, [Text(S('InChI=1S/CH4/h1H4'))]))
            nodes.append(Node('species', {'species_number': S(str(i)), 'species_name': nm}, kids))
        for i in range(nx):
            for j in range(i):
                if nl[i] != nl[j]:
                    continue
                t = xs[i][0].eq_term(xs[j][0])
                c.assume(z3.Not(t) if not isinstance(t, bool) else not t)
        sp = [SymStr([new_char('m%d_%d' % (i, j), sstr.ALPHA if j == 0 else rest) for j in range(nl[nx + i])]) for i in range(2)]
        t = sp[0].eq_term(sp[1])
        if not isinstance(t, bool):
            c.assume(z3.Not(t))
        dom = Node('#document', None, [Node('mechanism', None, [Node('species_defs', None, nodes)])])
        ns, v = module(dom)
        I = ('x', xs, sp)
        core.STATS.functions.add('Parse_eqn_file.extract_smiles_species')
        given = {'species_dict': {0: sp[0], 1: sp[1]}, 'species_dict2array': {sp[0]: 0, sp[1]: 1}, 'max_equations': 7}
        o = guard(c, I, 'the structures are read', lambda: ns['extract_smiles_species']({S(k): x for k, x in given.items()}, 'MCM.xml'))
        if o is None:
            return
        if c.poison:
            raise core.Inconclusive(c.poison)
        o = {str(k): x for k, x in o.items()}
        guard(c, I, 'the structures are complete', lambda: claims_structures(c, xs, sp, o, I))
    return fn


def claims_structures(c, xs, sp, o, I):
    P = lambda q, lab: c.prove(q, lab, I)
    P(o.get('max_equations') == 7, 'what was parsed before is kept')
    SM, MO = o['SMILES_dict'], o['Pybel_object_dict']
    want = 0
    for k, s in enumerate(sp):
        # radicals and oxidants of the list condense nowhere
        skip = any(same(c, s, S(q)) for q in SKIP if len(q) == len(s))
        hit = [sm for nm, sm in xs if same(c, nm, s)]
        got = [x for x in SM if same(c, x, s)]
        if skip or not hit or hit[0] is None:
            P(not got, 'species %d has no structure' % k)
            continue
        want += 1
        P(len(got) == 1, 'species %d has its structure' % k)
        if len(got) != 1:
            continue
        P(mech.eq_t(sstr.lift(SM[got[0]]), hit[0]), 'the structure of species %d is that of its entry' % k)
        mo = [x for x in MO if same(c, x, hit[0])]
        P(len(mo) == 1 and mech.eq_t(sstr.lift(MO[mo[0]].key), hit[0]), 'the molecule of species %d is built from its structure' % k)
    P(len(SM) == want, 'only species of the mechanism have structures')


def to_input_x(cex, c):
    _, xs, sp = cex.info
    m = cex.model
    return dict(xml=[[mech.conc(m, n), None if s is None else mech.conc(m, s)] for n, s in xs], species=[mech.conc(m, s) for s in sp], claim=cex.label)


def replay_x(inp):
    got = realcode.call('structures', xml=inp['xml'], species=inp['species'])
    if 'exception' in got:
        return 'extract_smiles_species fails on %s: %s' % (inp['xml'], got['exception'][-400:])
    d = dict(map(tuple, inp['xml']))
    want = {s: d[s] for s in inp['species'] if s not in SKIP and d.get(s)}
    bad = []
    if got['smiles'] != want:
        bad.append('structures %s instead of %s' % (got['smiles'], want))
    for s in want.values():
        if got['mols'].get(s) != s:
            bad.append('molecule of %s is built from %s' % (s, got['mols'].get(s)))
    if not got['kept']:
        bad.append('what was parsed before is lost')
    return '; '.join(bad) + ' (xml %s, species %s)' % (inp['xml'], inp['species']) if bad else None


def structure_cases(tier):
    deep = tier == 'thorough'
    out = []
    for nlen, slen, nx in [(2, 1, 2), (3, 2, 2), (1, 3, 3), ([1, 2, 2, 1], 1, 2), ([3, 1, 1, 2], 1, 2), ([2, 3, 3, 3], 1, 2)] + ([(2, 4, 3), (4, 2, 2), (3, 1, 3)] if deep else []):
        out.append(report.Case('%d xml entries, names of %s characters, SMILES of %d' % (nx, nlen, slen), structures(nlen, slen, nx), to_input_x, replay_x,
                               'every xml of %d entries, with or without structure, and every pair of mechanism species, names of %s characters, SMILES of %d characters' % (nx, nlen, slen),
                               max_paths=200000))
    return out
