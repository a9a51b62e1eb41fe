"""Reader and symbolic interpreter for the free-form Fortran that the repository generates.

Declarations, PARAMETERs, array sections, WHERE, DO, IF, OpenMP sentinels.  Values are Python numbers
or proxies (core.SymReal); array elements not yet assigned are fresh unknowns.  Every element access is
traced, so that the OpenMP work partition can be examined.
"""
import re
from fractions import Fraction
import itertools
import z3
from . import core
from .core import SymReal, SymBool


class FortranError(Exception):
    """the generated source is not acceptable Fortran"""


TOK = re.compile(r'\s*(?:(?P<num>(?:\d+\.\d*(?![a-zA-Z]{2,}\.)|\.\d+|\d+)(?:[deDE][-+]?\d+)?(?:_\d+)?)|(?P<sym>SYMV\d+V)|'
                 r'(?P<dot>\.(?:and|or|not|eq|ne|lt|le|gt|ge|true|false|AND|OR|NOT|EQ|NE|LT|LE|GT|GE|TRUE|FALSE)\.)|'
                 r'(?P<name>[A-Za-z_]\w*)|(?P<str>"[^"]*"|\'[^\']*\')|(?P<op>\*\*|==|/=|<=|>=|\(/|/\)|::|[-+*/(),:=<>%]))')


class Lit:
    """Fortran numeric literal: exact value and whether it is an INTEGER"""
    __slots__ = ('v', 'isint')


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise FortranError('cannot read %r at %r' % (s, s[i:i + 20]))
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == 'name':
            out.append(('name', v.lower()))
        elif k == 'dot':
            out.append(('op', v.lower()))
        else:
            out.append((k, v))
    return out


def number(t):
    t = t.split('_')[0]
    if re.fullmatch(r'\d+', t):
        return int(t), True
    # default kind literals are read as their decimal value (see assumptions)
    return Fraction(t.lower().replace('d', 'e')) if not t.endswith('.') else Fraction(t[:-1]), False


REL = {'==': 'eq', '.eq.': 'eq', '/=': 'ne', '.ne.': 'ne', '<': 'lt', '.lt.': 'lt', '<=': 'le', '.le.': 'le',
       '>': 'gt', '.gt.': 'gt', '>=': 'ge', '.ge.': 'ge'}


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek() == v and self.kind() in ('op', 'name'):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise FortranError('expected %r, found %r' % (v, self.peek()))

    def done(self):
        return self.i >= len(self.t)

    # precedence: or < and < not < relational < additive (unary sign) < multiplicative < power
    def expr(self):
        a = self.and_()
        while self.accept('.or.'):
            a = ('or', a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.accept('.and.'):
            a = ('and', a, self.not_())
        return a

    def not_(self):
        if self.accept('.not.'):
            return ('not', self.not_())
        return self.rel()

    def rel(self):
        a = self.add()
        while self.kind() == 'op' and self.peek() in REL:
            o = REL[self.next()[1]]
            a = ('rel', o, a, self.add())
        return a

    def add(self):
        if self.accept('-'):
            a = ('neg', self.mul())
        elif self.accept('+'):
            a = self.mul()
        else:
            a = self.mul()
        while self.kind() == 'op' and self.peek() in '+-':
            o = self.next()[1]
            a = (o, a, self.ext(self.mul))
        return a

    def ext(self, f):
        """operand after an operator; a sign there is a GNU extension binding like a factor"""
        if self.accept('-'):
            return ('neg', self.ext(f))
        if self.accept('+'):
            return self.ext(f)
        return f()

    def mul(self):
        a = self.pow()
        while self.kind() == 'op' and self.peek() in ('*', '/'):
            o = self.next()[1]
            a = (o, a, self.ext(self.pow))
        return a

    def pow(self):
        a = self.prim()
        if self.accept('**'):
            return ('**', a, self.ext(self.pow))
        return a

    def prim(self):
        if self.done():
            raise FortranError('unexpected end of expression')
        k, v = self.next()
        if k == 'num':
            n, isint = number(v)
            return ('num', n, isint)
        if k == 'sym':
            return ('sym', v)
        if k == 'op' and v == '(':
            e = self.expr()
            self.expect(')')
            return ('par', e)
        if k == 'op' and v == '(/':
            xs = [self.expr()]
            while self.accept(','):
                xs.append(self.expr())
            self.expect('/)')
            return ('arr', xs)
        if k == 'op' and v in ('.true.', '.false.'):
            return ('bool', v == '.true.')
        if k == 'name':
            if self.accept('('):
                args = self.args()
                return ('ref', v, args)
            return ('var', v)
        raise FortranError('unexpected %r' % v)

    def args(self):
        out = []
        if self.accept(')'):
            return out
        while True:
            if self.kind() == 'name' and self.peek(1) == '=':
                n = self.next()[1]
                self.next()
                out.append(('kw', n, self.expr()))
            elif self.peek() == ':':
                self.next()
                hi = None if self.peek() in (',', ')') else self.expr()
                out.append(('slice', None, hi))
            else:
                e = self.expr()
                if self.accept(':'):
                    hi = None if self.peek() in (',', ')') else self.expr()
                    out.append(('slice', e, hi))
                else:
                    out.append(e)
            if self.accept(')'):
                return out
            self.expect(',')


def expr(s):
    p = P(lex(s))
    e = p.expr()
    if not p.done():
        raise FortranError('trailing text %r in %r' % (p.peek(), s))
    return e


# ---------------------------------------------------------------- source -> statements
LINE = 132        # gfortran, free form


def width(raw):
    return len(re.sub(r'SYMV\d+V', '2.5', raw.rstrip()))


def logical_lines(text, maxlen=LINE):
    out, cur, n0, omp = [], None, 0, False
    for n, raw in enumerate(text.split('\n'), 1):
        s = raw.strip()
        low = s.lower()
        if low.startswith('!$omp'):
            body = s[5:]
            if body.startswith('&'):
                body = body[1:]
            cont = body.rstrip().endswith('&')
            body = body.rstrip().rstrip('&')
            if cur is not None and omp:
                cur += ' ' + body
            else:
                if cur is not None:
                    raise FortranError('line %d: directive inside a continued statement' % n)
                cur, n0, omp = body, n, True
            if not cont:
                out.append((n0, '!$omp ' + ' '.join(cur.split())))
                cur, omp = None, False
            continue
        i = s.find('!')
        if i >= 0:
            s = s[:i].rstrip()
        if not s:
            continue
        if maxlen and width(raw) > maxlen and '!' not in raw[:maxlen]:
            raise FortranError('line %d: longer than %d characters' % (n, maxlen))
        if s.startswith('&'):
            s = s[1:].lstrip()
        cont = s.endswith('&')
        if cont:
            s = s[:-1].rstrip()
        cur = s if cur is None else cur + ' ' + s
        if cur == s:
            n0 = n
        if not cont:
            out.append((n0, cur))
            cur = None
    if cur is not None:
        raise FortranError('continued statement without end')
    return out


class Sub:
    def __init__(self, name, args):
        self.name, self.args, self.decl, self.body = name, args, {}, []


TYPES = ('real', 'integer', 'double precision', 'logical')


def parse(text, maxlen=LINE):
    lines = logical_lines(text, maxlen)
    subs, cur, stack = {}, None, []
    for n, s in lines:
        low = s.lower()
        try:
            if low.startswith('!$omp'):
                if cur is not None:
                    stack[-1].append(('omp', n, low[5:].strip()))
                continue
            m = re.match(r'(subroutine|function)\s+(\w+)\s*\((.*)\)\s*$', s, re.I)
            if m:
                cur = Sub(m.group(2).lower(), [a.strip().lower() for a in m.group(3).split(',') if a.strip()])
                stack = [cur.body]
                continue
            if re.match(r'end\s*(subroutine|function)?(\s+\w+)?\s*$', low) and not re.match(r'end\s*(do|if|where)', low):
                if len(stack) != 1:
                    raise FortranError('unclosed block at the end of %s' % cur.name)
                subs[cur.name] = cur
                cur = None
                continue
            if cur is None:
                raise FortranError('statement outside a subroutine: %r' % s)
            if low.startswith(('implicit', 'use ', 'contains', 'print', 'write')):
                continue
            if re.match(r'(real|integer|double\s+precision|logical)\b', low) and not re.match(r'\w+\s*=', low):
                declare(cur, s)
                continue
            m = re.match(r'do\s+(?:\d+\s+)?(\w+)\s*=\s*(.*)$', low)
            if m:
                p = P(lex(s[m.start(2):]))
                lo = p.expr()
                p.expect(',')
                hi = p.expr()
                st = p.expr() if p.accept(',') else ('num', 1, True)
                b = []
                stack[-1].append(('do', n, m.group(1), lo, hi, st, b))
                stack.append(b)
                continue
            if re.match(r'end\s*(do|if|where)\b', low):
                stack.pop()
                if not stack:
                    raise FortranError('unmatched %r' % s)
                continue
            m = re.match(r'(if|where)\s*\(', low)
            if m:
                close = match_paren(s, m.end() - 1)
                cond = expr(s[m.end():close])
                rest = s[close + 1:].strip()
                if m.group(1) == 'if' and rest.lower() == 'then':
                    node = ('if', n, [(cond, [])])
                    stack[-1].append(node)
                    stack.append(node[2][-1][1])
                elif m.group(1) == 'if':
                    stack[-1].append(('if', n, [(cond, [simple(n, rest)])]))
                elif rest:
                    stack[-1].append(('where', n, cond, [simple(n, rest)], []))
                else:
                    node = ('where', n, cond, [], [])
                    stack[-1].append(node)
                    stack.append(node[3])
                continue
            m = re.match(r'else\s*if\s*\(', low)
            if m:
                close = match_paren(s, m.end() - 1)
                stack.pop()
                node = stack[-1][-1]
                node[2].append((expr(s[m.end():close]), []))
                stack.append(node[2][-1][1])
                continue
            if low == 'else' or re.match(r'else\s*where$', low):
                stack.pop()
                node = stack[-1][-1]
                if node[0] == 'where':
                    stack.append(node[4])
                else:
                    node[2].append((('bool', True), []))
                    stack.append(node[2][-1][1])
                continue
            stack[-1].append(simple(n, s))
        except FortranError as e:
            raise FortranError('line %d: %s' % (n, e))
    if cur is not None:
        raise FortranError('subroutine %s is not ended' % cur.name)
    return subs


def match_paren(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == '(':
            d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0:
                return j
    raise FortranError('unbalanced parentheses')


def simple(n, s):
    low = s.lower()
    if low == 'return':
        return ('return', n)
    m = re.match(r'call\s+(\w+)\s*\(', low)
    if m:
        p = P(lex(s[m.end():]))
        return ('call', n, m.group(1), p.args())
    p = P(lex(s))
    lhs = p.prim()
    p.expect('=')
    rhs = p.expr()
    if not p.done():
        raise FortranError('trailing text %r in %r' % (p.peek(), s))
    if lhs[0] not in ('var', 'ref'):
        raise FortranError('assignment to %r' % (lhs,))
    return ('assign', n, lhs, rhs)


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        if ch == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out if x.strip()]


def declare(sub, s):
    m = re.match(r'(real|integer|double\s+precision|logical)\s*(\*\s*\d+|\([^)]*\))?\s*(.*)$', s, re.I)
    typ = m.group(1).lower()
    typ = 'integer' if typ == 'integer' else 'logical' if typ == 'logical' else 'real'
    kind = re.sub(r'\D', '', m.group(2) or '') or '4'
    rest = m.group(3)
    attrs, names = '', rest
    if '::' in rest:
        attrs, names = rest.split('::', 1)
    attrs = split_top(attrs.lstrip(','))
    shape, intent, param = None, None, False
    for a in attrs:
        al = a.lower().replace(' ', '')
        if al.startswith('dimension('):
            shape = [expr(x) for x in split_top(a[a.index('(') + 1:a.rindex(')')])]
        elif al.startswith('intent('):
            intent = al[7:-1]
        elif al == 'parameter':
            param = True
        elif al in ('save', 'target', 'optional'):
            pass
        else:
            raise FortranError('attribute %r' % a)
    for x in split_top(names):
        init = None
        if '=' in x:
            x, init = x.split('=', 1)
            init = expr(init)
        m = re.match(r'(\w+)\s*(?:\((.*)\))?\s*$', x.strip())
        if not m:
            raise FortranError('declaration %r' % x)
        sh = [expr(y) for y in split_top(m.group(2))] if m.group(2) else shape
        nm = m.group(1).lower()
        if nm in sub.decl:
            raise FortranError('%s declared twice' % nm)
        sub.decl[nm] = dict(type=typ, kind=kind, shape=sh, intent=intent, init=init, param=param)


# ---------------------------------------------------------------- execution
class Arr:
    def __init__(self, name, shape, isint=False):
        self.name, self.shape, self.isint = name, tuple(shape), isint
        self.d = {}

    def fill_from(self, a):
        import numpy as np
        a = np.asarray(a, dtype=object)
        if a.size != _size(self.shape):
            raise FortranError('argument %s: %d elements for shape %s' % (self.name, a.size, self.shape))
        a = a.reshape(self.shape)
        for i in np.ndindex(*self.shape):
            self.d[tuple(k + 1 for k in i)] = a[i]


    def copy(self):
        a = Arr(self.name, self.shape, self.isint)
        a.d = dict(self.d)
        return a


class Overlay:
    """variables of one thread: its own ones over the shared ones"""

    def __init__(self, own, base):
        self.own, self.base = own, base

    def __contains__(self, k): return k in self.own or k in self.base

    def __getitem__(self, k): return self.own[k] if k in self.own else self.base[k]

    def get(self, k, d=None): return self[k] if k in self else d

    def __setitem__(self, k, v):
        (self.own if k in self.own else self.base)[k] = v


def _size(sh):
    n = 1
    for x in sh:
        n *= x
    return n


class Sec:
    """array value: shape and elements in row-major order of its own index space"""
    __slots__ = ('shape', 'v')

    def __init__(self, shape, v):
        self.shape, self.v = tuple(shape), v


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def arith(op, a, b):
    if op == '/' and isint(a) and isint(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if op == '**' and isint(a) and isint(b):
        if b >= 0:
            return a ** b
        return 0 if abs(a) != 1 else a ** b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and op != '**':
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: Fraction(a) / Fraction(b)}[op]()
        return r if isint(a) and isint(b) else Fraction(r)
    A, B = core.term(a), core.term(b)
    if op == '**':
        return SymReal(core.pow_term(A, B))
    if op == '/':
        return SymReal(A) / SymReal(B)
    return SymReal({'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B}[op]())


def neg(a):
    return -a if isinstance(a, (int, Fraction)) else SymReal(-core.term(a))


def compare(o, a, b):
    A, B = core.term(a), core.term(b)
    t = {'eq': lambda: A == B, 'ne': lambda: A != B, 'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B,
         'ge': lambda: A >= B}[o]()
    return core.mkbool(t)


ONE_ARG = {'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
           'atan': 'arctan', 'acos': 'arccos', 'dexp': 'exp', 'dlog': 'log', 'dlog10': 'log10', 'dsqrt': 'sqrt',
           'dsin': 'sin', 'dcos': 'cos', 'dabs': 'abs', 'abs': 'abs', 'dble': 'dble', 'real': 'dble', 'floor': 'floor',
           'int': 'int', 'ceiling': 'ceiling'}


class Task:
    __slots__ = ('label', 'r', 'w')

    def __init__(self, label):
        self.label, self.r, self.w = label, set(), set()


class Interp:
    def __init__(self, subs, const=None, pi4=None, schedule=None):
        self.subs, self.const, self.pi4 = subs, const or {}, pi4
        self.schedule = schedule   # None: tasks of a region in program order; else an adversarial order
        self.regions = []          # (list of Task, private names)
        self.task = None
        self.uninit_reads = []
        self.steps = 0

    def fresh(self, name):
        return core.real(core.ctx().fresh('uninit_' + name)) if hasattr(core, 'real') else SymReal(z3.Real(core.ctx().fresh('uninit_' + name)))

    def run(self, name, args):
        sub = self.subs.get(name.lower())
        if sub is None:
            raise FortranError('no subroutine %s' % name)
        env = {}
        self.env, self.sub = env, sub
        args = {k.lower(): v for k, v in args.items()}
        for a in sub.args:
            if a not in sub.decl:
                raise FortranError('dummy argument %s has no declaration' % a)
        for pas in (0, 1):                 # parameters first
            for n, d in sub.decl.items():
                if n in env or (pas == 0 and not d['param']):
                    continue
                if d['param']:
                    env[n] = self.conv(self.ev(d['init']), d['type'])
                    continue
                if d['shape']:
                    sh = [self.ev(x) for x in d['shape']]
                    if not all(isint(x) for x in sh):
                        raise FortranError('shape of %s' % n)
                    arr = Arr(n, sh, d['type'] == 'integer')
                    if n in args:
                        arr.fill_from(args[n])
                    elif n in sub.args and d['intent'] != 'out':
                        raise FortranError('argument %s not supplied' % n)
                    env[n] = arr
                else:
                    if n in args:
                        env[n] = args[n]
                    elif n in sub.args and d['intent'] != 'out':
                        raise FortranError('argument %s not supplied' % n)
                    else:
                        env[n] = None
                    if d['init'] is not None:
                        env[n] = self.ev(d['init'])
        unknown = set(args) - set(sub.args)
        if unknown:
            raise FortranError('unknown arguments %s' % sorted(unknown))
        self.region = None
        self.block(sub.body)
        if self.region is not None:
            raise FortranError('parallel region not ended')
        out = {}
        for n in sub.args:
            if sub.decl[n]['intent'] == 'out':
                v = env[n]
                if isinstance(v, Arr):
                    import numpy as np
                    a = np.empty(v.shape, dtype=object)
                    for i in np.ndindex(*v.shape):
                        k = tuple(x + 1 for x in i)
                        a[i] = v.d[k] if k in v.d else self.fresh(n)
                    out[n] = a
                else:
                    out[n] = self.fresh(n) if v is None else v
        return out

    def conv(self, v, typ):
        if typ == 'integer':
            return v if not isinstance(v, Fraction) else int(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return Fraction(v)
        return v

    # -- statements
    def block(self, body):
        i = 0
        while i < len(body):
            st = body[i]
            k = st[0]
            if k == 'omp':
                if self.schedule and body[i][2].startswith('parallel') and not body[i][2].startswith('parallel do'):
                    i = self.scheduled_region(body, i)
                    continue
                i = self.omp(body, i)
                continue
            if self.region is not None and self.region['serial'] and self.task is None:
                # statement of a parallel region outside any work-sharing construct: every thread executes it
                self.region['every'].append(st[1])
            self.stmt(st)
            i += 1

    def omp(self, body, i):
        t = body[i][2]
        w = t.replace('(', ' (').split()
        head = ' '.join(x for x in w if not x.startswith('('))
        if t.startswith('parallel do'):
            priv = set()
            for m in re.finditer(r'\b(private|firstprivate|lastprivate)\s*\(([^)]*)\)', t):
                priv |= {x.strip() for x in m.group(2).split(',')}
            red = set()
            for m in re.finditer(r'\breduction\s*\(([^)]*)\)', t):
                red |= {x.strip() for x in m.group(1).split(':', 1)[1].split(',')}
            if i + 1 >= len(body) or body[i + 1][0] != 'do':
                raise FortranError('PARALLEL DO without a loop')
            self.parallel_do(body[i + 1], priv, red)
            return i + 2
        if t.startswith('parallel'):
            priv = set()
            for m in re.finditer(r'\b(private|firstprivate)\s*\(([^)]*)\)', t):
                priv |= {x.strip() for x in m.group(2).split(',')}
            if self.region is not None:
                raise FortranError('nested parallel region')
            self.region = dict(tasks=[], priv=priv, serial=True, every=[], nowait=True)
        elif t.startswith('end parallel do'):
            pass
        elif t.startswith('end parallel'):
            if self.region is None or self.task is not None:
                raise FortranError('END PARALLEL does not match')
            self.regions.append(self.region)
            self.region = None
        elif t.startswith('end single'):
            if self.task is None:
                raise FortranError('END SINGLE does not match')
            self.region['tasks'].append(self.task)
            if 'nowait' not in t:
                self.region['tasks'].append(None)      # barrier
            self.task = None
        elif t.startswith('single'):
            if self.region is None or self.task is not None:
                raise FortranError('SINGLE outside a parallel region or nested')
            self.task = Task('single at line %d' % body[i][1])
        elif t.startswith('barrier'):
            if self.region is not None:
                self.region['tasks'].append(None)
        elif t.startswith(('do', 'end do', 'sections', 'section', 'end sections', 'critical', 'atomic')):
            core.ctx().die('OpenMP directive %r is not modelled' % t)
        else:
            core.ctx().die('OpenMP directive %r is not modelled' % t)
        return i + 1

    def parallel_do(self, st, priv, red):
        _, n, var, lo, hi, step, b = st
        lo, hi, step = self.ev(lo), self.ev(hi), self.ev(step)
        priv = set(priv) | {var}
        if self.schedule:
            tasks = []
            for v in range(lo, hi + (1 if step > 0 else -1), step):
                tasks.append((b, dict(((p, Arr(p, self.env[p].shape, self.env[p].isint)) if isinstance(self.env.get(p), Arr) else (p, None)) for p in priv)))
                tasks[-1][1][var] = v
            self.concurrent(tasks, red)
            return
        region = dict(tasks=[], priv=priv | red, serial=False, every=[], nowait=True)
        outer = dict((p, self.env.get(p)) for p in priv)
        for v in range(lo, hi + (1 if step > 0 else -1), step):
            for p in priv:
                if isinstance(self.env.get(p), Arr):
                    self.env[p] = Arr(p, self.env[p].shape, self.env[p].isint)
                else:
                    self.env[p] = None
            self.env[var] = v
            self.task = Task('%s=%d' % (var, v))
            self.block(b)
            region['tasks'].append(self.task)
            self.task = None
        self.env.update(outer)
        self.regions.append(region)

    def scheduled_region(self, body, i):
        """PARALLEL region with SINGLE blocks: run the blocks of every barrier-free group concurrently"""
        priv = set()
        for m in re.finditer(r'\b(private|firstprivate)\s*\(([^)]*)\)', body[i][2]):
            priv |= {x.strip() for x in m.group(2).split(',')}
        own = lambda: dict(((p, Arr(p, self.env[p].shape, self.env[p].isint)) if isinstance(self.env.get(p), Arr) else (p, None)) for p in priv)
        group, cur, i = [], None, i + 1
        while True:
            if i >= len(body):
                raise FortranError('parallel region not ended')
            st = body[i]
            i += 1
            if st[0] == 'omp':
                t = st[2]
                if t.startswith('end parallel'):
                    break
                if t.startswith('end single'):
                    group.append((cur, own()))
                    cur = None
                    if 'nowait' not in t:
                        self.concurrent(group, set())
                        group = []
                elif t.startswith('single'):
                    cur = []
                elif t.startswith('barrier'):
                    self.concurrent(group, set())
                    group = []
                else:
                    core.ctx().die('OpenMP directive %r is not modelled' % t)
            elif cur is None:
                group += [([st], own()), ([st], own())]      # every thread executes it: two threads here
            else:
                cur.append(st)
        self.concurrent(group, set())
        return i

    def steps_of(self, body):
        for st in body:
            if st[0] == 'do':
                _, n, var, lo, hi, step, b = st
                lo, hi, step = self.ev(lo), self.ev(hi), self.ev(step)
                for v in range(lo, hi + (1 if step > 0 else -1), step):
                    self.put(var, (), v)
                    yield
                    yield from self.steps_of(b)
            elif st[0] == 'if':
                for cond, b in st[2]:
                    if bool(self.ev(cond)):
                        yield from self.steps_of(b)
                        break
            else:
                self.stmt(st)
                yield

    def concurrent(self, tasks, red):
        shared = self.env
        live = []
        for b, own in tasks:
            own.update({r: Fraction(0) for r in red})
            base = shared
            if self.schedule == 'snapshot':
                base = {k: (v.copy() if isinstance(v, Arr) else v) for k, v in shared.items()}
            live.append([Overlay(own, base), None, Task('')])
        for t, (b, own) in zip(live, tasks):
            t[1] = self.steps_of(b)
        order = list(live)
        if self.schedule == 'reverse':
            order.reverse()
        if self.schedule == 'lockstep':
            todo = list(order)
            while todo:
                for t in list(todo):
                    self.env = t[0]
                    try:
                        next(t[1])
                    except StopIteration:
                        todo.remove(t)
        else:
            for t in order:
                self.env, self.task = t[0], t[2]
                for _ in t[1]:
                    pass
                self.task = None
        self.env = shared
        if self.schedule == 'snapshot':
            for t in live:
                for n, idx in t[2].w:
                    if n in t[0].own:
                        continue
                    if idx == ():
                        shared[n] = t[0].base[n]
                    else:
                        shared[n].d[idx] = t[0].base[n].d[idx]
        for r in red:
            for t in live:
                shared[r] = arith('+', shared[r], t[0].own[r])

    def stmt(self, st):
        self.steps += 1
        k = st[0]
        if k == 'assign':
            try:
                self.assign(st[2], self.ev(st[3]))
            except FortranError as e:
                raise FortranError('line %d: %s' % (st[1], e)) if not str(e).startswith('line') else e
        elif k == 'do':
            _, n, var, lo, hi, step, b = st
            lo, hi, step = self.ev(lo), self.ev(hi), self.ev(step)
            if not (isint(lo) and isint(hi) and isint(step)):
                core.ctx().die('DO with symbolic bounds')
            for v in range(lo, hi + (1 if step > 0 else -1), step):
                self.put(var, (), v)
                self.block(b)
        elif k == 'if':
            for cond, b in st[2]:
                if bool(self.ev(cond)):
                    self.block(b)
                    break
        elif k == 'where':
            _, n, mask, a, b = st
            mk = self.ev(mask)
            if not isinstance(mk, Sec):
                raise FortranError('line %d: WHERE mask is not an array' % n)
            for stmts, flip in ((a, False), (b, True)):
                for s in stmts:
                    cur = self.ev(s[2])
                    new = self.bc(self.ev(s[3]), cur.shape)
                    if mk.shape != cur.shape:
                        raise FortranError('line %d: WHERE shapes differ' % n)
                    out = []
                    for m, c, x in zip(mk.v, cur.v, new.v):
                        m = core.boolterm(m)
                        if flip:
                            m = z3.Not(m)
                        m = z3.simplify(m)
                        out.append(x if z3.is_true(m) else c if z3.is_false(m) else
                                   SymReal(z3.If(m, core.term(x), core.term(c))))
                    self.assign(s[2], Sec(cur.shape, out))
        elif k == 'return':
            core.ctx().die('RETURN is not modelled')
        elif k == 'call':
            core.ctx().die('CALL is not modelled')

    def bc(self, v, shape):
        if isinstance(v, Sec):
            if v.shape != tuple(shape):
                raise FortranError('shapes %s and %s differ' % (v.shape, tuple(shape)))
            return v
        return Sec(shape, [v] * _size(shape))

    # -- access
    def get(self, name, idx):
        if name not in self.env:
            raise FortranError('%s has no declaration' % name)
        o = self.env[name]
        if self.task is not None:
            self.task.r.add((name, idx))
        if isinstance(o, Arr):
            if any(not 1 <= k <= n for k, n in zip(idx, o.shape)):
                raise FortranError('%s%s outside %s' % (name, idx, o.shape))
            if idx not in o.d:
                self.uninit_reads.append((name, idx))
                o.d[idx] = self.fresh(name)
            return o.d[idx]
        if o is None:
            self.uninit_reads.append((name, ()))
            o = self.env[name] = self.fresh(name)
        return o

    def put(self, name, idx, v):
        if name not in self.env:
            raise FortranError('%s has no declaration' % name)
        o = self.env[name]
        d = self.sub.decl[name]
        if d['param'] or d['intent'] == 'in':
            raise FortranError('assignment to %s, which is not writable' % name)
        if self.task is not None:
            self.task.w.add((name, idx))
        if d['type'] == 'integer':
            if isinstance(v, Fraction):
                v = int(v)
        elif isint(v):
            v = Fraction(v)
        if isinstance(o, Arr):
            if any(not 1 <= k <= n for k, n in zip(idx, o.shape)):
                raise FortranError('%s%s outside %s' % (name, idx, o.shape))
            o.d[idx] = v
        else:
            self.env[name] = v

    def section(self, name, subs):
        o = self.env.get(name)
        if not isinstance(o, Arr):
            raise FortranError('%s is not an array' % name)
        if len(subs) != len(o.shape):
            raise FortranError('%s has rank %d' % (name, len(o.shape)))
        axes, keep = [], []
        for s, n in zip(subs, o.shape):
            if s[0] == 'slice':
                lo = 1 if s[1] is None else self.ev(s[1])
                hi = n if s[2] is None else self.ev(s[2])
                axes.append(list(range(lo, hi + 1)))
                keep.append(len(axes[-1]))
            else:
                v = self.ev(s)
                if isinstance(v, Sec):
                    axes.append(list(v.v))
                    keep.append(len(v.v))
                    continue
                if not isint(v):
                    if isinstance(v, Fraction) and v.denominator == 1:
                        v = int(v)
                    else:
                        core.ctx().die('symbolic subscript of %s' % name)
                axes.append([v])
                keep.append(None)
        idx = list(itertools.product(*axes))
        return [k for k in keep if k is not None], idx, all(k is None for k in keep)

    def assign(self, lhs, v):
        if lhs[0] == 'var':
            o = self.env.get(lhs[1])
            if isinstance(o, Arr):
                sh, idx, scalar = list(o.shape), list(itertools.product(*[range(1, n + 1) for n in o.shape])), False
            else:
                if isinstance(v, Sec):
                    raise FortranError('array assigned to scalar %s' % lhs[1])
                self.put(lhs[1], (), v)
                return
        else:
            sh, idx, scalar = self.section(lhs[1], lhs[2])
        if scalar:
            if isinstance(v, Sec):
                raise FortranError('array assigned to an element of %s' % lhs[1])
            self.put(lhs[1], idx[0], v)
            return
        v = self.bc(v, sh)
        for i, x in zip(idx, v.v):
            self.put(lhs[1], i, x)

    # -- expressions
    def ev(self, e):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'sym':
            return core.ctx().tokens[e[1]]
        if k == 'par':
            return self.ev(e[1])
        if k == 'bool':
            return e[1]
        if k == 'var':
            o = self.env.get(e[1])
            if isinstance(o, Arr):
                idx = list(itertools.product(*[range(1, n + 1) for n in o.shape]))
                return Sec(o.shape, [self.get(e[1], i) for i in idx])
            return self.get(e[1], ())
        if k == 'arr':
            xs = [self.ev(x) for x in e[1]]
            return Sec((len(xs),), xs)
        if k == 'neg':
            return self.map1(neg, self.ev(e[1]))
        if k in ('+', '-', '*', '/', '**'):
            return self.map2(lambda a, b: arith(k, a, b), self.ev(e[1]), self.ev(e[2]))
        if k == 'rel':
            return self.map2(lambda a, b: compare(e[1], a, b), self.ev(e[2]), self.ev(e[3]))
        if k in ('and', 'or'):
            f = z3.And if k == 'and' else z3.Or
            return self.map2(lambda a, b: core.mkbool(f(core.boolterm(a), core.boolterm(b))), self.ev(e[1]), self.ev(e[2]))
        if k == 'not':
            return self.map1(lambda a: core.mkbool(z3.Not(core.boolterm(a))), self.ev(e[1]))
        if k == 'ref':
            if isinstance(self.env.get(e[1]), Arr):
                sh, idx, scalar = self.section(e[1], e[2])
                if scalar:
                    return self.get(e[1], idx[0])
                return Sec(sh, [self.get(e[1], i) for i in idx])
            if e[1] in self.env:
                raise FortranError('%s is not an array' % e[1])
            return self.intrinsic(e[1], e[2])
        raise FortranError('expression %r' % (e,))

    def map1(self, f, a):
        return Sec(a.shape, [f(x) for x in a.v]) if isinstance(a, Sec) else f(a)

    def map2(self, f, a, b):
        if isinstance(a, Sec) or isinstance(b, Sec):
            sh = a.shape if isinstance(a, Sec) else b.shape
            a, b = self.bc(a, sh), self.bc(b, sh)
            return Sec(sh, [f(x, y) for x, y in zip(a.v, b.v)])
        return f(a, b)

    def intrinsic(self, n, args):
        kw = {a[1]: self.ev(a[2]) for a in args if a[0] == 'kw'}
        pos = [self.ev(a) for a in args if a[0] != 'kw']
        if n == 'sum':
            a = pos[0]
            dim = kw.get('dim', pos[1] if len(pos) > 1 else None)
            if not isinstance(a, Sec):
                raise FortranError('SUM of a scalar')
            if dim is None or len(a.shape) == 1:
                t = Fraction(0)
                for x in a.v:
                    t = arith('+', t, x)
                return t
            import numpy as np
            m = np.empty(_size(a.shape), dtype=object)
            m[:] = a.v
            m = m.reshape(a.shape)
            ax = dim - 1
            res = []
            osh = [s for j, s in enumerate(a.shape) if j != ax]
            for i in np.ndindex(*osh):
                t = Fraction(0)
                for q in range(a.shape[ax]):
                    t = arith('+', t, m[i[:ax] + (q,) + i[ax:]])
                res.append(t)
            return Sec(osh, res)
        if n in ('max', 'min', 'dmax1', 'dmin1'):
            def f(a, b):
                A, B = core.term(a), core.term(b)
                r = z3.simplify(z3.If(A >= B if 'max' in n else A <= B, A, B))
                return SymReal(r)
            r = pos[0]
            for x in pos[1:]:
                r = self.map2(f, r, x)
            return r
        if n == 'mod' and all(isint(x) for x in pos):
            return pos[0] - pos[1] * arith('/', pos[0], pos[1])
        if n in ONE_ARG and len(pos) == 1:
            return self.map1(lambda x: self.fun(n, x), pos[0])
        if n in self.const:
            return self.const[n]
        raise FortranError('%s is neither an array nor a known function' % n)

    def fun(self, n, x):
        f = ONE_ARG[n]
        if f == 'dble':
            return Fraction(x) if isint(x) else x
        if f == 'abs':
            return abs(x) if isinstance(x, (int, Fraction)) else abs(SymReal(core.term(x)))
        if f == 'arctan' and isinstance(x, Fraction) and x == 1:
            return self.pi4 if self.pi4 is not None else SymReal(z3.Real('PI4'))
        if f in ('floor', 'int', 'ceiling') and isinstance(x, (int, Fraction)):
            import math
            return {'floor': math.floor, 'int': int, 'ceiling': math.ceil}[f](x)
        s = SymReal(core.term(x))
        if f == 'floor':
            return SymReal(z3.ToReal(core.floor_term(s.t)))
        if f == 'int':
            return SymReal(z3.ToReal(core.trunc_term(s.t)))
        if f == 'ceiling':
            return SymReal(-z3.ToReal(core.floor_term(-s.t)))
        if isint(x):
            raise FortranError('%s of an INTEGER' % n)
        return core.mathfun(f)(s if core.const_value(s.t) is None else s)


def races(region):
    """pairs of concurrent tasks of a region that access the same shared element, one of them writing"""
    out = []
    groups, cur = [], []
    for t in region['tasks']:
        if t is None:
            groups.append(cur)
            cur = []
        else:
            cur.append(t)
    groups.append(cur)
    for g in groups:
        for a, b in itertools.combinations(g, 2):
            for l in (a.w & (b.w | b.r)) | (b.w & a.r):
                if l[0] not in region['priv']:
                    out.append((a.label, b.label, l))
    return out
