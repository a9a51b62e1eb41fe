"""Symbolic strings: fixed length (per path), each character concrete or a z3 Int with a finite domain.

Implements the str methods and the regular-expression engine that text-handling code in the
repository uses; every test on a symbolic character forks through the solver.
"""
import re as _re
import string
import types
from fractions import Fraction
try:
    import re._parser as sre_parse
    import re._constants as K
except ImportError:
    import sre_parse
    import sre_constants as K
import z3
from . import core
from .core import SymReal, SymInt, SymBool, mkbool

DIGITS = frozenset(map(ord, '0123456789'))
SPACE = frozenset(map(ord, ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'))
UPPER = frozenset(map(ord, string.ascii_uppercase))
LOWER = frozenset(map(ord, string.ascii_lowercase))
ALPHA = UPPER | LOWER
WORD = ALPHA | DIGITS | {ord('_')}


class SymChar:
    __slots__ = ('v', 'base', 'name')

    def __init__(self, name, domain):
        self.name = name
        self.v = z3.Int(name)
        self.base = frozenset(ord(x) if isinstance(x, str) else x for x in domain)

    def dom(self):
        return core.ctx().notes.setdefault('dom', {}).get(self.name, self.base)

    def setdom(self, d):
        core.ctx().notes.setdefault('dom', {})[self.name] = d


def set_term(v, codes):
    codes = sorted(codes)
    parts, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        parts.append(v == codes[i] if i == j else z3.And(v >= codes[i], v <= codes[j]))
        i = j + 1
    return z3.Or(*parts) if len(parts) != 1 else parts[0]


def new_char(name, domain):
    c = SymChar(name, domain)
    core.ctx().fact(set_term(c.v, c.base))
    return c


def in_set(ch, codes):
    """is the character in the set? forks if undecided"""
    if isinstance(ch, int):
        return ch in codes
    d = ch.dom()
    yes = d & codes
    if len(yes) == len(d):
        return True
    if not yes:
        return False
    r = core.ctx().branch(set_term(ch.v, yes))
    ch.setdom(yes if r else d - yes)
    return r


def ch_eq_term(a, b):
    """True/False/z3 term"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        d = a.dom()
        if b not in d:
            return False
        if len(d) == 1:
            return True
        return a.v == b
    if a is b or a.name == b.name:
        return True
    if not (a.dom() & b.dom()):
        return False
    return a.v == b.v


def ch_is(ch, code):
    if isinstance(ch, int):
        return ch == code
    return in_set(ch, frozenset((code,)))


class SymStr:
    __slots__ = ('e', 'c')

    def __init__(self, elems):
        if isinstance(elems, str):
            self.e = tuple(map(ord, elems))
            self.c = str(elems)
        else:
            self.e = tuple(elems)
            self.c = ''.join(map(chr, self.e)) if all(isinstance(x, int) for x in self.e) else None

    # -- basics
    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __hash__(self):
        return 1234567

    def __iter__(self):
        return (SymStr((x,)) for x in self.e)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr(self.e[i])
        return SymStr((self.e[i.__index__()],))

    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymStr(self.e + o.e)

    def __radd__(self, o):
        o = lift(o)
        return NotImplemented if o is None else SymStr(o.e + self.e)

    def __mul__(self, n):
        return SymStr(self.e * int(n))
    __rmul__ = __mul__

    def eq_term(self, o):
        if len(self.e) != len(o.e):
            return False
        if self.c is not None and o.c is not None:
            return self.c == o.c
        conj = []
        for a, b in zip(self.e, o.e):
            t = ch_eq_term(a, b)
            if t is False:
                return False
            if t is not True:
                conj.append(t)
        if not conj:
            return True
        return z3.And(*conj) if len(conj) > 1 else conj[0]

    def __eq__(self, o):
        o = lift(o)
        if o is None:
            return False
        t = self.eq_term(o)
        return t if isinstance(t, bool) else mkbool(t)

    def __ne__(self, o):
        o = lift(o)
        if o is None:
            return True
        t = self.eq_term(o)
        return (not t) if isinstance(t, bool) else mkbool(z3.Not(t))

    def _lt(self, o, strict):
        o = lift(o)
        for a, b in zip(self.e, o.e):
            t = ch_eq_term(a, b)
            if t is True or (t is not False and core.ctx().branch(t)):
                continue
            av = a if isinstance(a, int) else a.v
            bv = b if isinstance(b, int) else b.v
            r = av < bv
            return r if isinstance(r, bool) else core.ctx().branch(r)
        return len(self.e) < len(o.e) if strict else len(self.e) <= len(o.e)

    def __lt__(self, o): return self._lt(o, True)
    def __le__(self, o): return self._lt(o, False)
    def __gt__(self, o): return not self._lt(o, False)
    def __ge__(self, o): return not self._lt(o, True)

    def __str__(self):
        if self.c is None:
            core.ctx().die('symbolic string reaches a C boundary (str())')
        return self.c

    def __repr__(self):
        return repr(self.c) if self.c is not None else 'SymStr<%s>' % ''.join(
            chr(x) if isinstance(x, int) else '?' for x in self.e)

    def __format__(self, spec):
        if self.c is None:
            core.ctx().die('symbolic string in a native format')
        return format(self.c, spec)

    def __fspath__(self):
        return str(self)

    def __contains__(self, sub):
        return self.find(sub) != -1

    # -- searching
    def _at(self, sub, i):
        n = len(sub.e)
        t = SymStr(self.e[i:i + n]).eq_term(sub)
        if isinstance(t, bool):
            return t
        # single undecided characters refine domains
        for a, b in zip(self.e[i:i + n], sub.e):
            if isinstance(b, int):
                if not ch_is(a, b):
                    return False
            elif isinstance(a, int):
                if not ch_is(b, a):
                    return False
            else:
                q = ch_eq_term(a, b)
                if q is False or (q is not True and not core.ctx().branch(q)):
                    return False
        return True

    def _range(self, start, end):
        n = len(self.e)
        s, e, _ = slice(start, end).indices(n)
        return s, e

    def find(self, sub, start=None, end=None):
        sub = lift(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub.e) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = lift(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub.e), s - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = lift(sub)
        s, e = self._range(start, end)
        n, i = 0, s
        while i <= e - len(sub.e):
            if self._at(sub, i):
                n += 1
                i += max(1, len(sub.e))
            else:
                i += 1
        return n

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x, *a) for x in p)
        p = lift(p)
        if a:
            return SymStr(self.e[a[0]:]).startswith(p)
        return len(p.e) <= len(self.e) and self._at(p, 0)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = lift(p)
        return len(p.e) <= len(self.e) and self._at(p, len(self.e) - len(p.e))

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur, i, n = [], [], 0, len(self.e)
            while i < n:
                if in_set(self.e[i], SPACE):
                    if cur:
                        out.append(SymStr(cur))
                        cur = []
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            break
                    i += 1
                else:
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        break
                    cur.append(self.e[i])
                    i += 1
            if cur:
                out.append(SymStr(cur))
            elif i < n:
                rest = SymStr(self.e[i:]).lstrip()
                if len(rest):
                    out.append(rest)
            return out
        sep = lift(sep)
        if not len(sep):
            raise ValueError('empty separator')
        out, start, i, n, k = [], 0, 0, len(self.e), len(sep.e)
        while i <= n - k:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._at(sep, i):
                out.append(SymStr(self.e[start:i]))
                i += k
                start = i
            else:
                i += 1
        out.append(SymStr(self.e[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        r = SymStr(self.e[::-1]).split(None if sep is None else SymStr(lift(sep).e[::-1]), maxsplit)
        return [SymStr(x.e[::-1]) for x in r][::-1]

    def partition(self, sep):
        sep = lift(sep)
        i = self.find(sep)
        if i < 0:
            return (self, SymStr(''), SymStr(''))
        return (SymStr(self.e[:i]), sep, SymStr(self.e[i + len(sep):]))

    def rpartition(self, sep):
        sep = lift(sep)
        i = self.rfind(sep)
        if i < 0:
            return (SymStr(''), SymStr(''), self)
        return (SymStr(self.e[:i]), sep, SymStr(self.e[i + len(sep):]))

    def splitlines(self, keepends=False):
        out, cur = [], []
        for x in self.e:
            if ch_is(x, 10):
                out.append(SymStr(cur + ([x] if keepends else [])))
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(SymStr(cur))
        return out

    def _set(self, chars):
        if chars is None:
            return SPACE
        chars = lift(chars)
        if chars.c is None:
            core.ctx().die('strip with symbolic character set')
        return frozenset(map(ord, chars.c))

    def lstrip(self, chars=None):
        s, i = self._set(chars), 0
        while i < len(self.e) and in_set(self.e[i], s):
            i += 1
        return SymStr(self.e[i:])

    def rstrip(self, chars=None):
        s, i = self._set(chars), len(self.e)
        while i > 0 and in_set(self.e[i - 1], s):
            i -= 1
        return SymStr(self.e[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def removeprefix(self, p):
        return SymStr(self.e[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return SymStr(self.e[:len(self.e) - len(p)]) if self.endswith(p) else self

    def replace(self, old, new, count=-1):
        old, new = lift(old), lift(new)
        if self.c is not None and old.c is not None and new.c is not None:
            return SymStr(self.c.replace(old.c, new.c, count))
        if not len(old):
            core.ctx().die('replace of empty string')
        out, i, n, k = [], 0, len(self.e), len(old.e)
        while i < n:
            if count != 0 and i <= n - k and self._at(old, i):
                out.extend(new.e)
                i += k
                count -= 1
            else:
                out.append(self.e[i])
                i += 1
        return SymStr(out)

    def translate(self, table):
        out = []
        for x in self.e:
            if isinstance(x, int):
                r = table.get(x, x) if hasattr(table, 'get') else x
                if r is None:
                    continue
                out.extend([r] if isinstance(r, int) else lift(r).e)
            else:
                for k, r in table.items():
                    if isinstance(k, int) and k in x.dom() and in_set(x, frozenset([k])):
                        out.extend(() if r is None else [r] if isinstance(r, int) else lift(r).e)
                        break
                else:
                    out.append(x)
        return SymStr(out)

    @staticmethod
    def maketrans(a, b=None, gone=''):
        if b is None:
            return {(k if isinstance(k, int) else ord(str(k))): v for k, v in a.items()}
        t = {ord(p): ord(q) for p, q in zip(str(a), str(b))}
        t.update({ord(p): None for p in str(gone)})
        return t

    def join(self, it):
        out = []
        for k, x in enumerate(it):
            if k:
                out.extend(self.e)
            x = lift(x)
            if x is None:
                raise TypeError('sequence item: expected str')
            out.extend(x.e)
        return SymStr(out)

    # -- classes
    def _all(self, s):
        return len(self.e) > 0 and all(in_set(x, s) for x in self.e)

    def isdigit(self): return self._all(DIGITS)
    isdecimal = isdigit
    isnumeric = isdigit
    def isalpha(self): return self._all(ALPHA)
    def isalnum(self): return self._all(ALPHA | DIGITS)
    def isspace(self): return self._all(SPACE)

    def isupper(self):
        return any(in_set(x, UPPER) for x in self.e) and not any(in_set(x, LOWER) for x in self.e)

    def islower(self):
        return any(in_set(x, LOWER) for x in self.e) and not any(in_set(x, UPPER) for x in self.e)

    def isidentifier(self):
        return len(self.e) > 0 and in_set(self.e[0], ALPHA | {95}) and self._all(WORD)

    def _case(self, s, delta):
        out = []
        for x in self.e:
            if in_set(x, s):
                if isinstance(x, int):
                    x += delta
                else:
                    y = new_char('%s^%d' % (x.name, delta), {q + delta for q in x.dom()})
                    core.ctx().fact(y.v == x.v + delta)
                    x = y
            out.append(x)
        return SymStr(out)

    def upper(self): return self._case(LOWER, -32)
    def lower(self): return self._case(UPPER, 32)
    casefold = lower

    def swapcase(self):
        return SymStr([q for x in self.e for q in (SymStr([x]).lower() if in_set(x, UPPER) else SymStr([x]).upper()).e])

    def capitalize(self):
        return SymStr(self.e[:1]).upper() + SymStr(self.e[1:]).lower()

    def title(self):
        out, inside = [], False
        for x in self.e:
            out.extend((SymStr([x]).lower() if inside else SymStr([x]).upper()).e)
            inside = in_set(x, ALPHA)
        return SymStr(out)

    def center(self, n, ch=' '):
        d = n - len(self.e)
        if d <= 0:
            return self
        k = d // 2 + (d & n & 1)
        return SymStr(lift(ch).e * k) + self + SymStr(lift(ch).e * (d - k))

    def encode(self, *a):
        return str(self).encode(*a)

    # -- formatting
    def __mod__(self, args):
        f = str(self)
        if not isinstance(args, tuple):
            if isinstance(args, dict):
                core.ctx().die('dict formatting')
            args = (args,)
        out, k, i = [], 0, 0
        for m in _re.finditer(r'%(%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])', f):
            out.extend(map(ord, f[i:m.start()]))
            i = m.end()
            spec = m.group(1)
            if spec == '%':
                out.append(37)
                continue
            a = args[k]
            k += 1
            out.extend(fmt_elems('%' + spec, a))
        out.extend(map(ord, f[i:]))
        if k != len(args):
            raise TypeError('not all arguments converted during string formatting')
        return SymStr(out)

    def format(self, *args, **kw):
        f = str(self)
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(f):
            out.extend(map(ord, lit))
            if field is None:
                continue
            if field == '':
                a = args[auto]
                auto += 1
            elif field.isdigit():
                a = args[int(field)]
            elif field in kw:
                a = kw[field]
            else:
                core.ctx().die('format field %r' % field)
            out.extend(format_elems(a, spec or ''))
        return SymStr(out)

    def zfill(self, n):
        return SymStr('0' * max(0, n - len(self.e))) + self

    def ljust(self, n, ch=' '):
        return self + SymStr(lift(ch).e * max(0, n - len(self.e)))

    def rjust(self, n, ch=' '):
        return SymStr(lift(ch).e * max(0, n - len(self.e))) + self


def fmt_number(spec, a):
    """text of a symbolic number under a printf spec: a token standing for the printed (rounded) value"""
    m = _re.fullmatch(r'%?[-+ #0]*\d*(?:\.(\d+))?([a-zA-Z]?)', spec)
    kind, prec = (m.group(2), m.group(1)) if m else ('?', None)
    if isinstance(a, SymBool):
        a = SymReal(core.term(a))
    if isinstance(a, SymInt):
        if kind in ('d', 'i', 's', 'r', ''):
            return str(a)
        a = SymReal(core.term(a))
    if kind in ('s', 'r', ''):
        if kind == 's' or prec is None:
            return str(a)
    if kind in ('d', 'i'):
        return str(int(a))
    if kind in ('f', 'F'):
        k = int(prec) if prec is not None else 6
        t = a.t * z3.RealVal(10 ** k)
        r = z3.ToReal(z3.ToInt(t + z3.RealVal('1/2')))
        return str(SymReal(z3.simplify(r / z3.RealVal(10 ** k))))
    if kind in ('g', 'G', 'e', 'E', ''):
        p = int(prec) if prec is not None else 6
        p = max(p, 1) if kind in ('g', 'G', '') else p + 1
        # p significant digits: fork on the decade
        c = core.ctx()
        if c.branch(a.t == 0):
            return '0.0'
        sgn = -1 if c.branch(a.t < 0) else 1
        v = z3.simplify(a.t * sgn)
        for d in range(-4, 7):
            if c.branch(z3.And(v >= core.realval(Fraction(10) ** d), v < core.realval(Fraction(10) ** (d + 1)))):
                q = Fraction(10) ** (p - 1 - d)
                r = z3.ToReal(z3.ToInt(v * core.realval(q) + z3.RealVal('1/2'))) * core.realval(1 / q)
                return str(SymReal(z3.simplify(sgn * r)))
        c.die('formatting %s: decade out of range' % spec)
    core.ctx().die('format %s of a symbolic number' % spec)


def fmt_elems(spec, a):
    if isinstance(a, SymStr):
        if a.c is None:
            if spec == '%s':
                return a.e
            core.ctx().die('format %s of a symbolic string' % spec)
        a = a.c
    if isinstance(a, (SymReal, SymInt, SymBool)):
        return tuple(map(ord, fmt_number(spec, a)))
    return tuple(map(ord, spec % (a,)))


def M(f, args):
    """native-literal formatting that may receive symbolic numbers"""
    a = args if isinstance(args, tuple) else (args,)
    if any(isinstance(x, (SymReal, SymInt, SymBool, SymStr)) for x in a):
        r = SymStr(f) % (a if isinstance(args, tuple) else (args,))
        return r.c if r.c is not None else r
    return f % args


def format_elems(a, spec=''):
    if isinstance(a, SymStr):
        if a.c is None:
            if spec in ('', 's'):
                return a.e
            core.ctx().die('format spec of a symbolic string')
        a = a.c
    if isinstance(a, (SymReal, SymInt, SymBool)):
        return tuple(map(ord, fmt_number(spec, a)))
    return tuple(map(ord, format(a, spec)))


def lift(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, str):
        return SymStr(x)
    return None


def S(x):
    return SymStr(x)


def F(*parts):
    """f-string: parts are str or (value, conversion, spec)"""
    out = []
    for p in parts:
        if isinstance(p, (str, SymStr)):
            out.extend(lift(p).e)
        else:
            v, conv, spec = p
            if conv == 114 and not isinstance(v, (SymReal,)):
                v = repr(v)
            out.extend(format_elems(v, str(spec)))
    return SymStr(out)


def plain(x):
    """concrete SymStr -> str, recursively through containers (containers rebuilt in place order)"""
    import collections
    if isinstance(x, SymStr):
        return x.c if x.c is not None else x
    if isinstance(x, collections.defaultdict):
        d = collections.defaultdict(x.default_factory)
        for k, v in x.items():
            d[plain(k)] = plain(v)
        return d
    if isinstance(x, dict):
        return type(x)((plain(k), plain(v)) for k, v in x.items()) if type(x) in (dict, collections.OrderedDict) \
            else {plain(k): plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    if isinstance(x, set):
        return {plain(v) for v in x}
    return x


# ---------------------------------------------------------------- numbers from text
def digits_value(es):
    """z3 Int term / int for a run of digit characters"""
    v = 0
    for x in es:
        d = x - 48 if isinstance(x, int) else x.v - 48
        v = v * 10 + d
    return v


def to_int(x, base=10):
    if isinstance(x, SymStr):
        if x.c is not None:
            return int(x.c, base)
        s = x.strip()
        e = list(s.e)
        sign = 1
        if e and in_set(e[0], frozenset((43, 45))):
            sign = -1 if ch_is(e[0], 45) else 1
            e = e[1:]
        if not e or not all(in_set(c, DIGITS) for c in e):
            raise ValueError('invalid literal for int()')
        v = digits_value(e)
        if isinstance(v, int):
            return sign * v
        return SymInt(z3.simplify(sign * v))
    return None


def to_float(x):
    """float(text): SymReal if some digit is symbolic"""
    if x.c is not None:
        return float(x.c)
    e = list(x.strip().e)
    sign = 1
    if e and in_set(e[0], frozenset((43, 45))):
        sign = -1 if ch_is(e[0], 45) else 1
        e = e[1:]
    i = 0
    ip, fp = [], []
    while i < len(e) and in_set(e[i], DIGITS):
        ip.append(e[i])
        i += 1
    if i < len(e) and ch_is(e[i], 46):
        i += 1
        while i < len(e) and in_set(e[i], DIGITS):
            fp.append(e[i])
            i += 1
    if not ip and not fp:
        raise ValueError('could not convert string to float')
    p10 = 0
    if i < len(e) and in_set(e[i], frozenset((69, 101))):
        ex = SymStr(e[i + 1:])
        if not len(ex):
            raise ValueError('could not convert string to float')
        p10 = to_int(ex)
        i = len(e)
        if isinstance(p10, SymInt):
            p10 = core.concretize_int(p10.t)
    if i < len(e):
        raise ValueError('could not convert string to float')
    m = digits_value(ip + fp)
    if isinstance(m, int):
        return float(Fraction(sign * m) * Fraction(10) ** (p10 - len(fp)))
    return SymReal(z3.simplify(z3.ToReal(sign * m) * core.realval(Fraction(10) ** (p10 - len(fp)))))


# ---------------------------------------------------------------- regular expressions
def cat_set(cat):
    return {K.CATEGORY_DIGIT: DIGITS, K.CATEGORY_SPACE: SPACE, K.CATEGORY_WORD: WORD}.get(cat)


NEGCAT = {K.CATEGORY_NOT_DIGIT: DIGITS, K.CATEGORY_NOT_SPACE: SPACE, K.CATEGORY_NOT_WORD: WORD}


def other_case(codes):
    return codes | {q + 32 for q in codes if q in UPPER} | {q - 32 for q in codes if q in LOWER}


def in_test(ch, items, ic=False):
    neg, codes, notcodes = False, set(), []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            codes.add(av)
        elif op is K.RANGE:
            codes.update(range(av[0], min(av[1], 0x3000) + 1))
        elif op is K.CATEGORY:
            if av in NEGCAT:
                notcodes.append(NEGCAT[av])
            else:
                codes |= cat_set(av)
        else:
            core.ctx().die('regex set item %s' % op)
    r = in_set(ch, frozenset(other_case(codes) if ic else codes)) if codes else False
    if not r:
        r = any(not in_set(ch, s) for s in notcodes)
    return r != neg


class Matcher:
    def __init__(self, s, flags):
        self.s, self.flags = s, flags

    def seq(self, nodes, i, groups, k):
        """match nodes from i, then continuation k(i, groups); returns result or None"""
        if not nodes:
            return k(i, groups)
        op, av = nodes[0]
        rest = nodes[1:]
        e = self.s.e
        n = len(e)
        ic = bool(self.flags & _re.IGNORECASE)
        if op is K.LITERAL:
            if i < n and (in_set(e[i], frozenset(other_case({av}))) if ic else ch_is(e[i], av)):
                return self.seq(rest, i + 1, groups, k)
            return None
        if op is K.NOT_LITERAL:
            if i < n and not (in_set(e[i], frozenset(other_case({av}))) if ic else ch_is(e[i], av)):
                return self.seq(rest, i + 1, groups, k)
            return None
        if op is K.ANY:
            if i < n and (self.flags & _re.DOTALL or not ch_is(e[i], 10)):
                return self.seq(rest, i + 1, groups, k)
            return None
        if op is K.IN:
            if i < n and in_test(e[i], av, ic):
                return self.seq(rest, i + 1, groups, k)
            return None
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt) + rest, i, groups, k)
                if r is not None:
                    return r
            return None
        if op is K.SUBPATTERN:
            gid, addf, delf, p = av
            if addf or delf:
                core.ctx().die('regex inline flags')

            def close(j, g, gid=gid, i0=i):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i0, j)
                return self.seq(rest, j, g, k)
            return self.seq(list(p), i, groups, close)
        if op is K.MAX_REPEAT or op is K.MIN_REPEAT:
            lo, hi, p = av
            p = list(p)
            greedy = op is K.MAX_REPEAT

            def step(count, i, g):
                def more():
                    if hi is not K.MAXREPEAT and count >= hi:
                        return None

                    def nxt(j, g2):
                        if j == i and count >= lo:
                            return None
                        return step(count + 1, j, g2)
                    return self.seq(p, i, g, nxt)

                def stop():
                    return self.seq(rest, i, g, k) if count >= lo else None
                for f in ((more, stop) if greedy else (stop, more)):
                    r = f()
                    if r is not None:
                        return r
                return None
            return step(0, i, groups)
        if op is K.AT:
            ml = self.flags & _re.MULTILINE
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                ok = i == 0 or (ml and av is K.AT_BEGINNING and ch_is(e[i - 1], 10))
            elif av is K.AT_END:
                ok = i == n or (i == n - 1 and ch_is(e[i], 10)) or (ml and ch_is(e[i], 10))
            elif av is K.AT_END_STRING:
                ok = i == n
            elif av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                a = i > 0 and in_set(e[i - 1], WORD)
                b = i < n and in_set(e[i], WORD)
                ok = (a != b) == (av is K.AT_BOUNDARY)
            else:
                core.ctx().die('regex at %s' % av)
            return self.seq(rest, i, groups, k) if ok else None
        if op in (K.ASSERT, K.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    core.ctx().die('variable lookbehind')
                j = i - lo
                r = None if j < 0 else self.seq(list(p), j, groups, lambda q, g: g if q == i else None)
            else:
                r = self.seq(list(p), i, groups, lambda q, g: g)
            if (r is not None) != (op is K.ASSERT):
                return None
            return self.seq(rest, i, r if op is K.ASSERT else groups, k)
        if op is K.GROUPREF:
            if ic:
                core.ctx().die('case-insensitive back reference')
            a, b = groups[av]
            sub = SymStr(e[a:b])
            if i + len(sub) <= n and self.s._at(sub, i):
                return self.seq(rest, i + len(sub), groups, k)
            return None
        core.ctx().die('regex op %s' % op)


class SymMatch:
    def __init__(self, s, start, end, groups, pat):
        self.string, self._s, self._e, self._g, self.re = s, start, end, groups, pat

    def _idx(self, g):
        if isinstance(g, (str, SymStr)):
            g = self.re.groupindex[str(g)]
        return g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = [self._one(self._idx(g)) for g in gs]
        return out[0] if len(out) == 1 else tuple(out)

    def _one(self, g, default=None):
        if g == 0:
            return SymStr(self.string.e[self._s:self._e])
        if g in self._g:
            a, b = self._g[g]
            return SymStr(self.string.e[a:b])
        return default

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def span(self, g=0):
        g = self._idx(g)
        return (self._s, self._e) if g == 0 else self._g.get(g, (-1, -1))

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.pattern = str(pattern)
        self.tree = sre_parse.parse(self.pattern, flags)
        self.flags = self.tree.state.flags if hasattr(self.tree, 'state') else flags
        self.nat = _re.compile(self.pattern, flags)
        self.groups = self.nat.groups
        self.groupindex = dict(self.nat.groupindex)

    def _m(self, s, i, full=False):
        m = Matcher(s, self.flags)

        def done(j, g):
            if full and j != len(s):
                return None
            return (j, g)
        r = m.seq(list(self.tree), i, {}, done)
        return None if r is None else SymMatch(s, i, r[0], r[1], self)

    def _conv(self, s, m):
        """native match -> SymMatch"""
        if m is None:
            return None
        g = {i: m.span(i) for i in range(1, self.groups + 1) if m.span(i) != (-1, -1)}
        return SymMatch(s, m.start(), m.end(), g, self)

    def match(self, s, pos=0):
        s = lift(s)
        return self._conv(s, self.nat.match(s.c, pos)) if s.c is not None else self._m(s, pos)

    def fullmatch(self, s):
        s = lift(s)
        return self._conv(s, self.nat.fullmatch(s.c)) if s.c is not None else self._m(s, 0, True)

    def search(self, s, pos=0):
        s = lift(s)
        if s.c is not None:
            return self._conv(s, self.nat.search(s.c, pos))
        for i in range(pos, len(s) + 1):
            m = self._m(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s):
        s = lift(s)
        if s.c is not None:
            for m in self.nat.finditer(s.c):
                yield self._conv(s, m)
            return
        i, prev_end = 0, -1
        while i <= len(s):
            m = self._m(s, i)
            if m is None or (m._s == m._e and m._e == prev_end):
                i += 1
                continue
            yield m
            prev_end = m._e
            i = m._e if m._e > m._s else m._e + 1

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._one(1, SymStr('')))
            else:
                out.append(m.groups(SymStr('')))
        return out

    def sub(self, repl, s, count=0):
        s = lift(s)
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(s.e[i:m._s])
            if callable(repl):
                out.extend(lift(repl(m)).e)
            else:
                r = lift(repl)
                if r.c is not None and '\\' in r.c:
                    j, t = 0, r.c
                    for mm in _re.finditer(r'\\(\d|g<(\w+)>|.)', t):
                        out.extend(map(ord, t[j:mm.start()]))
                        j = mm.end()
                        q = mm.group(1)
                        if q.isdigit():
                            out.extend(m._one(int(q), SymStr('')).e)
                        elif mm.group(2):
                            g = mm.group(2)
                            out.extend(m._one(int(g) if g.isdigit() else self.groupindex[g], SymStr('')).e)
                        else:
                            out.extend(map(ord, {'n': '\n', 't': '\t', '\\': '\\'}.get(q, '\\' + q)))
                    out.extend(map(ord, t[j:]))
                else:
                    out.extend(r.e)
            i = m._e
            n += 1
        out.extend(s.e[i:])
        return SymStr(out)

    def subn(self, repl, s, count=0):
        n = sum(1 for _ in self.finditer(s))
        return self.sub(repl, s, count), min(n, count) if count else n

    def split(self, s, maxsplit=0):
        s = lift(s)
        out, i = [], 0
        for k, m in enumerate(self.finditer(s)):
            if maxsplit and k >= maxsplit:
                break
            out.append(SymStr(s.e[i:m._s]))
            out.extend(m.groups())
            i = m._e
        out.append(SymStr(s.e[i:]))
        return out


_cache = {}


def _compile(p, flags=0):
    if isinstance(p, SymPattern):
        return p
    key = (str(p), int(flags))
    if key not in _cache:
        _cache[key] = SymPattern(*key)
    return _cache[key]


class _ReModule(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_re, n)


re = _ReModule('re')
re.compile = _compile
re.findall = lambda p, s, flags=0: _compile(p, flags).findall(s)
re.finditer = lambda p, s, flags=0: _compile(p, flags).finditer(s)
re.match = lambda p, s, flags=0: _compile(p, flags).match(s)
re.search = lambda p, s, flags=0: _compile(p, flags).search(s)
re.fullmatch = lambda p, s, flags=0: _compile(p, flags).fullmatch(s)
re.sub = lambda p, r, s, count=0, flags=0: _compile(p, flags).sub(r, s, count)
re.subn = lambda p, r, s, count=0, flags=0: _compile(p, flags).subn(r, s, count)
re.split = lambda p, s, maxsplit=0, flags=0: _compile(p, flags).split(s, maxsplit)
re.escape = lambda s: SymStr(_re.escape(str(s)))


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __call__(cls, x='', *a):
        if isinstance(x, SymStr):
            return x
        return SymStr(str(x, *a))

    def __getattr__(cls, n):
        if n == 'maketrans':
            return SymStr.maketrans
        return lambda s, *a, **k: getattr(lift(s), n)(*a, **k)


class StrShim(metaclass=_StrMeta):
    pass


def sym_ord(x):
    if isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return x.e[0] if isinstance(x.e[0], int) else core.SymInt(x.e[0].v)
    return ord(x)


def sym_chr(x):
    if isinstance(x, core.SymInt):
        return SymStr(chr(core.concretize_int(x.t)))
    return SymStr(chr(x))


STRING = types.ModuleType('string')
STRING.__dict__.update({k: SymStr(v) if isinstance(v, str) and not k.startswith('__') else v for k, v in string.__dict__.items()})


def _wrap_number(real_type, conv):
    class Meta(type):
        def __instancecheck__(cls, x):
            if real_type is float:
                return isinstance(x, (float, SymReal))
            return isinstance(x, (int, SymInt))

        def __call__(cls, x=0, *a):
            if isinstance(x, SymStr):
                return conv(x, *a)
            if real_type is float and isinstance(x, SymReal):
                return x
            if real_type is float and isinstance(x, SymInt):
                return SymReal(core.term(x))
            return real_type(x, *a)

        def __getattr__(cls, n):
            return getattr(real_type, n)

        def __eq__(cls, o):
            return o is cls or o is real_type

        def __hash__(cls):
            return hash(real_type)
    return Meta(real_type.__name__, (), {})


FloatShim = _wrap_number(float, to_float)
IntShim = _wrap_number(int, to_int)


class SymFile:
    """file object for a symbolic text"""

    def __init__(self, text):
        self.text = lift(text)
        self.lines = None

    def read(self, *a):
        return self.text

    def readlines(self):
        return self.text.splitlines(True)

    def readline(self):
        if self.lines is None:
            self.lines = self.text.splitlines(True)
        return self.lines.pop(0) if self.lines else SymStr('')

    def __iter__(self):
        return iter(self.text.splitlines(True))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
