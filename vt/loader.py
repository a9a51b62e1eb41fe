"""Load the real modules of /repo (current working tree) for symbolic execution.

Nothing of the source is replaced: names that reach outside (files, regex on symbolic text,
numpy arrays that must hold symbolic values, ODE solver, property library) resolve to shims.
"""
import ast
import builtins
import io
import math
import os
import re as _re
import sys
import types

from . import core, sstr

REPO = os.environ.get('PYBOX_REPO', '/repo')


class Lits(ast.NodeTransformer):
    """string literals -> SymStr; f-strings -> symbolic formatting; "fmt" % x -> __M.

    Functions for which skip(name) holds keep native literals (they only produce text from concrete names
    and symbolic numbers); formatting of symbolic numbers is still intercepted there."""

    def __init__(self, skip, on=True):
        self.skip = skip
        self.on = on

    def _fn(self, n):
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [self.visit(x) if x is not None else None for x in n.args.kw_defaults]
        was = self.on
        if self.skip(n.name):
            self.on = False
        n.body = [self.visit(st) for st in n.body]
        self.on = was
        return n

    visit_FunctionDef = _fn

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return n
        return self.generic_visit(n)

    def visit_Constant(self, n):
        if self.on and isinstance(n.value, str):
            return ast.copy_location(ast.Call(ast.Name('__S', ast.Load()), [n], []), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Mod) and not self.on and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(ast.Call(ast.Name('__M', ast.Load()), [n.left, self.visit(n.right)], []), n)
        return self.generic_visit(n)

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'astype':
            return ast.copy_location(ast.Call(ast.Name('__astype', ast.Load()), [n.func.value] + n.args, n.keywords), n)
        return n

    def visit_While(self, n):
        n = self.generic_visit(n)
        n.body.insert(0, ast.Expr(ast.Call(ast.Name('__tick', ast.Load()), [], [])))
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name('__F' if self.on else '__FN', ast.Load()), parts, []), n)


LOOPS = 200000
_ticks = [None, 0]


def tick():
    """a while loop of the code under analysis goes round once more"""
    c = core.CUR
    if _ticks[0] is not c:
        _ticks[:] = [c, 0]
    _ticks[1] += 1
    if _ticks[1] > LOOPS:
        _ticks[1] = 0
        raise RuntimeError('a loop does not end (%d rounds)' % LOOPS)


def say(*a, sep=' ', end='\n', file=None, flush=False):
    """print: text for a file is kept, the rest is not of interest"""
    if file is not None and hasattr(file, 'write') and file not in (sys.stdout, sys.stderr):
        sep, end = ' ' if sep is None else sep, '\n' if end is None else end
        for i, x in enumerate(a):
            if i:
                file.write(sep)
            file.write(x if isinstance(x, sstr.SymStr) else str(x))
        file.write(end)


class VFS:
    """files written by the code under analysis, and files given to it"""

    def __init__(self, files=None):
        self.files = dict(files or {})
        self.arrays = {}
        self.sparse = {}

    def open(self, name, mode='r', *a, **k):
        name = str(name)
        mode = str(mode)
        if 'w' in mode or 'a' in mode or 'x' in mode:
            return Out(self, name, 'a' in mode)
        if name in self.files:
            t = self.files[name]
            return sstr.SymFile(t) if isinstance(t, sstr.SymStr) else io.StringIO(t)
        raise FileNotFoundError(name)


class Out:
    def __init__(self, vfs, name, append):
        self.vfs, self.name = vfs, name
        if not append or name not in vfs.files:
            vfs.files[name] = ''
        self.buf = [vfs.files[name]]

    def write(self, s):
        self.buf.append(str(s))
        return len(self.buf[-1])

    def writelines(self, it):
        for s in it:
            self.write(s)

    def flush(self):
        self.vfs.files[self.name] = ''.join(self.buf)

    def close(self):
        self.flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __del__(self):
        try:
            self.flush()
        except Exception:
            pass


def file_modules(vfs):
    """the other ways to open the files of the code under analysis"""
    import codecs
    import pathlib
    i = types.ModuleType('io')
    i.__dict__.update(io.__dict__)
    i.open = vfs.open

    def text(t='', *a, **k):
        return sstr.SymFile(t) if isinstance(t, sstr.SymStr) else io.StringIO(t, *a, **k)
    i.StringIO = text
    c = types.ModuleType('codecs')
    c.__dict__.update(codecs.__dict__)
    c.open = lambda name, mode='r', *a, **k: vfs.open(name, mode)

    class Path(pathlib.PurePosixPath):
        def __init__(self, *a):
            super().__init__(*map(str, a))

        def open(self, mode='r', *a, **k):
            return vfs.open(str(self), mode)

        def read_text(self, *a, **k):
            with vfs.open(str(self)) as f:
                return f.read()

        def write_text(self, t, *a, **k):
            with vfs.open(str(self), 'w') as f:
                return f.write(t)

        def exists(self): return str(self) in vfs.files
        is_file = exists

    q = types.ModuleType('pathlib')
    q.__dict__.update(pathlib.__dict__)
    q.Path = q.PosixPath = Path
    return {'io': i, 'codecs': c, 'pathlib': q}


def npshim_astype(x, *a, **k):
    from . import npshim
    return npshim.astype(x, *a, **k)


def stub(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


class Anything(types.ModuleType):
    """module stub: attributes are no-op callables"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Nop(self.__name__ + '.' + n)


class Nop:
    def __init__(self, n):
        self._n = n

    def __call__(self, *a, **k):
        # decorator use: @nb.jit(...)(f) / @nb.njit
        if len(a) == 1 and isinstance(a[0], types.FunctionType) and not k:
            return a[0]
        return Nop(self._n + '()')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Nop(self._n + '.' + n)

    def __getitem__(self, i):
        return Nop(self._n + '[]')


def sym_math():
    m = types.ModuleType('math')
    m.__dict__.update(math.__dict__)
    for n, mine in (('exp', 'exp'), ('log10', 'log10'), ('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'),
                    ('atan', 'arctan'), ('acos', 'arccos'), ('tan', 'tan')):
        m.__dict__[n] = core.mathfun(mine)

    def log(x, base=None):
        if isinstance(x, (core.SymReal, core.SymInt)):
            r = core.SymReal(core.term(x)).log()
            return r if base is None else r / math.log(base)
        return math.log(x) if base is None else math.log(x, base)
    m.log = log
    m.pow = lambda a, b: a ** b

    def both(n, mine):
        theirs = getattr(math, n)
        m.__dict__[n] = lambda *a: mine(*a) if any(isinstance(v, (core.SymReal, core.SymInt)) for v in a) else theirs(*a)
    both('fabs', abs)
    both('radians', lambda x: x * math.pi / 180.0)
    both('degrees', lambda x: x * 180.0 / math.pi)
    both('isnan', lambda x: False)
    both('isinf', lambda x: False)
    both('isfinite', lambda x: True)
    both('hypot', lambda a, b: core.SymReal(core.term(a * a + b * b)).sqrt())
    both('log1p', lambda x: core.SymReal(core.term(x)).log1p())
    both('expm1', lambda x: core.SymReal(core.term(x)).expm1())
    both('trunc', lambda x: x.__trunc__())
    both('fmod', lambda a, b: a - b * core.SymReal(core.term(a / b)).trunc())

    def fsum(it):
        r = 0.0
        for v in it:
            r = r + v
        return r
    m.fsum = fsum
    m.floor = lambda x: x.__floor__() if isinstance(x, core.SymReal) else math.floor(x)
    m.ceil = lambda x: x.__ceil__() if isinstance(x, core.SymReal) else math.ceil(x)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= abs_tol if \
        isinstance(a, core.SymReal) or isinstance(b, core.SymReal) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return m


def load(relpath, vfs=None, strings=False, modules=None, skip=None, names=None, source=None, modname=None):
    """execute /repo/<relpath> in a fresh namespace with shims; returns namespace dict"""
    if source is None:
        with open(os.path.join(REPO, relpath), encoding='utf-8') as f:
            source = f.read()
    tree = ast.parse(source)
    tree = Lits(skip or (lambda n: n.startswith('write_')), strings).visit(tree)
    ast.fix_missing_locations(tree)
    mods = dict(modules or {})
    vfs = vfs if vfs is not None else VFS()
    b = dict(builtins.__dict__)
    b['open'] = vfs.open
    b['print'] = say
    if strings:
        b['str'] = sstr.StrShim
        b['float'] = sstr.FloatShim
        b['int'] = sstr.IntShim
        b['ord'], b['chr'] = sstr.sym_ord, sstr.sym_chr
        mods.setdefault('re', sstr.re)
        mods.setdefault('string', sstr.STRING)
    else:
        b['float'] = sstr.FloatShim
        b['int'] = sstr.IntShim
    mods.setdefault('math', sym_math())
    for n, m in file_modules(vfs).items():
        mods.setdefault(n, m)
    real_import = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if name in mods:
            return mods[name]
        top = name.split('.')[0]
        if top in mods:
            m = mods[top]
            if fromlist:
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
            return m
        return real_import(name, globals, locals, fromlist, level)
    b['__import__'] = imp
    ns = {'__builtins__': b, '__name__': modname or os.path.basename(relpath)[:-3], '__file__': os.path.join(REPO, relpath),
          '__tick': tick, '__astype': npshim_astype, '__S': sstr.S, '__F': sstr.F, '__M': sstr.M, '__FN': lambda *p: str(sstr.F(*p))}
    ns.update(names or {})
    exec(compile(tree, os.path.join(REPO, relpath), 'exec'), ns)
    core.STATS.functions.add(relpath)
    return ns


def exec_text(text, modules=None, names=None, modname='generated', what=None):
    """execute generated Python source symbolically"""
    return load(what or 'generated.py', source=text, modules=modules, names=names, modname=modname)
