"""numpy with arrays that can hold symbolic values (object dtype), otherwise the real numpy."""
import types
import numpy as _np
from . import core
from .core import SymReal, SymInt, SymBool

SYM = (SymReal, SymInt, SymBool)


def has_sym(x):
    if isinstance(x, SYM):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def objarr(x):
    return _np.array(x, dtype=object) if not isinstance(x, _np.ndarray) else x.astype(object)


def kind(dtype):
    """'i', 'b' or None for a dtype given in any way, also the int of the code under analysis"""
    if dtype is None:
        return None
    n = getattr(dtype, '__name__', None) if isinstance(dtype, type) else None
    if n in ('int', 'bool'):
        return n[0]
    try:
        k = _np.dtype(dtype).kind
    except TypeError:
        return None
    return {'u': 'i', 'i': 'i', 'b': 'b'}.get(k)


class Op:
    """a binary ufunc"""

    def __init__(self, np, f, real):
        self.np, self.f, self.real = np, f, real

    def __call__(self, a, b, out=None, **k):
        r = self.np._bin(a, b, self.f)
        if out is None:
            return r
        out = out[0] if isinstance(out, tuple) else out
        out[...] = r
        return out

    def reduce(self, a, axis=0, **k):
        a = objarr(a)
        if axis is None:
            a = a.ravel()
        r = None
        for v in (a if axis in (0, None) else _np.moveaxis(a, axis, 0)):
            r = v if r is None else self.f(r, v)
        return r

    def accumulate(self, a, **k):
        out = []
        for v in objarr(a):
            out.append(v if not out else self.f(out[-1], v))
        return _np.array(out, dtype=object)

    def outer(self, a, b):
        a, b = objarr(a), objarr(b)
        return self.f(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, i, b):
        for k, j in enumerate(_np.ravel(i)):
            v = b if not isinstance(b, (list, tuple, _np.ndarray)) else b[k]
            a[j] = self.f(a[j], v)

    @property
    def __name__(self): return self.real.__name__


class NP(types.ModuleType):
    def __init__(self, vfs=None):
        super().__init__('numpy')
        self.vfs = vfs
        for n, f in (('add', lambda p, q: p + q), ('subtract', lambda p, q: p - q), ('multiply', lambda p, q: p * q), ('divide', lambda p, q: p / q),
                     ('true_divide', lambda p, q: p / q)):
            setattr(self, n, Op(self, f, getattr(_np, n)))

    def __getattr__(self, n):
        return getattr(_np, n)

    # allocation: always object so that symbolic values can be stored
    def zeros(self, shape, dtype=None, **k):
        if kind(dtype):
            return _np.full(shape, 0, dtype={'i': int, 'b': bool}[kind(dtype)])
        a = _np.empty(shape, dtype=object)
        a.fill(0.0)
        return a

    def ones(self, shape, dtype=None, **k):
        if kind(dtype):
            return _np.full(shape, 1, dtype={'i': int, 'b': bool}[kind(dtype)])
        a = _np.empty(shape, dtype=object)
        a.fill(1.0)
        return a

    def full(self, shape, v, dtype=None, **k):
        if kind(dtype):
            return _np.full(shape, v, dtype={'i': int, 'b': bool}[kind(dtype)])
        a = _np.empty(shape, dtype=object)
        a.fill(v)
        return a

    def empty(self, shape, dtype=None, **k):
        if kind(dtype):
            return self.zeros(shape, dtype)
        a = _np.empty(shape, dtype=object)
        c = core.ctx()
        for i in _np.ndindex(a.shape):
            a[i] = core.real(c.fresh('uninit'))
        return a

    def zeros_like(self, x, dtype=None, **k):
        return self.zeros(_np.shape(x), dtype if dtype is not None else getattr(x, 'dtype', None))

    def ones_like(self, x, dtype=None, **k):
        return self.ones(_np.shape(x), dtype if dtype is not None else getattr(x, 'dtype', None))

    def empty_like(self, x, **k):
        return self.empty(_np.shape(x))

    def array(self, x, dtype=None, **k):
        if has_sym(x):
            return _np.array(x, dtype=object)
        return _np.array(x, **k) if dtype in (None,) or not isinstance(dtype, type) or dtype.__name__ not in ('int', 'float') \
            else _np.array(x, dtype={'int': int, 'float': float}[dtype.__name__], **k)

    def asarray(self, x, dtype=None, **k):
        return x if isinstance(x, _np.ndarray) else self.array(x, dtype)

    def _map(self, name, x):
        f = core.mathfun(name)
        if isinstance(x, SYM):
            return f(x)
        if isinstance(x, (_np.ndarray, list, tuple)) and has_sym(x):
            x = objarr(x)
            out = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(x.shape):
                out[i] = f(x[i])
            return out
        return getattr(_np, name)(x)

    def exp(self, x): return self._map('exp', x)
    def log(self, x): return self._map('log', x)
    def log10(self, x): return self._map('log10', x)
    def sin(self, x): return self._map('sin', x)
    def cos(self, x): return self._map('cos', x)
    def tan(self, x): return self._map('tan', x)
    def sqrt(self, x): return self._map('sqrt', x)

    def arctan(self, x):
        if isinstance(x, SYM):
            return self._map('arctan', x)
        if x == 1.0:
            return pi4()
        return _np.arctan(x)

    def arccos(self, x): return self._map('arccos', x)

    def _ceilfloor(self, x, up):
        if isinstance(x, SYM):
            if isinstance(x, SymInt):
                return x
            f = core.floor_term(-x.t if up else x.t)
            return SymInt(-f if up else f)
        if has_sym(x):
            x = objarr(x)
            return _np.array([self._ceilfloor(v, up) if isinstance(v, SYM) else (_np.ceil(v) if up else _np.floor(v)) for v in x.flat], dtype=object).reshape(x.shape)
        return _np.ceil(x) if up else _np.floor(x)

    def ceil(self, x): return self._ceilfloor(x, True)
    def floor(self, x): return self._ceilfloor(x, False)

    def round(self, x, decimals=0, **k):
        if isinstance(x, SYM):
            return round(x, decimals)
        if has_sym(x):
            x = objarr(x)
            return _np.array([round(v, decimals) for v in x.flat], dtype=object).reshape(x.shape)
        return _np.round(x, decimals, **k)
    around = round_ = round

    def rint(self, x): return self.round(x)

    def log2(self, x):
        return self.log(x) / _np.log(2.0) if has_sym(x) else _np.log2(x)

    def abs(self, x):
        if isinstance(x, SYM):
            return abs(x)
        return _np.abs(x)
    absolute = abs
    fabs = abs

    def _pow(self, a, b):
        return a ** b

    def power(self, a, b):
        if has_sym(a) or has_sym(b):
            if isinstance(a, SYM) and not isinstance(b, (list, tuple, _np.ndarray)) or \
                    not isinstance(a, (list, tuple, _np.ndarray)) and isinstance(b, SYM):
                return a ** b
            A, B = _np.broadcast_arrays(objarr(a), objarr(b))
            out = _np.empty(A.shape, dtype=object)
            for i in _np.ndindex(A.shape):
                out[i] = A[i] ** B[i]
            return out
        return _np.power(a, b)

    def cbrt(self, x):
        return self.power(x, SymReal(core.realval(core.Fraction(1, 3)))) if has_sym(x) else _np.cbrt(x)

    def square(self, x): return self.multiply(x, x)
    def reciprocal(self, x): return self.divide(1.0, x)

    def clip(self, x, lo=None, hi=None, **k):
        lo, hi = k.get('a_min', lo) if lo is None else lo, k.get('a_max', hi) if hi is None else hi
        x = x if lo is None else self.maximum(x, lo)
        return x if hi is None else self.minimum(x, hi)

    def fromiter(self, it, dtype=None, count=-1, **k):
        return self.array(list(it), dtype)

    def float64(self, x=0.0): return x if isinstance(x, SYM) else objarr(x) if has_sym(x) else _np.float64(x)
    double = float64

    def _pair(self, a, b, f, real, **k):
        return self._el2(a, b, f) if has_sym(a) or has_sym(b) else real(a, b, **k)

    def mod(self, a, b, **k): return self._pair(a, b, lambda p, q: p % q, _np.mod)
    remainder = mod
    def fmod(self, a, b, **k): return self._pair(a, b, lambda p, q: p - q * SymReal(core.term(p / q)).trunc(), _np.fmod)
    def floor_divide(self, a, b, **k): return self._pair(a, b, lambda p, q: p // q, _np.floor_divide)
    def hypot(self, a, b, **k): return self._pair(a, b, lambda p, q: core.mathfun('sqrt')(p * p + q * q), _np.hypot)
    def log1p(self, x): return self._map('log1p', x)
    def expm1(self, x): return self._map('expm1', x)
    def radians(self, x): return self.multiply(x, _np.pi / 180.0) if has_sym(x) else _np.radians(x)
    deg2rad = radians
    def degrees(self, x): return self.multiply(x, 180.0 / _np.pi) if has_sym(x) else _np.degrees(x)
    rad2deg = degrees

    def average(self, x, axis=None, weights=None, **k):
        if not has_sym(x) and not has_sym(weights):
            return _np.average(x, axis=axis, weights=weights, **k)
        if weights is None:
            return self.sum(x, axis=axis) / (_np.size(x) if axis is None else _np.shape(x)[axis])
        return self.sum(self.multiply(x, weights), axis=axis) / self.sum(weights)

    def isfinite(self, x):
        return True if isinstance(x, SYM) else _np.ones(_np.shape(x), dtype=bool) if has_sym(x) else _np.isfinite(x)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if has_sym(a) or has_sym(b):
            return self._el2(a, b, lambda p, q: abs(p - q) <= atol + rtol * abs(q))
        return _np.isclose(a, b, rtol=rtol, atol=atol, **k)

    def full_like(self, x, v, dtype=None, **k): return self.full(_np.shape(x), v, dtype if dtype is not None else getattr(x, 'dtype', None))

    def geomspace(self, a, b, num=50, **k):
        if has_sym(a) or has_sym(b):
            return self.exp(self.linspace(self.log(a), self.log(b), num))
        return _np.geomspace(a, b, int(num), **k)

    def float_power(self, a, b): return self.power(a, b)

    def sum(self, x, axis=None, **k):
        if has_sym(x):
            x = objarr(x)
            if axis is None:
                r = 0.0
                for v in x.flat:
                    r = r + v
                return r
            return _np.sum(x, axis=axis)
        return _np.sum(x, axis=axis, **k)

    def _bin(self, a, b, f):
        a = a if isinstance(a, _np.ndarray) or isinstance(a, SYM) else (_np.array(a, dtype=object) if isinstance(a, (list, tuple)) else a)
        b = b if isinstance(b, _np.ndarray) or isinstance(b, SYM) else (_np.array(b, dtype=object) if isinstance(b, (list, tuple)) else b)
        return f(a, b)

    def _minmax(self, a, b, lt):
        import z3
        ta, tb = core.term(a), core.term(b)
        return SymReal(z3.If((ta <= tb) if lt else (ta >= tb), ta, tb))

    def maximum(self, a, b):
        if has_sym(a) or has_sym(b):
            return self._el2(a, b, lambda p, q: self._minmax(p, q, False))
        return _np.maximum(a, b)

    def minimum(self, a, b):
        if has_sym(a) or has_sym(b):
            return self._el2(a, b, lambda p, q: self._minmax(p, q, True))
        return _np.minimum(a, b)

    def _el2(self, a, b, f):
        if not isinstance(a, (list, tuple, _np.ndarray)) and not isinstance(b, (list, tuple, _np.ndarray)):
            return f(a, b)
        A, B = _np.broadcast_arrays(objarr(a), objarr(b))
        out = _np.empty(A.shape, dtype=object)
        for i in _np.ndindex(A.shape):
            out[i] = f(A[i], B[i])
        return out

    def where(self, c, *a):
        if isinstance(c, SymBool):
            if a:
                return a[0] if c else a[1]
        if isinstance(c, _np.ndarray) and c.dtype == object:
            cc = _np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
            if a:
                x = [objarr(v) if has_sym(v) else v for v in a]
                return _np.where(cc, *x)
            return _np.where(cc)
        return _np.where(c, *a)

    def linspace(self, a, b, num=50, **k):
        if has_sym(a) or has_sym(b):
            n = int(num)
            out = _np.empty(n, dtype=object)
            for i in range(n):
                out[i] = a + (b - a) * core.SymReal(core.realval(core.Fraction(i, n - 1))) if n > 1 else a
            return out
        return _np.linspace(a, b, int(num), **k)

    def logspace(self, a, b, num=50, base=10.0, **k):
        if has_sym(a) or has_sym(b) or has_sym(base):
            e = self.linspace(a, b, num)
            return self.power(base, e)
        return _np.logspace(a, b, int(num), base=base, **k)

    def cumprod(self, x, **k):
        if has_sym(x):
            out, r = [], 1.0
            for v in objarr(x).flat:
                r = r * v
                out.append(r)
            return _np.array(out, dtype=object)
        return _np.cumprod(x, **k)

    def dot(self, a, b): return _np.dot(objarr(a), objarr(b)) if has_sym(a) or has_sym(b) else _np.dot(a, b)

    def isnan(self, x):
        if isinstance(x, SYM):
            return False
        return _np.isnan(_np.array(x, dtype=float)) if not has_sym(x) else _np.zeros(_np.shape(x), dtype=bool)

    def allclose(self, *a, **k):
        core.ctx().die('allclose on symbolic values') if any(map(has_sym, a)) else None
        return _np.allclose(*a, **k)

    # persistence
    def save(self, name, arr, *a, **k):
        self.vfs.arrays[str(name)] = arr

    def savez(self, name, *a, **k):
        self.vfs.sparse[str(name)] = dict(k, args=a)
    savez_compressed = savez

    def load(self, name, *a, **k):
        name = str(name)
        for d in (self.vfs.arrays, self.vfs.sparse):
            for n in (name, name[:-4]):
                if n in d:
                    r = d[n]
                    return r if isinstance(r, dict) else _np.array(r, dtype=object) if has_sym(r) else _np.asarray(r)
        raise FileNotFoundError(name)


_PI = None


def pi4():
    """pi/4 as a symbolic constant in [0.7853, 0.7854] so that both back ends share one pi"""
    return SymReal(core.z3.Real('PI4'))


def astype(x, *a, **k):
    """x.astype(...) of the code under analysis: a conversion of symbolic reals to reals changes nothing"""
    if isinstance(x, _np.ndarray) and x.dtype == object and any(isinstance(v, SYM) for v in x.flat):
        t = a[0] if a else k.get('dtype')
        n = getattr(t, '__name__', str(t))
        if kind(t) is None and (t is object or n in ('float', 'float64', 'double', 'd', 'f8', 'float_')):
            return x.copy()
        if kind(t):
            return _np.array([int(v) if kind(t) == 'i' else bool(v) for v in x.flat], dtype={'i': int, 'b': bool}[kind(t)]).reshape(x.shape)
        core.ctx().die('astype(%s) of symbolic values' % n)
    if a and getattr(a[0], '__name__', '') in ('int', 'float') and isinstance(a[0], type) and isinstance(x, _np.ndarray):
        a = ({'int': int, 'float': float}[a[0].__name__],) + a[1:]
    if a and getattr(a[0], '__name__', '') in ('float64', 'double') and not isinstance(a[0], type):
        a = (_np.float64,) + a[1:]
    return x.astype(*a, **k)
