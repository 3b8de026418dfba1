"""Symbolic stand-ins for numpy/math and the instrumenting loader for the code under test.

The source of every `pyrtlib` module is read from /repo on each run and executed by the ordinary
interpreter with a custom `__builtins__` whose `import numpy`/`import math` deliver the shims below.
Values that are symbolic are Sym/SymC/SymB objects; arrays are object arrays (SymArr)."""
import builtins
import importlib.abc
import importlib.util
import math
import os
import sys
import types
import numpy as np
from . import dag, sym
from .sym import Sym, SymB, SymC, lift, wrap, mkc, is_sym, Unsupported

_isinst = builtins.isinstance
_float = builtins.float


class SymArr(np.ndarray):
    """object array; element-wise functions are applied with the scalar semantics below."""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [x.view(np.ndarray) if _isinst(x, SymArr) else x for x in inputs]
        name = ufunc.__name__
        kw.pop('dtype', None)
        kw.pop('casting', None)
        if method == '__call__' and (out is None and not kw or 'where' in kw) and (name in UNARY or name in BINARY or kw):
            return UF(name)(*ins, out=out, **kw)
        if method == 'reduce' and (name in BINARY or kw.get('where', True) is not True):
            a, axis = ins[0], kw.get('axis', 0)
            if kw.get('where', True) is not True and name in ('add', 'multiply'):
                w = kw.pop('where')
                a = _where(w, a, 0.0 if name == 'add' else 1.0)
            return UF(name).reduce(a, **dict(kw, axis=axis, out=out if out is None else out[0]))
        if method == 'accumulate' and name in BINARY and out is None:
            return UF(name).accumulate(ins[0], **kw)
        if out is not None:
            out = tuple(o.view(np.ndarray) if _isinst(o, SymArr) else o for o in out)
            kw['out'] = out
        r = getattr(ufunc, method)(*ins, **kw)
        return tosym(r)

    def any(self, axis=None, **k):
        if axis is None:
            return any(bool(x != 0) if not _isinst(x, (bool, np.bool_)) else bool(x) for x in self.flat)
        return np.any(_tobool(self), axis=axis)

    def all(self, axis=None, **k):
        if axis is None:
            return all(bool(x != 0) if not _isinst(x, (bool, np.bool_)) else bool(x) for x in self.flat)
        return np.all(_tobool(self), axis=axis)

    def astype(self, dtype, *a, **k):
        if _real_dtype(dtype):
            return self.copy()
        if np.dtype(dtype).kind in 'iu':
            return np.array([int(x) for x in self.flat], dtype=dtype).reshape(self.shape)
        return np.ndarray.astype(self.view(np.ndarray), dtype, *a, **k)

    def __setitem__(self, k, v):
        if _isinst(v, np.ndarray) and v.size == 1 and v.ndim and not _isinst(np.ndarray.__getitem__(self, k), np.ndarray):
            v = v.reshape(-1)[0]
        np.ndarray.__setitem__(self, k, v)

    @property
    def real(self):
        return tosym(_map1(lambda x: x.real, self.view(np.ndarray)))

    @property
    def imag(self):
        return tosym(_map1(lambda x: x.imag, self.view(np.ndarray)))

    def mean(self, axis=None, *a, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def round(self, *a, **k):
        return np.round(self.view(np.ndarray).astype(float), *a)

    def argmax(self, *a, **k):
        return _argext(self, lambda x, y: x > y)

    def argmin(self, *a, **k):
        return _argext(self, lambda x, y: x < y)

    def conjugate(self):
        return tosym(_map1(lambda x: x.conjugate(), self.view(np.ndarray)))

    conj = conjugate


def _argext(a, better):
    f = list(a.flat)
    best = 0
    for i in range(1, len(f)):
        if better(f[i], f[best]):
            best = i
    return best


def _tobool(a):
    return np.array([bool(x) for x in np.asarray(a).flat], dtype=bool).reshape(np.shape(a))


def obj(x):
    """nested list / array -> SymArr."""
    if _isinst(x, SymArr):
        return x
    if _isinst(x, np.ndarray):
        return tosym(x)
    a = np.array(x, dtype=object)
    return a.view(SymArr)


def has_sym(x):
    if _isinst(x, (Sym, SymB, SymC)):
        return True
    if _isinst(x, np.ndarray):
        return x.dtype == object and any(_isinst(e, (Sym, SymB, SymC)) for e in x.flat)
    if _isinst(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def _scalar(x):
    """object element -> plain python scalar or Sym."""
    if _isinst(x, (np.floating, np.integer, np.complexfloating, np.bool_)):
        return x.item()
    return x


def tosym(r):
    """post-process a numpy result: float arrays become SymArr."""
    if _isinst(r, SymArr):
        return r if r.ndim else r.item()
    if _isinst(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            f = [e for e in r.flat]
            if f and all(_isinst(e, (SymB, bool, np.bool_)) for e in f):
                return _tobool(r)
            return r.view(SymArr)
        if r.dtype.kind == 'f' and r.ndim:
            return r.astype(object).view(SymArr)
        if r.dtype.kind == 'c' and r.ndim:
            return r.astype(object).view(SymArr)
        return r
    if _isinst(r, tuple):
        return tuple(tosym(x) for x in r) if type(r) is tuple else r
    if type(r) is list:
        return [tosym(x) for x in r]
    return r


def _map1(f, a):
    if not _isinst(a, np.ndarray):
        return f(_scalar(a))
    out = np.empty(a.shape, dtype=object)
    o, fl = out.reshape(-1), a.reshape(-1)
    for i in range(fl.size):
        o[i] = f(_scalar(fl[i]))
    return out if a.ndim else out.item()


def _map2(f, a, b):
    if not _isinst(a, np.ndarray) and not _isinst(b, np.ndarray):
        return f(_scalar(a), _scalar(b))
    a = a if _isinst(a, np.ndarray) else _asobj(a)
    b = b if _isinst(b, np.ndarray) else _asobj(b)
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    o = out.reshape(-1)
    for i, (x, y) in enumerate(zip(a.flat, b.flat)):
        o[i] = f(_scalar(x), _scalar(y))
    return out if out.ndim else out.item()


def _asobj(x):
    if _isinst(x, (list, tuple)):
        return np.array(x, dtype=object)
    out = np.empty((), dtype=object)
    out[()] = x
    return out


# ------------------------------------------------------------------ scalar functions
def _cf(name, npf):
    def f(x):
        if _isinst(x, (Sym, SymC)):
            return getattr(x, name)()
        if _isinst(x, SymB):
            x = float(x)
        with np.errstate(all='ignore'):
            return npf(x).item()
    return f


UNARY = {}
for _n in ('exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'exp2', 'sqrt', 'cbrt', 'square', 'sin', 'cos', 'tan',
           'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'deg2rad', 'radians', 'rad2deg', 'degrees',
           'floor', 'fabs', 'sign', 'reciprocal', 'rint'):
    UNARY[_n] = _cf(_n, getattr(np, _n))
UNARY['ceil'] = lambda x: -((-x).floor()) if _isinst(x, Sym) else np.ceil(x).item()
UNARY['trunc'] = lambda x: x.floor() if _isinst(x, Sym) and dag.interval(x.n)[0] >= 0 else _trunc(x)
UNARY['absolute'] = abs
UNARY['negative'] = lambda x: -x
UNARY['conjugate'] = lambda x: x.conjugate()
UNARY['isnan'] = lambda x: False if is_sym(x) else bool(np.isnan(x))
UNARY['isfinite'] = lambda x: True if is_sym(x) else bool(np.isfinite(x))
UNARY['isinf'] = lambda x: False if is_sym(x) else bool(np.isinf(x))
UNARY['logical_not'] = lambda x: not bool(x)


def _trunc(x):
    if _isinst(x, Sym):
        raise Unsupported('trunc of a possibly negative value')
    return float(np.trunc(x))


def _arctan2(y, x):
    return sym.fatan2(y, x)


def _pick(kind):
    def f(x, y):
        if not is_sym(x) and not is_sym(y):
            return getattr(np, kind)(x, y).item()
        if _isinst(x, complex) or _isinst(y, complex) or _isinst(x, SymC) or _isinst(y, SymC):
            raise Unsupported('ordering of complex numbers')
        if not is_sym(y) and y != y or not is_sym(x) and x != x:
            return float('nan')
        a, b = (x, y) if kind == 'maximum' else (-x, -y)
        if not is_sym(b) and math.isinf(b):
            r = b if b > 0 else a
        elif not is_sym(a) and math.isinf(a):
            r = a if a > 0 else b
        else:
            r = b + wrap(dag.relu(dag.sub(lift(a), lift(b))))
        return r if kind == 'maximum' else -r
    return f


def _division(x, y):
    if not is_sym(y) and y == 0:
        if not is_sym(x):
            with np.errstate(all='ignore'):
                return (np.float64(x) / np.float64(y)).item() if not _isinst(x, complex) else complex('nan')
        raise ZeroDivisionError('symbolic / 0')
    return x / y


def _power(x, y):
    if not is_sym(x) and not is_sym(y):
        with np.errstate(all='ignore'):
            if _isinst(x, complex) or _isinst(y, complex):
                return x ** y
            return np.power(float(x), float(y)).item()
    return x ** y


BINARY = {'arctan2': _arctan2, 'maximum': _pick('maximum'), 'minimum': _pick('minimum'),
          'fmax': _pick('maximum'), 'fmin': _pick('minimum'), 'true_divide': _division, 'divide': _division,
          'power': _power, 'float_power': _power,
          'hypot': lambda x, y: UNARY['sqrt'](x * x + y * y),
          'logical_and': lambda x, y: bool(x) and bool(y),
          'logical_or': lambda x, y: bool(x) or bool(y)}


def _copysign(x, y):
    neg = bool(y < 0) if is_sym(y) else bool(np.signbit(y))
    return -abs(x) if neg else abs(x)


def _heaviside(x, h):
    return 0.0 if x < 0 else (1.0 if x > 0 else h)


def _fmod(x, y):
    if not is_sym(x) and not is_sym(y):
        return np.fmod(x, y).item()
    r = (x if x > 0 else -x) % (y if y > 0 else -y)
    return r if x > 0 else -r


BINARY.update(copysign=_copysign, heaviside=_heaviside, fmod=_fmod,
              logaddexp=lambda x, y: UNARY['log'](UNARY['exp'](x) + UNARY['exp'](y)))
UNARY['signbit'] = lambda x: bool(x < 0) if is_sym(x) else bool(np.signbit(x))


class UF:
    """an element-wise numpy function."""

    def __init__(self, name):
        self.real = getattr(np, name)
        self.__name__ = name
        self.nin, self.nout, self.identity = self.real.nin, self.real.nout, self.real.identity
        self.f = (UNARY if self.nin == 1 else BINARY).get(self.real.__name__)

    def elementwise(self, *ins):
        if self.f is None or len(ins) != self.nin:
            return self.real(*[x.view(np.ndarray) if _isinst(x, SymArr) else x for x in ins])
        return (_map1 if self.nin == 1 else _map2)(self.f, *ins)

    def __call__(self, *ins, out=None, where=True, **k):
        if len(ins) > self.nin:
            out, ins = ins[self.nin:], ins[:self.nin]
        ins = [_array(x) if _isinst(x, (list, tuple)) else x for x in ins]
        like = next((x for x in ins if hasattr(x, 'to_numpy')), None)
        if like is not None:
            ins = [x.to_numpy() if hasattr(x, 'to_numpy') else x for x in ins]
        if self.nout == 2:
            return self.pair(*ins)
        if where is True or _isinst(where, (bool, np.bool_)) and where:
            r = self.elementwise(*ins)
        else:
            ins = np.broadcast_arrays(*[x if _isinst(x, np.ndarray) else _asobj(x) for x in list(ins) + [where]])
            mask = _tobool(ins[-1])
            base = out[0] if _isinst(out, tuple) else out
            r = np.empty(mask.shape, dtype=object)
            r[...] = float('nan') if base is None else base
            v = self.elementwise(*[np.array(x[mask], dtype=object) for x in ins[:-1]])
            r[mask] = v
        if like is not None and out is None:
            return _like(like, r)
        if out is not None:
            o = out[0] if _isinst(out, tuple) else out
            if _isinst(o, SymArr):
                o.view(np.ndarray)[...] = r
            else:
                o[...] = r
            return o
        return tosym(r)

    def pair(self, x, y=None):
        if self.__name__ == 'divmod':
            q = UF('floor_divide')(x, y)
            return q, x - q * y
        if self.__name__ == 'modf' and not has_sym(x):
            return tuple(tosym(v) for v in self.real(np.asarray(x).astype(float)))
        raise Unsupported('np.' + self.__name__)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        a = np.asarray(_array(a) if _isinst(a, (list, tuple)) else a)
        if out is not None or where is not True:
            raise Unsupported('np.%s.reduce' % self.__name__)
        if _isinst(axis, tuple):
            if sorted(x % a.ndim for x in axis) != list(range(a.ndim)):
                raise Unsupported('reduction over several axes')
            axis = None
        n = a.ndim
        b = a.reshape(-1) if axis is None else np.moveaxis(a, axis, 0)
        if initial is not None:
            r, k = initial, 0
        elif len(b):
            r, k = b[0], 1
        elif self.identity is not None:
            r, k = self.identity, 0
        else:
            raise ValueError('zero-size array to reduction operation %s which has no identity' % self.__name__)
        for x in b[k:]:
            r = self(r, x)
        if keepdims:
            r = np.reshape(_asobj(r) if is_sym(r) else r, (1,) * n if axis is None else a.shape[:axis % n] + (1,) + a.shape[axis % n + 1:])
        return tosym(r)

    def accumulate(self, a, axis=0, dtype=None, out=None):
        b = np.moveaxis(np.asarray(_array(a)), axis, 0)
        r = [b[0]] if len(b) else []
        for x in b[1:]:
            r.append(self(r[-1], x))
        o = np.empty(b.shape, dtype=object)
        for i, x in enumerate(r):
            o[i] = x
        return tosym(np.moveaxis(o, 0, axis))

    def outer(self, a, b):
        a, b = (np.asarray(_array(x)) if not is_sym(x) else _asobj(x) for x in (a, b))
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, indices, b=None):
        idx = np.asarray(indices)
        if idx.dtype == bool:
            idx = np.nonzero(idx)[0]
        if idx.dtype == object or _isinst(indices, tuple):
            raise Unsupported('np.%s.at' % self.__name__)
        bs = [None] * idx.size if b is None else np.broadcast_to(_asobj(b) if not _isinst(b, np.ndarray) else b, idx.shape).reshape(-1)
        for i, x in zip(idx.reshape(-1), bs):
            a[int(i)] = self(a[int(i)]) if b is None else self(a[int(i)], x)


class Vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if signature is not None:
            raise Unsupported('np.vectorize signature')
        self.f, self.excluded = pyfunc, excluded or set()
        self.__name__ = getattr(pyfunc, '__name__', 'vectorized')

    def __call__(self, *a, **k):
        names = [n for n in k if n not in self.excluded]
        pos = [i for i in range(len(a)) if i not in self.excluded]
        arrs = [a[i] for i in pos] + [k[n] for n in names]
        bc = np.broadcast_arrays(*[np.asarray(_array(x)) if not is_sym(x) else _asobj(x) for x in arrs])
        out = np.empty(bc[0].shape, dtype=object)
        multi = None
        for i in np.ndindex(*out.shape):
            aa, kk = list(a), dict(k)
            for j, b in enumerate(bc):
                v = b[i]
                if j < len(pos):
                    aa[pos[j]] = v
                else:
                    kk[names[j - len(pos)]] = v
            r = self.f(*aa, **kk)
            if _isinst(r, tuple):
                multi = multi or [np.empty(out.shape, dtype=object) for _ in r]
                for o, v in zip(multi, r):
                    o[i] = v
            else:
                out[i] = r.item() if _isinst(r, np.ndarray) and r.size == 1 else r
        return tuple(tosym(o) for o in multi) if multi else tosym(out)


def _gradient(f, *x, axis=None, edge_order=1):
    f = _asarray(f)
    if f.ndim != 1 or edge_order != 1 or len(x) > 1:
        raise Unsupported('np.gradient')
    n = len(f)
    h = x[0] if x else 1.0
    h = [h] * (n - 1) if np.ndim(h) == 0 else [h[i + 1] - h[i] for i in range(n - 1)]
    r = [(f[1] - f[0]) / h[0]]
    for i in range(1, n - 1):
        a, b = h[i - 1], h[i]
        r.append((a * a * f[i + 1] + (b * b - a * a) * f[i] - b * b * f[i - 1]) / (a * b * (a + b)))
    return obj(r + [(f[-1] - f[-2]) / h[-1]])


def _total(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
    a = _asarray(a)
    if where is not True:
        a = _where(where, a, 0.0)
    if out is not None:
        raise Unsupported('np.sum out')
    r = np.sum(a.view(np.ndarray) if _isinst(a, SymArr) else a, axis=axis, keepdims=keepdims)
    return tosym(r + initial if is_sym(initial) or initial != 0 else r)


def _nditer(a, *r, **k):
    if r or k:
        raise Unsupported('np.nditer')
    for x in np.asarray(_array(a)).reshape(-1):
        yield _asobj(x).view(SymArr)


# ------------------------------------------------------------------ numpy shim
class Float(float):
    """replacement for the `float` builtin in the code under test."""
    dtype = np.dtype(np.float64)

    def __new__(cls, x=0.0):
        if _isinst(x, np.ndarray) and x.size == 1:
            x = x.item()
        if _isinst(x, Sym):
            return x
        if _isinst(x, SymB):
            return _float(x)
        if _isinst(x, str):
            from . import text
            r = text.to_float(x)
            if r is not None:
                return r
        return _float(x)


class Complex(complex):
    dtype = np.dtype(np.complex128)

    def __new__(cls, re=0.0, im=0.0):
        re = re.item() if _isinst(re, np.ndarray) and re.size == 1 else re
        im = im.item() if _isinst(im, np.ndarray) and im.size == 1 else im
        if _isinst(re, (Sym, SymC)) or _isinst(im, (Sym, SymC)):
            if _isinst(re, (SymC, complex)):
                return re + SymC(0.0, 1.0) * im if is_sym(im) or im != 0 else re
            return mkc(re, im)
        return complex(re, im)


FLOAT_TYPES = (float, np.floating, np.float64, np.float32, np.number, np.inexact, Float, np.generic)


def _sym_isinstance(x, cls):
    if _isinst(x, (Sym, SymC)):
        import numbers
        cl = _flat(cls)
        for c in cl:
            if c in (Sym, SymC):
                if _isinst(x, c):
                    return True
            elif _isinst(x, Sym) and (c in FLOAT_TYPES or c in (numbers.Number, numbers.Real, numbers.Complex)):
                return True
            elif _isinst(x, SymC) and (c in (complex, Complex, np.complexfloating, np.complex128, np.number, np.generic, numbers.Number)):
                return True
            elif c is object:
                return True
        return False
    if cls is Float:
        return _isinst(x, float)
    if cls is Complex:
        return _isinst(x, complex)
    if _isinst(cls, tuple) and (Float in cls or Complex in cls):
        return any(_sym_isinstance(x, c) for c in cls)
    return _isinst(x, cls)


def _flat(c):
    if _isinst(c, tuple):
        return [y for x in c for y in _flat(x)]
    if _isinst(c, types.UnionType):
        return list(c.__args__)
    return [c]


def _real_dtype(d):
    if d is None or d is Float or d is Complex:
        return True
    try:
        return np.dtype(d).kind in 'fcO'
    except TypeError:
        return False


def _alloc(kind):
    real = getattr(np, kind)

    def f(shape, *a, **k):
        if kind == 'full':
            dtype = k.get('dtype', a[1] if len(a) > 1 else None)
            v = a[0] if a else k['fill_value']
            if dtype is None and _isinst(v, (bool, int, str)) and not _isinst(v, float):
                return tosym(real(shape, *a, **k))
            if _real_dtype(dtype):
                o = np.empty(shape, dtype=object)
                o[...] = v
                return o.view(SymArr)
            return real(shape, *a, **k)
        dtype = k.get('dtype', a[0] if a else None)
        if not _real_dtype(dtype):
            return real(shape, *a, **k)
        return np.array(getattr(np, 'ones' if kind == 'ones' else 'zeros')(shape), dtype=object).view(SymArr)
    return f


def _alloc_like(kind):
    def f(x, *a, **k):
        dtype = k.get('dtype')
        k2 = {} if dtype is None else {'dtype': dtype}
        shape = k.get('shape', np.shape(x))
        xa = np.asarray(x) if not is_sym(x) else None
        if dtype is None and xa is not None and xa.dtype.kind in 'iub':
            return getattr(np, kind + '_like')(x, *a, **k)
        if kind == 'full':
            return _alloc('full')(shape, *a, **k2)
        r = _alloc(kind)(shape, **k2)
        return r
    return f


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    if _isinst(x, np.ndarray) and not _isinst(x, SymArr) and x.dtype.kind not in 'fcO':
        if _real_dtype(dtype) and dtype is not None:
            return x.astype(object).view(SymArr)
        return np.array(x, dtype=dtype, copy=copy)
    if dtype is not None and not _real_dtype(dtype):
        if has_sym(x):
            if np.dtype(dtype).kind in 'iu':
                return tosym(np.array(x, dtype=object)).astype(dtype)
            if np.dtype(dtype).kind == 'b':
                return _tobool(np.array(x, dtype=object))
        return np.array(x, dtype=dtype)
    if is_sym(x):
        if ndmin:
            return obj([x])
        return x
    if has_sym(x):
        o = np.array(x, dtype=object)
        r = tosym(o.copy() if copy else o)
    else:
        r = np.array(x) if dtype in (None, Float, Complex) else np.array(x, dtype=None if np.dtype(dtype).kind == 'O' else dtype)
        if dtype is Float:
            r = r.astype(float)
        r = tosym(r)
    if ndmin and np.ndim(r) < ndmin:
        r = r.reshape((1,) * (ndmin - np.ndim(r)) + r.shape)
    return r


def _asarray(x, dtype=None, *a, **k):
    if _isinst(x, SymArr) and (dtype is None or _real_dtype(dtype)):
        return x
    return _array(x, dtype=dtype)


def _dot(a, b, out=None):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return tosym(np.multiply(a, b)) if (_isinst(a, np.ndarray) or _isinst(b, np.ndarray)) else a * b
    return tosym(np.dot(np.asarray(a).astype(object), np.asarray(b).astype(object)))


def _where(c, *xy):
    if not xy:
        return _nonzero(c)
    c2 = bool(c) if np.ndim(c) == 0 else _tobool(np.asarray(c))
    x, y = xy
    if has_sym(x) or has_sym(y) or _isinst(x, SymArr) or _isinst(y, SymArr):
        x = np.asarray(x, dtype=object) if not is_sym(x) else _asobj(x)
        y = np.asarray(y, dtype=object) if not is_sym(y) else _asobj(y)
    r = tosym(np.where(c2, x, y))
    return np.float64(r) if type(r) in (float, int) else r


def _select(condlist, choicelist, default=0):
    if len(condlist) != len(choicelist):
        raise ValueError('list of cases must be same length as list of conditions')
    if not has_sym(condlist) and not has_sym(choicelist) and not has_sym(default):
        return tosym(np.select([_unview(c) if not _isinst(c, np.ndarray) else _tobool(c) for c in condlist], [_unview(x) for x in choicelist], default))
    shape = np.broadcast_shapes(*[np.shape(x) for x in list(condlist) + list(choicelist) + [default]])
    cs, xs = ([np.broadcast_to(np.asarray(x) if not is_sym(x) else _asobj(x), shape) for x in l] for l in (condlist, list(choicelist) + [default]))
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        k = next((k for k, c in enumerate(cs) if bool(c[i])), -1)
        out[i] = xs[k][i]
    return tosym(out)


def _piecewise(x, condlist, funclist, *a, **k):
    x = _asarray(x)
    if not _isinst(condlist, (list, tuple)) or condlist and np.ndim(x) and np.ndim(condlist[0]) == 0:
        condlist = [condlist] if not _isinst(condlist, (list, tuple)) else [np.asarray(condlist)]
    conds = [np.broadcast_to(_tobool(np.asarray(c) if not is_sym(c) else _asobj(c)), np.shape(x)) for c in condlist]
    if len(funclist) == len(conds) + 1:
        other = np.ones(np.shape(x), dtype=bool)
        for c in conds:
            other = other & ~c
        conds.append(other)
    elif len(funclist) != len(conds):
        raise ValueError('with {} condition(s), either {} or {} functions are expected'.format(len(conds), len(conds), len(conds) + 1))
    out = np.zeros(np.shape(x), dtype=object)
    flat = np.asarray(x, dtype=object)
    for c, f in zip(conds, funclist):
        if not c.any():
            continue
        v = f(flat[c].view(SymArr), *a, **k) if callable(f) else f
        out[c] = np.asarray(v, dtype=object) if not is_sym(v) else _asobj(v)
    return tosym(out)


def _digitize(x, bins, right=False):
    if not has_sym(x) and not has_sym(bins):
        return np.digitize(np.asarray(x).astype(float) if np.asarray(x).dtype == object else x, np.asarray(bins, dtype=float), right)
    b = list(np.asarray(bins, dtype=object))
    if len(b) > 1 and bool(b[0] > b[-1]):
        raise Unsupported('np.digitize with decreasing bins')
    return _searchsorted(bins, x, 'left' if right else 'right')


def _nonzero(c):
    if is_sym(c):
        c = [c]
    a = np.asarray(c)
    if a.dtype == object:
        a = np.array([bool(x != 0) if not _isinst(x, (bool, np.bool_, SymB)) else bool(x) for x in a.flat],
                     dtype=bool).reshape(a.shape)
    return np.nonzero(a)


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('np.interp period')
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return tosym(np.interp(np.asarray(x, float), np.asarray(xp, float), np.asarray(fp, float), left, right))
    xp, fp = list(xp), list(fp)

    def one(v):
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        for i in range(len(xp) - 1):
            if v < xp[i + 1]:
                return fp[i] + (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i]) * (v - xp[i])
        return fp[-1]
    if np.ndim(x) == 0:
        return one(_scalar(x if not _isinst(x, np.ndarray) else x.item()))
    return obj([one(_scalar(v)) for v in x])


def _maxlike(better):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        if out is not None or where is not True:
            raise Unsupported('np.%s out/where' % better)
        a = np.asarray(a) if not is_sym(a) else a
        if is_sym(a):
            return a
        if a.dtype != object and not is_sym(initial):
            k = {} if initial is None else dict(initial=initial)
            return (np.max if better == 'max' else np.min)(a, axis=axis, keepdims=keepdims, **k)
        if axis is not None:
            r = np.apply_along_axis(lambda v: _asobj(f(v, initial=initial)), axis, a)
            return tosym(np.expand_dims(r, axis) if keepdims else r)
        it = ([] if initial is None else [initial]) + list(a.flat)
        if keepdims:
            return tosym(np.reshape(_asobj(f(it)), (1,) * a.ndim))
        r = it[0]
        pk = _pick('maximum' if better == 'max' else 'minimum')
        for v in it[1:]:
            if is_sym(v) or is_sym(r):
                if (v > r) if better == 'max' else (v < r):
                    r = v
            else:
                r = pk(r, v)
        return r
    return f


def _any(a, axis=None, **k):
    return SymArr.any(obj(a) if not is_sym(a) else obj([a]), axis)


def _all(a, axis=None, **k):
    return SymArr.all(obj(a) if not is_sym(a) else obj([a]), axis)


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def one(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(x, y, rtol, atol, equal_nan))
        return bool(abs(x - y) <= atol + rtol * abs(y))
    return tosym(_map2(one, _asarray(a), _asarray(b)))


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(_isclose(a, b, rtol, atol, equal_nan)))


def _mean(a, axis=None, **k):
    a = _asarray(a)
    if is_sym(a):
        return a
    if a.dtype != object:
        return tosym(np.mean(a, axis=axis, **k))
    return a.mean(axis=axis)


def _reim(part):
    def f(x):
        if _isinst(x, np.ndarray):
            return tosym(_map1(lambda v: getattr(v, part), x.view(np.ndarray)))
        if is_sym(x):
            return getattr(x, part)
        return getattr(np, part)(x)
    return f


def _cum(f):
    def g(a, axis=None, **k):
        return tosym(f(_asarray(a).view(np.ndarray), axis=axis))
    return g


def _like(series, values):
    return type(series)(list(values), index=series.index, name=getattr(series, 'name', None))


def _round(x, decimals=0, **k):
    if hasattr(x, 'to_numpy'):
        return _like(x, _round(x.to_numpy(), decimals))
    if _isinst(x, Sym):
        return x.round(decimals)
    if has_sym(x):
        return tosym(_map1(lambda e: e.round(decimals) if _isinst(e, Sym) else round(e, decimals), np.asarray(x, dtype=object)))
    if _isinst(x, SymArr):
        return tosym(np.round(x.view(np.ndarray).astype(float), decimals))
    return np.round(x, decimals)


def _polyval(p, x):
    r = 0.0
    for c in list(p):
        r = r * x + c
    return r


def _searchsorted(a, v, side='left', sorter=None):
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(np.asarray(a).astype(float) if np.asarray(a).dtype == object else a, v, side, sorter)

    def one(x):
        k = 0
        for y in list(a):
            if (y < x) if side == 'left' else (y <= x):
                k += 1
            else:
                break
        return k
    return one(v) if np.ndim(v) == 0 else np.array([one(x) for x in v])


def _gradientless(name):
    def f(*a, **k):
        raise Unsupported('np.' + name)
    return f


def _arange(*a, **k):
    if not any(has_sym(x) for x in a) and not any(has_sym(x) for x in k.values()):
        return tosym(np.arange(*[_unview(x) for x in a], **k))
    start, step = 0.0, k.get('step', 1.0)
    if len(a) == 1 and 'stop' not in k:
        stop = a[0]
    else:
        start, stop = k.get('start', a[0] if a else 0.0), k.get('stop', a[1] if len(a) > 1 else None)
        if len(a) > 2:
            step = a[2]
    up = bool(step > 0)
    out, v = [], start
    while bool(v < stop) if up else bool(v > stop):
        out.append(v)
        v = start + len(out) * step
        if len(out) > 2000:
            raise Unsupported('arange')
    r = np.empty(len(out), dtype=object)
    r[:] = out
    return r.view(SymArr)


def _linspace(start, stop, num=50, endpoint=True, **k):
    if not has_sym(start) and not has_sym(stop) or k:
        return tosym(np.linspace(_unview(start), _unview(stop), num, endpoint, **k))
    n = num - 1 if endpoint else num
    r = np.empty(num, dtype=object)
    r[:] = [start + (stop - start) * (i / n) if n else start for i in range(num)]
    return r.view(SymArr)


def _nanfun(name, kind):
    real = getattr(np, name)

    def f(a, *r, **k):
        if has_sym(a):
            return kind(a, *r, **k)
        return tosym(real(np.asarray(a).astype(float), *r, **k))
    return f


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        o = {}
        for n in dir(np):
            if _isinst(getattr(np, n), np.ufunc):
                o[n] = UF(n)
        o['fix'] = o['trunc']
        o['around'] = o['round'] = o['round_'] = _round
        for n in ('zeros', 'ones', 'empty', 'full'):
            o[n] = _alloc(n)
            o[n + '_like'] = _alloc_like(n)
        o.update(array=_array, asarray=_asarray, asanyarray=_asarray, ascontiguousarray=_asarray, copy=lambda a, **k: _array(a),
                 dot=_dot, matmul=_dot, where=_where, nonzero=_nonzero, flatnonzero=lambda c: _nonzero(np.ravel(c))[0],
                 interp=_interp, max=_maxlike('max'), min=_maxlike('min'), amax=_maxlike('max'), amin=_maxlike('min'),
                 nanmax=_maxlike('max'), nanmin=_maxlike('min'),
                 any=_any, all=_all, isclose=_isclose, allclose=_allclose, mean=_mean, average=self._avg,
                 real=_reim('real'), imag=_reim('imag'), cumsum=_cum(np.cumsum), cumprod=_cum(np.cumprod),
                 argmax=lambda a, axis=None, **k: np.argmax(a) if np.asarray(a).dtype != object else SymArr.argmax(obj(a)),
                 argmin=lambda a, axis=None, **k: np.argmin(a) if np.asarray(a).dtype != object else SymArr.argmin(obj(a)),
                 arange=_arange, linspace=_linspace, polyval=_polyval, searchsorted=_searchsorted, vectorize=Vectorize, gradient=_gradient, sum=_total, nditer=_nditer,
                 fromiter=lambda it, dtype=None, count=-1, **k: obj(list(it)), select=_select, piecewise=_piecewise, digitize=_digitize,
                 float64=Float, float32=Float, float_=Float, double=Float, complex128=Complex,
                 iscomplexobj=lambda x: has_sym(x) and any(_isinst(e, SymC) for e in np.asarray(x, dtype=object).flat))
        self._o = o

    @staticmethod
    def _avg(a, axis=None, weights=None, **k):
        if weights is None:
            return _mean(a, axis)
        a, w = _asarray(a), _asarray(weights)
        return (a * w).sum(axis=axis) / w.sum(axis=axis)

    def __getattr__(self, name):
        o = self.__dict__['_o']
        if name in o:
            return o[name]
        real = getattr(np, name)
        if _isinst(real, type) or not callable(real) or _isinst(real, types.ModuleType):
            return real
        if name in ('errstate', 'seterr', 'set_printoptions', 'dtype', 'load', 'save', 'loadtxt', 'savetxt', 'genfromtxt', 'datetime64'):
            if name in ('loadtxt', 'genfromtxt', 'load'):
                return lambda *a, **k: tosym(real(*a, **k))
            return real

        def g(*a, **k):
            a = [_unview(x) for x in a]
            k = {x: _unview(y) for x, y in k.items()}
            return tosym(real(*a, **k))
        g.__name__ = name
        return g


def _unview(x):
    if _isinst(x, SymArr):
        return x.view(np.ndarray)
    if type(x) in (list, tuple):
        return type(x)(_unview(y) for y in x)
    return x


class MathShim(types.ModuleType):
    M = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'fabs': 'fabs'}

    def __init__(self):
        super().__init__('math')

    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real):
            return real
        key = self.M.get(name, name)

        def g(*a):
            a = [x.item() if _isinst(x, np.ndarray) and x.size == 1 else x for x in a]
            if not any(has_sym(x) for x in a):
                return real(*a)
            if name == 'floor':
                return int(a[0])
            if name == 'log' and len(a) == 2:
                return UNARY['log'](a[0]) / UNARY['log'](a[1])
            if name == 'pow':
                return a[0] ** a[1]
            if name == 'atan2':
                return _arctan2(*a)
            if name == 'hypot':
                return BINARY['hypot'](*a)
            if name in ('copysign', 'fmod'):
                return BINARY[name](*a)
            if name == 'dist':
                return UNARY['sqrt'](sum((x - y) * (x - y) for x, y in zip(*a)))
            if name in ('isnan', 'isinf'):
                return False
            if name == 'isfinite':
                return True
            if name == 'isclose':
                return bool(abs(a[0] - a[1]) <= 1e-9 * BINARY['maximum'](abs(a[0]), abs(a[1])))
            if name == 'fsum' or name == 'prod':
                return sum(a[0]) if name == 'fsum' else np.prod(a[0])
            if key in UNARY:
                return UNARY[key](a[0])
            raise Unsupported('math.' + name)
        return g


class CmathShim(types.ModuleType):
    def __init__(self):
        super().__init__('cmath')

    def __getattr__(self, name):
        import cmath
        real = getattr(cmath, name)
        if not callable(real):
            return real

        def g(*a):
            if not any(is_sym(x) for x in a):
                return real(*a)
            x = a[0] if _isinst(a[0], SymC) else SymC(a[0], 0.0)
            if name in ('sqrt', 'exp', 'log') and len(a) == 1:
                return getattr(x, name)()
            raise Unsupported('cmath.' + name)
        return g


def patch_pandas():
    """numeric methods of pandas objects whose columns hold symbolic values."""
    pd = sys.modules.get('pandas')
    if pd is None or getattr(pd, '_symx', False):
        return
    pd._symx = True

    def symbolic(o):
        cols = [o] if o.ndim == 1 else [o.iloc[:, i] for i in range(o.shape[1])]
        return any(c.dtype == object and any(is_sym(x) for x in c.values) for c in cols)

    def columnwise(f):
        def g(self, *a, **k):
            if not symbolic(self):
                return real[f.__name__, self.ndim](self, *a, **k)
            if self.ndim == 1:
                return f(self, *a, **k)
            arg = a[0] if a else next(iter(k.values()), None)
            r = self.copy()
            for c in self.columns:
                if isinstance(arg, dict):
                    if c in arg:
                        r[c] = getattr(self[c], f.__name__)(arg[c])
                else:
                    r[c] = getattr(self[c], f.__name__)(*a, **k)
            return r
        g.__name__ = f.__name__
        return g

    def round(self, decimals=0, *a, **k):
        return pd.Series([x if _isinst(x, str) else _round(x, decimals) for x in self.values], index=self.index, name=self.name, dtype=object)

    def astype(self, dtype, *a, **k):
        if dtype in (float, Float, 'float', 'float64', np.float64, object, 'O'):
            return self.copy()
        if dtype in (int, 'int', 'int64', np.int64):
            return pd.Series([int(x) for x in self.values], index=self.index, name=self.name)
        return real['astype', 1](self, dtype, *a, **k)

    def clip(self, lower=None, upper=None, *a, **k):
        pick = lambda x: x if lower is None or x != x else BINARY['maximum'](x, lower)
        cap = lambda x: x if upper is None or x != x else BINARY['minimum'](x, upper)
        return pd.Series([cap(pick(x)) for x in self.values], index=self.index, name=self.name, dtype=object)

    real = {}
    for f in (round, astype, clip):
        for cls in (pd.Series, pd.DataFrame):
            real[f.__name__, 1 if cls is pd.Series else 2] = getattr(cls, f.__name__)
            setattr(cls, f.__name__, columnwise(f))
    to_numeric = pd.to_numeric
    pd.to_numeric = lambda x, *a, **k: x if has_sym(getattr(x, 'values', x)) else to_numeric(x, *a, **k)


NP = NumpyShim()
MATH = MathShim()
CMATH = CmathShim()


class DatetimeShim(types.ModuleType):
    def __init__(self):
        super().__init__('datetime')

    def __getattr__(self, name):
        import datetime
        if name == 'datetime':
            from . import text
            return text.DateTime
        return getattr(datetime, name)


SHIMS = {'numpy': NP, 'math': MATH, 'cmath': CMATH, 'datetime': DatetimeShim()}
_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in SHIMS:
            return SHIMS[name]
        if name.split('.')[0] == 'numpy':
            m = _real_import(name, globals, locals, fromlist, level)
            return m if fromlist else NP
    return _real_import(name, globals, locals, fromlist, level)


def _sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(__import__=_import, isinstance=_sym_isinstance, float=Float, complex=Complex, sum=_sum)


class Loader(importlib.abc.Loader):
    def __init__(self, path, fullname):
        self.path, self.fullname = path, fullname

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as fh:
            src = fh.read()
        module.__dict__['__builtins__'] = BUILTINS
        if self.fullname.startswith('pyrtlib.apiwebservices'):
            from . import text
            module.__dict__['__builtins__'] = dict(BUILTINS, int=text.Int)
        code = compile(src, self.path, 'exec')
        LOADED[self.fullname] = self.path
        exec(code, module.__dict__)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'pyrtlib' and not fullname.startswith('pyrtlib.'):
            return None
        p = os.path.join(self.repo, *fullname.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, fullname), submodule_search_locations=[p])
        f = p + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f, fullname))
        return None


def install(repo='/repo'):
    for k in [k for k in sys.modules if k == 'pyrtlib' or k.startswith('pyrtlib.')]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder(repo))
