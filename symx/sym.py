"""Symbolic scalars (real, complex, boolean) and the path engine."""
import math
import numbers
import numpy as np
from . import dag

_real_isinstance = isinstance


class PathEnd(BaseException):
    """The current path is infeasible or cut by an assumption."""


class Unsupported(Exception):
    """The symbolic executor cannot model this operation."""


class Engine:
    cur = None

    def __init__(self, solver, max_decisions=4000):
        self.solver = solver
        self.prefix = []
        self.max_decisions = max_decisions
        self.begin(())

    def begin(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []      # (kind, value)
        self.path = []           # list of SymB-trees known true
        self.known = {}          # key -> bool
        self.new_work = []
        self.choices = {}        # name -> value
        self.choice_idx = {}
        self.defined = []        # trees assumed by definedness (denominator != 0 ...)
        self.branch_queries = 0

    # -- branching -----------------------------------------------------
    def branch(self, t):
        """t: boolean tree. Returns a Python bool, forking if both are feasible."""
        k = tkey(t)
        if k in self.known:
            return self.known[k]
        q = teval_iv(t)
        if q is not None:
            return q
        i = len(self.decisions)
        if i < len(self.prefix):
            val = self.prefix[i]
        else:
            if i >= self.max_decisions:
                raise Unsupported('more than %d decisions on one path' % self.max_decisions)
            self.branch_queries += 1
            can_t = self.solver.feasible(self.path, t)
            can_f = self.solver.feasible(self.path, tnot(t))
            if can_t and can_f:
                self.new_work.append(list(self.decisions) + [False])
                val = True
            elif can_t:
                val = True
            elif can_f:
                val = False
            else:
                raise PathEnd('infeasible')
        self.decisions.append(val)
        self._learn(t, val)
        return val

    def _learn(self, t, val):
        tt = t if val else tnot(t)
        self.path.append(tt)
        self.known[tkey(t)] = val
        self.known[tkey(tnot(t))] = not val

    def choose(self, name, options):
        i = len(self.decisions)
        if name in self.choices:
            return self.choices[name]
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for j in range(1, len(options)):
                self.new_work.append(list(self.decisions) + [j])
        self.decisions.append(k)
        self.choices[name] = options[k]
        self.choice_idx[name] = k
        return options[k]

    def concretize(self, node, what='int'):
        """fork over the integer values of trunc(node)."""
        lo, hi = dag.interval(node)
        if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 500:
            raise Unsupported('int() of an unbounded symbolic value')
        for k in range(math.floor(lo), math.floor(hi) + 1):
            # int() truncates towards zero
            if k >= 0:
                a, b = k, k + 1
            else:
                raise Unsupported('int() of a possibly negative symbolic value')
            if self.branch(('lt', dag.sub(node, dag.const(b)))):
                if k == math.floor(lo):
                    return k
                return k
        raise PathEnd('int')

    def assume(self, t):
        q = teval_iv(t)
        if q is True:
            return
        k = tkey(t)
        if self.known.get(k) is True:
            return
        if q is False or self.known.get(k) is False:
            raise PathEnd('assumption false')
        self._learn(t, True)
        if not self.solver.feasible(self.path[:-1], t):
            raise PathEnd('assumption infeasible')

    def define(self, t, n):
        """node n is meaningful only where t holds."""
        q = teval_iv(t)
        if q is True:
            return
        self.defined.append((t, n))


def eng():
    if Engine.cur is None:
        raise Unsupported('no engine')
    return Engine.cur


# ------------------------------------------------------------ boolean trees
# ('lt',n) n<0 ; ('le',n) n<=0 ; ('eq',n) n==0 ; ('ne',n) ; ('and',a,b..) ; ('or',a,b..) ; ('const',bool)
def tkey(t):
    if t[0] in ('lt', 'le', 'eq', 'ne'):
        return (t[0], t[1].id)
    if t[0] == 'const':
        return t
    return (t[0],) + tuple(tkey(x) for x in t[1:])


def tnot(t):
    o = t[0]
    if o == 'lt':
        return ('le', dag.neg(t[1]))
    if o == 'le':
        return ('lt', dag.neg(t[1]))
    if o == 'eq':
        return ('ne', t[1])
    if o == 'ne':
        return ('eq', t[1])
    if o == 'const':
        return ('const', not t[1])
    return ('or' if o == 'and' else 'and',) + tuple(tnot(x) for x in t[1:])


def teval_iv(t):
    o = t[0]
    if o == 'const':
        return t[1]
    if o in ('and', 'or'):
        vs = [teval_iv(x) for x in t[1:]]
        if o == 'and':
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if any(v is True for v in vs):
            return True
        return False if all(v is False for v in vs) else None
    lo, hi = dag.interval(t[1])
    if o == 'lt':
        return True if hi < 0 else (False if lo >= 0 else None)
    if o == 'le':
        return True if hi <= 0 else (False if lo > 0 else None)
    if o == 'eq':
        return False if (lo > 0 or hi < 0) else (True if lo == hi == 0 else None)
    if o == 'ne':
        return True if (lo > 0 or hi < 0) else (False if lo == hi == 0 else None)
    raise ValueError(o)


def tnodes(t):
    if t[0] in ('lt', 'le', 'eq', 'ne'):
        return [t[1]]
    if t[0] == 'const':
        return []
    return [n for x in t[1:] for n in tnodes(x)]


def teval_num(t, vals, tol=0.0):
    """vals: id -> numpy array. Returns boolean array."""
    o = t[0]
    if o == 'const':
        return np.asarray(t[1])
    if o == 'and':
        r = teval_num(t[1], vals, tol)
        for x in t[2:]:
            r = r & teval_num(x, vals, tol)
        return r
    if o == 'or':
        r = teval_num(t[1], vals, tol)
        for x in t[2:]:
            r = r | teval_num(x, vals, tol)
        return r
    v = vals[t[1].id]
    with np.errstate(all='ignore'):
        if o == 'lt':
            return v < 0
        if o == 'le':
            return v <= tol
        if o == 'eq':
            return np.abs(v) <= tol
        return v != 0


# ------------------------------------------------------------------ scalars
def lift(x):
    """python/numpy scalar or Sym -> dag node; None if not a real scalar."""
    if _real_isinstance(x, Sym):
        return x.n
    if _real_isinstance(x, SymB):
        return dag.const(1.0 if bool(x) else 0.0)
    if _real_isinstance(x, (bool, np.bool_)):
        return dag.const(float(x))
    if _real_isinstance(x, (int, float, np.integer, np.floating)):
        return dag.const(float(x))
    if _real_isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def wrap(n):
    return n.val if n.op == 'c' else Sym(n)


def _bin(f):
    def op(self, o):
        if _real_isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if _real_isinstance(o, SymC):
            return NotImplemented
        if _real_isinstance(o, (complex, np.complexfloating)):
            g = CFUN.get(f)
            return NotImplemented if g is None else g(SymC(self, 0.0), SymC(*cparts(o)))
        b = lift(o)
        if b is None:
            return NotImplemented
        if b.op == 'c' and b.val != b.val:
            return b.val
        return wrap(f(self.n, b))
    return op


CFUN = {}           # real operation -> complex operation


def _rbin(f):
    def op(self, o):
        if _real_isinstance(o, SymC):
            return NotImplemented
        if _real_isinstance(o, (complex, np.complexfloating)):
            g = CFUN.get(f)
            return NotImplemented if g is None else g(SymC(*cparts(o)), SymC(self, 0.0))
        b = lift(o)
        if b is None:
            return NotImplemented
        if b.op == 'c' and b.val != b.val:
            return b.val
        return wrap(f(b, self.n))
    return op


def _div(a, b):
    if b.op != 'c' and Engine.cur is not None:
        Engine.cur.define(('ne', b), dag.power(b, -1.0))
    return dag.div(a, b)


def _pow(a, b):
    if b.op == 'c':
        c = b.val
        if c < 0 and a.op != 'c' and Engine.cur is not None:
            Engine.cur.define(('ne', a), dag.power(a, c))
        if not float(c).is_integer() and Engine.cur is not None:
            Engine.cur.define(('le', dag.neg(a)), dag.power(a, c))
        return dag.power(a, c)
    if a.op == 'c':
        if a.val <= 0:
            raise Unsupported('%r ** symbolic' % a.val)
        if a.val == 1.0:
            return a
        return dag.fn('exp', dag.mul(dag.const(math.log(a.val)), b))
    return dag.fn('exp', dag.mul(b, _log(a)))


def _log(a):
    if a.op != 'c' and Engine.cur is not None:
        Engine.cur.define(('lt', dag.neg(a)), dag.fn('log', a))
    return dag.fn('log', a)


def is_int(n):
    """the node is integer valued by construction."""
    if n.op == 'c':
        return n.val == math.floor(n.val)
    if n.op == 'floor':
        return True
    return n.op in ('+', '*', 'add', 'mul', 'neg', 'sub') and all(is_int(a) for a in n.args)


def _cmp(kind):
    def op(self, o):
        if _real_isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        b = lift(o)
        if b is None:
            if _real_isinstance(o, (complex, SymC)):
                raise Unsupported('comparison with a complex number')
            if kind == 'eq':
                return False
            if kind == 'ne':
                return True
            return NotImplemented
        if b.op == 'c' and not math.isfinite(b.val):
            if b.val != b.val:
                return kind == 'ne'
            pos = b.val > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[kind]
        a = self.n
        t = {'lt': lambda: ('lt', dag.sub(a, b)), 'le': lambda: ('le', dag.sub(a, b)),
             'gt': lambda: ('lt', dag.sub(b, a)), 'ge': lambda: ('le', dag.sub(b, a)),
             'eq': lambda: ('eq', dag.sub(a, b)), 'ne': lambda: ('ne', dag.sub(a, b))}[kind]()
        q = teval_iv(t)
        if q is not None:
            return q
        return SymB(t)
    return op


PRINTED = []
HASHABLE = []         # non-empty while symbolic values may be put into hash tables (identity only)


class Sym:
    """A symbolic real scalar that also answers to the numpy-scalar protocol."""
    __slots__ = ('n',)
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def __init__(self, n):
        self.n = n

    __add__ = _bin(dag.add)
    __radd__ = _rbin(dag.add)
    __sub__ = _bin(dag.sub)
    __rsub__ = _rbin(dag.sub)
    __mul__ = _bin(dag.mul)
    __rmul__ = _rbin(dag.mul)
    __truediv__ = _bin(_div)
    __rtruediv__ = _rbin(_div)
    __pow__ = _bin(_pow)
    __rpow__ = _rbin(_pow)
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')
    def __hash__(self):
        if not HASHABLE:
            raise TypeError("unhashable type: 'Sym'")
        return id(self.n)

    def __floordiv__(self, o):
        return (self / o).floor()

    def __mod__(self, o):
        return self - (self / o).floor() * o

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - q * o

    def __rfloordiv__(self, o):
        return (o / self).floor()

    def __rmod__(self, o):
        return o - (o / self).floor() * self

    def __rdivmod__(self, o):
        q = (o / self).floor()
        return q, o - q * self

    def __neg__(self):
        return wrap(dag.neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(dag.fn('abs', self.n))

    def __bool__(self):
        return eng().branch(('ne', self.n))

    def __int__(self):
        return eng().concretize(self.n)

    __trunc__ = __int__

    def __index__(self):
        raise TypeError('a symbolic real cannot be used as an index')

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __repr__(self):
        return 'Sym(%r)' % (self.n,)

    def __str__(self):
        return self.__format__('') if is_int(self.n) else repr(self)

    def __format__(self, spec):
        if is_int(self.n):
            import re
            from . import text
            m = re.fullmatch('(?:0(\\d+))?d?', spec)
            if m and (not spec or spec.endswith('d')):
                neg = self < 0
                a = -self if neg else self
                w = 1
                while a >= 10.0 ** w:
                    w += 1
                return '-' * neg + text.digits(a, max(w, int(m.group(1) or 0) - neg))
        PRINTED.append(self.n)
        return '<#%d:%s>' % (len(PRINTED) - 1, spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __iter__(self):
        raise TypeError('iteration over a 0-d value')

    # numpy-scalar protocol
    def exp(self):
        return wrap(dag.fn('exp', self.n))

    def log(self):
        return wrap(_log(self.n))

    def log10(self):
        return wrap(dag.mul(dag.const(1 / math.log(10.0)), _log(self.n)))

    def log2(self):
        return wrap(dag.mul(dag.const(1 / math.log(2.0)), _log(self.n)))

    def log1p(self):
        return (self + 1.0).log()

    def expm1(self):
        return self.exp() - 1.0

    def exp2(self):
        return 2.0 ** self

    def sqrt(self):
        return wrap(_pow(self.n, dag.const(0.5)))

    def cbrt(self):
        return wrap(_pow(self.n, dag.const(1.0 / 3)))

    def square(self):
        return self ** 2

    def reciprocal(self):
        return 1.0 / self

    def sin(self):
        return wrap(dag.fn('sin', self.n))

    def cos(self):
        return wrap(dag.fn('cos', self.n))

    def tan(self):
        return wrap(dag.fn('tan', self.n))

    def arcsin(self):
        return wrap(dag.fn('asin', self.n))

    def arccos(self):
        return wrap(dag.fn('acos', self.n))

    def arctan(self):
        return wrap(dag.fn('atan', self.n))

    def sinh(self):
        return (self.exp() - (-self).exp()) / 2.0

    def cosh(self):
        return (self.exp() + (-self).exp()) / 2.0

    def tanh(self):
        return self.sinh() / self.cosh()

    def arctan2(self, o):
        return wrap(dag.atan2(self.n, lift(o)))

    def hypot(self, o):
        return (self ** 2 + o ** 2) ** 0.5

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def floor(self):
        return wrap(dag.fn('floor', self.n))

    __floor__ = floor

    def fabs(self):
        return abs(self)

    absolute = fabs

    def sign(self):
        if self > 0:
            return 1.0
        return -1.0 if self < 0 else 0.0

    def rint(self):
        return (self + 0.5).floor()     # half-way cases aside

    def round(self, decimals=0):
        return (self * 10.0 ** decimals).rint() / 10.0 ** decimals if decimals else self.rint()

    __round__ = lambda self, n=None: self.round(n or 0)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    def any(self, *a, **k):
        return self != 0

    all = any

    def item(self, *a):
        return self

    def copy(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def squeeze(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def ravel(self):
        from .shim import SymArr, obj
        return obj([self])

    flatten = ravel

    def reshape(self, *s):
        return self.ravel().reshape(*s)

    def tolist(self):
        return self


class SymB:
    """A symbolic boolean; truth-testing it forks the path."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def _b(o):
        if _real_isinstance(o, SymB):
            return o.t
        if _real_isinstance(o, (bool, np.bool_)):
            return ('const', bool(o))
        return None

    def __and__(self, o):
        t = SymB._b(o)
        return NotImplemented if t is None else SymB(('and', self.t, t))

    __rand__ = __and__

    def __or__(self, o):
        t = SymB._b(o)
        return NotImplemented if t is None else SymB(('or', self.t, t))

    __ror__ = __or__

    def __invert__(self):
        return SymB(tnot(self.t))

    logical_not = __invert__

    def logical_and(self, o):
        return self & (o if _real_isinstance(o, (SymB, bool, np.bool_)) else bool(o))

    def logical_or(self, o):
        return self | (o if _real_isinstance(o, (SymB, bool, np.bool_)) else bool(o))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return 1 if bool(self) else 0

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __eq__(self, o):
        return self._num() == o

    def __ne__(self, o):
        return self._num() != o

    __hash__ = None

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def __repr__(self):
        return 'SymB(%r)' % (self.t,)


# ------------------------------------------------------------------ complex
def cparts(x):
    if _real_isinstance(x, SymC):
        return x.re, x.im
    if _real_isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    if _real_isinstance(x, (complex, np.complexfloating)):
        return float(x.real), float(x.imag)
    if _real_isinstance(x, (Sym, int, float, np.integer, np.floating)):
        return x, 0.0
    return None


def mkc(re, im):
    if not _real_isinstance(re, Sym) and not _real_isinstance(im, Sym):
        return complex(re, im)
    return SymC(re, im)


def _cb(f):
    def op(self, o):
        if _real_isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        p = cparts(o)
        return NotImplemented if p is None else f(self, SymC(*p))
    return op


def _cr(f):
    def op(self, o):
        p = cparts(o)
        return NotImplemented if p is None else f(SymC(*p), self)
    return op


def _cadd(a, b):
    return mkc(a.re + b.re, a.im + b.im)


def _csub(a, b):
    return mkc(a.re - b.re, a.im - b.im)


def _cmul(a, b):
    return mkc(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)


def _cdiv(a, b):
    if not _real_isinstance(b.im, Sym) and b.im == 0:
        return mkc(a.re / b.re, a.im / b.re)
    d = b.re * b.re + b.im * b.im
    return mkc((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)


CFUN.update({dag.add: _cadd, dag.sub: _csub, dag.mul: _cmul, _div: _cdiv})
dag.UFS['csqrt_re'] = lambda a, b: np.sqrt(a + 1j * b).real
dag.UFS['csqrt_im'] = lambda a, b: np.sqrt(a + 1j * b).imag


class SymC:
    __slots__ = ('re', 'im')
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def __init__(self, re, im):
        self.re, self.im = re, im

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    __add__ = _cb(_cadd)
    __radd__ = _cr(_cadd)
    __sub__ = _cb(_csub)
    __rsub__ = _cr(_csub)
    __mul__ = _cb(_cmul)
    __rmul__ = _cr(_cmul)
    __truediv__ = _cb(_cdiv)
    __rtruediv__ = _cr(_cdiv)
    __hash__ = None

    def __neg__(self):
        return mkc(-self.re, -self.im)

    def __pos__(self):
        return self

    def __abs__(self):
        return fsqrt(self.re * self.re + self.im * self.im)

    absolute = __abs__

    def __pow__(self, k):
        if _real_isinstance(k, (int, float, np.integer, np.floating)):
            if float(k).is_integer():
                k = int(k)
                r = SymC(1.0, 0.0)
                for _ in range(abs(k)):
                    r = r * self
                return r if k >= 0 else 1.0 / r
            if k == 0.5:
                return self.sqrt()
        raise Unsupported('complex power %r' % (k,))

    def __bool__(self):
        return bool(self.re != 0) or bool(self.im != 0)

    def __eq__(self, o):
        p = cparts(o)
        if p is None:
            return False
        return bool(self.re == p[0]) and bool(self.im == p[1])

    def __ne__(self, o):
        return not self == o

    def conjugate(self):
        return mkc(self.re, -self.im)

    conj = conjugate

    def sqrt(self):
        # principal square root, kept opaque (two uninterpreted parts, exact numerics)
        a, b = lift(self.re), lift(self.im)
        return mkc(wrap(dag.uf('csqrt_re', [a, b])), wrap(dag.uf('csqrt_im', [a, b])))

    def exp(self):
        e = fexp(self.re)
        return mkc(e * fcos(self.im), e * fsin(self.im))

    def log(self):
        a, b = lift(self.re), lift(self.im)
        m = dag.add(dag.power(a, 2.0), dag.power(b, 2.0))
        return mkc(wrap(dag.mul(dag.const(0.5), _log(m))), wrap(dag.atan2(b, a)))

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def item(self):
        return self

    def copy(self):
        return self

    def __repr__(self):
        return 'SymC(%r,%r)' % (self.re, self.im)


def _sc(name, mf):
    def f(x):
        if _real_isinstance(x, (Sym, SymC)):
            return getattr(x, name)()
        return mf(x)
    return f


fsqrt = _sc('sqrt', math.sqrt)
fexp = _sc('exp', math.exp)
flog = _sc('log', math.log)
fsin = _sc('sin', math.sin)
fcos = _sc('cos', math.cos)


def fatan2(y, x):
    if _real_isinstance(y, Sym) or _real_isinstance(x, Sym):
        return wrap(dag.atan2(lift(y), lift(x)))
    return math.atan2(y, x)


def is_sym(x):
    return _real_isinstance(x, (Sym, SymC, SymB))
