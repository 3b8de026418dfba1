"""Hash-consed expression DAG, vectorised numeric evaluation, interval evaluation."""
import math
import numpy as np

_table = {}
_count = [0]


class N:
    __slots__ = ('op', 'args', 'val', 'id', 'iv', 'poly')

    def __repr__(self):
        return show(self, 6)


def _mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    n = _table.get(key)
    if n is None:
        n = N()
        n.op, n.args, n.val = op, args, val
        _count[0] += 1
        n.id = _count[0]
        n.iv = None
        n.poly = None
        _table[key] = n
    return n


def reset():
    _table.clear()
    VARS.clear()


VARS = {}          # name -> (node, lo, hi, is_int)
UFS = {}           # name -> numeric function


def const(v):
    v = float(v)
    if v == 0.0:
        v = 0.0
    return _mk('c', (), v)


def var(name, lo, hi):
    n = _mk('v', (), name)
    if name in VARS:
        assert VARS[name][1:3] == (lo, hi), name
    VARS[name] = (n, float(lo), float(hi))
    return n


def is_c(n):
    return n.op == 'c'


def add(a, b):
    if is_c(a) and is_c(b):
        return const(a.val + b.val)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b.val == 0.0:
            return a
        if a.op == '+' and is_c(a.args[1]):
            return add(a.args[0], const(a.args[1].val + b.val))
    if a.id == b.id:
        return mul(const(2.0), a)
    # x + (-1*x) -> 0
    if b.op == '*' and is_c(b.args[0]) and b.args[0].val == -1.0 and b.args[1] is a:
        return const(0.0)
    if a.op == '*' and is_c(a.args[0]) and a.args[0].val == -1.0 and a.args[1] is b:
        return const(0.0)
    if not is_c(b) and a.id > b.id:
        a, b = b, a
    return _mk('+', (a, b))


def mul(a, b):
    if is_c(a) and is_c(b):
        return const(a.val * b.val)
    if is_c(b):
        a, b = b, a
    if is_c(a):
        if a.val == 0.0:
            return a
        if a.val == 1.0:
            return b
        if b.op == '*' and is_c(b.args[0]):
            return mul(const(a.val * b.args[0].val), b.args[1])
    elif a.op == '*' and is_c(a.args[0]):
        return mul(a.args[0], mul(a.args[1], b))
    elif b.op == '*' and is_c(b.args[0]):
        return mul(b.args[0], mul(a, b.args[1]))
    if a.id == b.id:
        return power(a, 2.0)
    if not is_c(a) and a.id > b.id:
        a, b = b, a
    return _mk('*', (a, b))


def neg(a):
    return mul(const(-1.0), a)


def sub(a, b):
    if a.id == b.id:
        return const(0.0)
    return add(a, neg(b))


def power(a, c):
    c = float(c)
    if c == 0.0:
        return const(1.0)
    if c == 1.0:
        return a
    if is_c(a):
        if a.val == 0.0 and c < 0:
            raise ZeroDivisionError('0 ** %r' % c)
        r = a.val ** c
        if isinstance(r, complex):
            raise ValueError('negative base %r ** %r' % (a.val, c))
        return const(r)
    if a.op == '^' and float(a.val).is_integer() and c.is_integer():
        return power(a.args[0], a.val * c)
    if a.op == '*' and is_c(a.args[0]) and (c.is_integer() or a.args[0].val > 0):
        return mul(const(a.args[0].val ** c), power(a.args[1], c))
    return _mk('^', (a,), c)


def div(a, b):
    if is_c(b):
        if b.val == 0.0:
            raise ZeroDivisionError('division by zero')
        return mul(const(1.0 / b.val), a) if not is_c(a) else const(a.val / b.val)
    if a.id == b.id:
        return const(1.0)
    return mul(a, power(b, -1.0))


_FN = {
    'exp': (math.exp, np.exp), 'log': (math.log, np.log), 'sin': (math.sin, np.sin),
    'cos': (math.cos, np.cos), 'tan': (math.tan, np.tan), 'asin': (math.asin, np.arcsin),
    'acos': (math.acos, np.arccos), 'atan': (math.atan, np.arctan), 'abs': (abs, np.abs),
    'floor': (lambda x: float(math.floor(x)), np.floor),
}


def fn(name, a):
    if is_c(a):
        return const(_FN[name][0](a.val))
    if name == 'abs':
        lo, hi = interval(a)
        if lo >= 0:
            return a
        if hi <= 0:
            return neg(a)
        if a.op == 'abs':
            return a
    if name == 'log' and a.op == 'exp':
        return a.args[0]
    if name == 'exp' and a.op == 'log':
        return a.args[0]
    return _mk(name, (a,))


def relu(a):
    if is_c(a):
        return const(max(a.val, 0.0))
    lo, hi = interval(a)
    if lo >= 0:
        return a
    if hi <= 0:
        return const(0.0)
    return _mk('relu', (a,))


def atan2(y, x):
    if is_c(y) and is_c(x):
        return const(math.atan2(y.val, x.val))
    return _mk('atan2', (y, x))


def uf(name, args):
    return _mk('uf', tuple(args), name)


# ---------------------------------------------------------------- numeric evaluation
def topo(nodes):
    seen, out = set(), []
    st = [(n, False) for n in nodes]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if a.id not in seen:
                st.append((a, False))
    return out


def evaluate(nodes, env):
    """env: var name -> numpy array (or float). Returns list of arrays."""
    vals = {}
    with np.errstate(all='ignore'):
        for n in topo(nodes):
            o = n.op
            if o == 'c':
                v = n.val
            elif o == 'v':
                v = np.asarray(env[n.val], dtype=float)
            elif o == '+':
                v = vals[n.args[0].id] + vals[n.args[1].id]
            elif o == '*':
                v = vals[n.args[0].id] * vals[n.args[1].id]
            elif o == '^':
                b = np.asarray(vals[n.args[0].id], dtype=float)
                v = np.power(b, n.val)
            elif o == 'relu':
                v = np.maximum(vals[n.args[0].id], 0.0)
            elif o == 'atan2':
                v = np.arctan2(vals[n.args[0].id], vals[n.args[1].id])
            elif o == 'uf':
                v = UFS[n.val](*[np.asarray(vals[a.id], dtype=float) for a in n.args])
            else:
                v = _FN[o][1](vals[n.args[0].id])
            vals[n.id] = v
    return [vals[n.id] for n in nodes]


# ---------------------------------------------------------------- intervals
INF = float('inf')
_EPS = 4e-16


def _out(lo, hi):
    if lo != lo or hi != hi:
        return (-INF, INF)
    # exact zero bounds stay exact (signs matter)
    l = lo if lo == 0 or lo in (-INF, INF) else lo - abs(lo) * _EPS
    h = hi if hi == 0 or hi in (-INF, INF) else hi + abs(hi) * _EPS
    return (l, h)


def iadd(a, b):
    return _out(a[0] + b[0], a[1] + b[1])


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def imul(a, b):
    p = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    return _out(min(p), max(p))


def _pw(x, c):
    try:
        return x ** c
    except OverflowError:
        return INF
    except ZeroDivisionError:
        return INF


def ipow(a, c):
    lo, hi = a
    if float(c).is_integer():
        k = int(c)
        if k > 0:
            if k % 2:
                return _out(-_pw(-lo, k) if lo < 0 else _pw(lo, k), -_pw(-hi, k) if hi < 0 else _pw(hi, k))
            if lo >= 0:
                return _out(_pw(lo, k), _pw(hi, k))
            if hi <= 0:
                return _out(_pw(-hi, k), _pw(-lo, k))
            return _out(0.0, max(_pw(-lo, k), _pw(hi, k)))
        p = ipow(a, -k)
        lo, hi = p
        if lo > 0:
            return _out(1 / hi if hi != INF else 0.0, 1 / lo)
        if hi < 0:
            return _out(1 / hi, 1 / lo if lo != -INF else 0.0)
        if lo == 0 and hi > 0:
            return _out(1 / hi if hi != INF else 0.0, INF)
        if hi == 0 and lo < 0:
            return (-INF, 1 / lo)
        return (-INF, INF)
    lo = max(lo, 0.0)
    if hi < 0:
        return (0.0, INF)
    if c > 0:
        return _out(_pw(lo, c), _pw(hi, c) if hi != INF else INF)
    return _out(_pw(hi, c) if hi not in (INF, 0.0) else (0.0 if hi == INF else INF), _pw(lo, c) if lo > 0 else INF)


def iexp(a):
    def e(x):
        if x > 709:
            return INF
        return math.exp(x) if x > -745 else 0.0
    return _out(e(a[0]), e(a[1]))


def ilog(a):
    lo, hi = a
    return _out(math.log(lo) if lo > 0 else -INF, (math.log(hi) if hi > 0 else -INF) if hi != INF else INF)


def _trig(a, f, peaks):
    lo, hi = a
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo >= 2 * math.pi:
        return (-1.0, 1.0)
    v = [f(lo), f(hi)]
    for p, val in peaks:
        k = math.ceil((lo - p) / (2 * math.pi))
        if p + 2 * math.pi * k <= hi:
            v.append(val)
    return (max(-1.0, min(v) - 1e-15), min(1.0, max(v) + 1e-15))


def ifn(op, a):
    if op == 'exp':
        return iexp(a)
    if op == 'log':
        return ilog(a)
    if op == 'sin':
        return _trig(a, math.sin, [(math.pi / 2, 1.0), (-math.pi / 2, -1.0)])
    if op == 'cos':
        return _trig(a, math.cos, [(0.0, 1.0), (math.pi, -1.0)])
    if op == 'tan':
        if -math.pi / 2 < a[0] and a[1] < math.pi / 2:
            return _out(math.tan(a[0]), math.tan(a[1]))
        return (-INF, INF)
    if op == 'asin':
        return _out(math.asin(max(-1, min(1, a[0]))), math.asin(max(-1, min(1, a[1]))))
    if op == 'acos':
        return _out(math.acos(max(-1, min(1, a[1]))), math.acos(max(-1, min(1, a[0]))))
    if op == 'atan':
        return _out(math.atan(a[0]), math.atan(a[1]))
    if op == 'abs':
        if a[0] >= 0:
            return a
        if a[1] <= 0:
            return (-a[1], -a[0])
        return (0.0, max(-a[0], a[1]))
    if op == 'floor':
        return (math.floor(a[0]) if math.isfinite(a[0]) else a[0], math.floor(a[1]) if math.isfinite(a[1]) else a[1])
    if op == 'relu':
        return (max(a[0], 0.0), max(a[1], 0.0))
    return (-INF, INF)


def interval(n):
    if n.iv is not None:
        return n.iv
    for m in topo([n]):
        if m.iv is None:
            m.iv = _interval1(m, lambda x: x.iv)
    return n.iv


def _interval1(m, get):
    o = m.op
    if o == 'c':
        return (m.val, m.val)
    if o == 'v':
        _, lo, hi = VARS[m.val]
        return (lo, hi)
    if o == '+':
        return iadd(get(m.args[0]), get(m.args[1]))
    if o == '*':
        return imul(get(m.args[0]), get(m.args[1]))
    if o == '^':
        return ipow(get(m.args[0]), m.val)
    if o == 'atan2':
        return (-math.pi, math.pi)
    if o == 'uf':
        return (0.0, INF) if m.val == 'csqrt_re' else (-INF, INF)
    return ifn(o, get(m.args[0]))


def interval_in(n, box):
    """interval of n with variables restricted to box: name -> (lo,hi)."""
    iv = {}
    for m in topo([n]):
        if m.op == 'v':
            iv[m.id] = box.get(m.val) or VARS[m.val][1:3]
        else:
            iv[m.id] = _interval1(m, lambda x: iv[x.id])
    return iv[n.id]


def vars_of(nodes):
    return sorted({n.val for n in topo(nodes) if n.op == 'v'})


def show(n, depth=5):
    if n.op == 'c':
        return '%.6g' % n.val
    if n.op == 'v':
        return str(n.val)
    if depth == 0:
        return '..'
    a = [show(x, depth - 1) for x in n.args]
    if n.op in '+*':
        return '(' + n.op.join(a) + ')'
    if n.op == '^':
        return '%s^%g' % (a[0], n.val)
    return '%s(%s)' % (n.val if n.op == 'uf' else n.op, ','.join(a))
