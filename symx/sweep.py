"""Equality of two terms by merging internally equal sub-terms bottom-up (equivalence-checking sweep).

Candidate pairs come from evaluation at a few points in extended precision; every merge is decided by a
solver query over the normal forms, and merged sub-terms with large normal forms are replaced by a fresh
variable ranging over their interval (an over-approximation: equal for every value of it implies equal)."""
import random
import mpmath
from . import dag, norm

DPS = 40
_cnt = [0]
_MP = {'exp': mpmath.exp, 'log': mpmath.log, 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'asin': mpmath.asin,
       'acos': mpmath.acos, 'atan': mpmath.atan, 'abs': abs, 'floor': mpmath.floor}


def mp_eval(nodes, env):
    """values of all nodes below `nodes` (id -> mpf or None)."""
    v = {}
    with mpmath.workdps(DPS):
        for n in dag.topo(nodes):
            a = [v[x.id] for x in n.args]
            r = None
            if None not in a:
                try:
                    o = n.op
                    if o == 'c':
                        r = mpmath.mpf(n.val)
                    elif o == 'v':
                        r = mpmath.mpf(env[n.val])
                    elif o == '+':
                        r = a[0] + a[1]
                    elif o == '*':
                        r = a[0] * a[1]
                    elif o == '^':
                        r = a[0] ** (int(n.val) if float(n.val).is_integer() else mpmath.mpf(n.val))
                    elif o == 'relu':
                        r = a[0] if a[0] > 0 else mpmath.mpf(0)
                    elif o == 'atan2':
                        r = mpmath.atan2(a[0], a[1])
                    elif o == 'uf':
                        r = mpmath.mpf(float(dag.UFS[n.val](*[float(x) for x in a])))
                    else:
                        r = _MP[o](a[0])
                    if isinstance(r, mpmath.mpc) or not mpmath.isfinite(r):
                        r = None
                except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                    r = None
            v[n.id] = r
    return v


def differ(L, R, env, rtol, atol=0.0):
    """True/False if the two terms differ/agree at env in extended precision, None if undefined there."""
    v = mp_eval([L, R], env)
    a, b = v[L.id], v[R.id]
    if a is None or b is None:
        return None
    return abs(a - b) > rtol * max(abs(a), abs(b)) + atol


def values(L, R, env):
    """both terms at env, rounded from extended precision (None if undefined there), and their difference."""
    v = mp_eval([L, R], env)
    a, b = v[L.id], v[R.id]
    return None if a is None or b is None else (float(a), float(b), float(a - b))


def points(names, k, seed):
    rnd = random.Random(seed)
    out = []
    for i in range(k):
        e = {}
        for n in names:
            _, lo, hi = dag.VARS[n]
            u = 0.08 + 0.84 * rnd.random()
            if lo > 0 and hi / lo > 100:
                e[n] = lo * (hi / lo) ** u
            else:
                e[n] = lo + (hi - lo) * u
        out.append(e)
    return out


def close(a, b, r):
    return all(abs(x - y) <= r * max(abs(x), abs(y)) for x, y in zip(a, b))


def prove(L, R, equal, limits=(3, 12, 60)):
    """'equal', 'different' or 'unknown'.  equal(p, q) -> bool decides two normal forms."""
    names = dag.vars_of([L, R])
    vals = []
    for seed in range(12):
        e = points(names, 1, seed)[0]
        v = mp_eval([L, R], e)
        if v[L.id] is not None and v[R.id] is not None:
            vals.append(v)
        if len(vals) == 3:
            break
    if not vals:
        return 'unknown'
    if any(abs(v[L.id] - v[R.id]) > 1e-5 * max(abs(v[L.id]), abs(v[R.id])) for v in vals):
        return 'different'
    order = dag.topo([L, R])
    inL = {n.id for n in dag.topo([L])}
    inR = {n.id for n in dag.topo([R])}
    cls = {}
    for n in order:
        if n.op in ('c', 'v'):
            continue
        sig = [v[n.id] for v in vals]
        if None in sig or not sig[0]:
            continue
        key = mpmath.nstr(sig[0], 10)
        cls.setdefault(key, []).append((n, sig))
    merge = {}
    for key, ms in cls.items():
        while ms:
            n0, s0 = ms[0]
            grp = [n for n, s in ms if close(s, s0, 1e-11)]
            ms = [(n, s) for n, s in ms if not close(s, s0, 1e-11)]
            if len(grp) > 1 or (grp[0].id in inL and grp[0].id in inR):
                for n in grp:
                    merge[n.id] = grp
    for lim in limits:
        if _attempt(L, R, order, merge, equal, lim):
            return 'equal'
    if any(_hard(n) for n in order) and _attempt(L, R, order, merge, equal, limits[1], True):
        return 'equal'
    return 'unknown'


def _hard(n):
    return n.op == '^' and not float(n.val).is_integer()


def _attempt(L, R, order, merge, equal, lim, opaque=False):
    """opaque: forget what fractional powers are (the goal must then hold for any values of them)."""
    new, rep, made = {}, {}, []
    try:
        for n in order:
            a = [new[x.id] for x in n.args]
            m = n if all(x is y for x, y in zip(a, n.args)) else _build(n, a)
            g = merge.get(n.id)
            if opaque and _hard(n) and g is None:
                g = [n]
            if g is not None:
                k = g[0].id
                for r, tgt in rep.get(k, ()):
                    if r is m or _eq(r, m, equal):
                        m = tgt
                        break
                else:
                    tgt = m
                    if m.op not in ('c', 'v') and (opaque and _hard(n) or _size(m) > lim):
                        lo, hi = dag.interval(m)
                        _cnt[0] += 1
                        nm = '_cut%d' % _cnt[0]
                        tgt = dag.var(nm, lo, hi)
                        made.append(nm)
                    rep.setdefault(k, []).append((m, tgt))
                    m = tgt
            new[n.id] = m
        l, r = new[L.id], new[R.id]
        try:
            return equal(norm.norm(l), norm.norm(r))
        except ZeroDivisionError:
            return False
    except (norm.TooBig, OverflowError, ValueError, ZeroDivisionError):
        return False
    finally:
        for nm in made:
            dag.VARS.pop(nm, None)


def _size(m):
    try:
        return len(norm.norm(m))
    except (norm.TooBig, OverflowError):
        return 1 << 30


def _eq(a, b, equal):
    try:
        p, q = norm.norm(a), norm.norm(b)
        return norm.same(p, q, 1e-12) or equal(p, q)
    except (norm.TooBig, OverflowError, ValueError, ZeroDivisionError):
        return False


def _build(n, a):
    o = n.op
    if o == '+':
        return dag.add(a[0], a[1])
    if o == '*':
        return dag.mul(a[0], a[1])
    if o == '^':
        return dag.power(a[0], n.val)
    if o == 'relu':
        return dag.relu(a[0])
    if o == 'atan2':
        return dag.atan2(a[0], a[1])
    if o == 'uf':
        return dag.uf(n.val, a)
    return dag.fn(o, a[0])
