"""Normal form: generalized polynomials over canonical atoms.

A poly is a dict  monomial -> (coef, mag)  where a monomial is a sorted tuple of
(atom_id, exponent) and mag bounds the sum of |contributions| to the coefficient (used to
recognise floating cancellation: |coef| <= 1e-12*mag is zero).  Atoms are numbered in ATOMS."""
import math
from fractions import Fraction
from . import dag

TOL = 1e-12
ATOM_TOL = 1e-10
MAXTERMS = 20000


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ('id', 'kind', 'data', 'iv', 'name')


ATOMS = []
_bykey = {}
ONE = ()


def reset():
    ATOMS.clear()
    _bykey.clear()


def _new(kind, data, key, iv):
    a = Atom()
    a.id = len(ATOMS)
    a.kind, a.data, a.iv = kind, data, iv
    a.name = '%s%d' % (kind, a.id)
    ATOMS.append(a)
    _bykey.setdefault(key, []).append(a)
    return a


def same(p, q, tol=ATOM_TOL):
    if len(p) != len(q):
        return False
    for m, (c, g) in p.items():
        e = q.get(m)
        if e is None or abs(c - e[0]) > tol * max(abs(c), abs(e[0])) + 1e-13 * max(g, e[1]):
            return False
    return True


def atom_poly(kind, polys, iv=None):
    """find or create an atom keyed by argument polys (tolerant comparison)."""
    key = (kind,) + tuple(tuple(sorted(p)) for p in polys)
    for a in _bykey.get(key, ()):
        if all(same(x, y) for x, y in zip(a.data, polys)):
            return a
    a = _new(kind, polys, key, None)
    a.iv = iv if iv is not None else _atom_iv(kind, polys)
    return a


def atom_var(name):
    key = ('v', name)
    for a in _bykey.get(key, ()):
        return a
    _, lo, hi = dag.VARS[name]
    a = _new('v', name, key, (lo, hi))
    a.name = name
    return a


def _atom_iv(kind, polys):
    p = polys[0]
    iv = piv(p)
    if kind == 'base':
        return iv
    if kind in ('log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'abs', 'floor', 'relu'):
        return dag.ifn(kind, iv)
    if kind == 'exp':
        return dag.iexp(iv)
    if kind == 'uf:csqrt_re':
        return (0.0, dag.INF)
    return (-dag.INF, dag.INF)


def piv(p):
    """interval of a poly."""
    tot = (0.0, 0.0)
    for m, (c, g) in p.items():
        tot = dag.iadd(tot, dag.imul((c, c), miv(m)))
    return tot


def miv(m):
    r = (1.0, 1.0)
    for a, e in m:
        r = dag.imul(r, dag.ipow(ATOMS[a].iv, float(e)))
    return r


# ------------------------------------------------------------------ poly arithmetic
def pconst(c):
    return {ONE: (c, abs(c))} if c != 0 else {}


def pmono(m, c=1.0):
    return {m: (c, abs(c))}


def padd(p, q, s=1.0):
    if len(p) < len(q) and s == 1.0:
        p, q = q, p
    r = dict(p)
    for m, (c, g) in q.items():
        e = r.get(m)
        if e is None:
            r[m] = (s * c, g)
        else:
            nc, ng = e[0] + s * c, e[1] + g
            if abs(nc) <= TOL * ng:
                del r[m]
            else:
                r[m] = (nc, ng)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def pscale(p, c):
    if c == 0:
        return {}
    return {m: (x * c, g * abs(c)) for m, (x, g) in p.items()}


def _frac(e):
    if isinstance(e, int):
        return e
    if isinstance(e, Fraction):
        if e.denominator > 100000:
            return _frac(float(e))
        return e.numerator if e.denominator == 1 else e
    f = Fraction(float(e)).limit_denominator(12)
    if abs(float(f) - e) <= 3e-10 * max(1.0, abs(e)):
        return f.numerator if f.denominator == 1 else f
    f = Fraction(float(e)).limit_denominator(5000)
    if abs(float(f) - e) <= 1e-12 * max(1.0, abs(e)):
        return f.numerator if f.denominator == 1 else f
    f = Fraction('%.11g' % e)
    return f.numerator if f.denominator == 1 else f


def mmul(m, k):
    """monomial product -> (monomial, needs_fix)"""
    if not m:
        return k
    if not k:
        return m
    d = dict(m)
    for a, e in k:
        s = d.get(a, 0) + e
        if s == 0:
            d.pop(a, None)
        else:
            if isinstance(s, Fraction) and s.denominator == 1:
                s = s.numerator
            d[a] = s
    return tuple(sorted(d.items()))


def _needs(m):
    """first atom of a monomial that must be rewritten, or None."""
    for a, e in m:
        if e < 1:
            continue
        k = ATOMS[a].kind
        if k == 'base':
            return a, e
        if e >= 2 and k in ('sin', 'abs'):
            return a, e
    return None


def _fix(m, c, g, out):
    """add c*m (rewriting expandable atoms) into out."""
    nd = _needs(m)
    if nd is None:
        e = out.get(m)
        if e is None:
            out[m] = (c, g)
        else:
            nc, ng = e[0] + c, e[1] + g
            if abs(nc) <= TOL * ng:
                del out[m]
            else:
                out[m] = (nc, ng)
        if len(out) > MAXTERMS:
            raise TooBig()
        return
    a, e = nd
    at = ATOMS[a]
    rest = tuple(x for x in m if x[0] != a)
    if at.kind == 'base':
        n = math.floor(e)
        rep = ppow_int(at.data[0], n)
    elif at.kind == 'sin':
        n = 2
        cs = atom_poly('cos', at.data)
        rep = padd(pconst(1.0), pmono(((cs.id, 2),)), -1.0)
    else:
        n = 2
        rep = ppow_int(at.data[0], 2)
    left = e - n
    if left != 0:
        rest = mmul(rest, ((a, left),))
    for mm, (cc, gg) in rep.items():
        _fix(mmul(rest, mm), c * cc, g * gg, out)


def pmul(p, q):
    out = {}
    if len(p) * len(q) > 20 * MAXTERMS:
        raise TooBig()
    for m, (c, g) in p.items():
        for k, (d, h) in q.items():
            _fix(mmul(m, k), c * d, g * h, out)
    return out


def ppow_int(p, n):
    r = pconst(1.0)
    for _ in range(n):
        r = pmul(r, p)
    return r


def mpow(m, e):
    out = []
    for a, x in m:
        v = _frac(x * e) if isinstance(x, (int, Fraction)) and isinstance(e, (int, Fraction)) else _frac(float(x) * float(e))
        out.append((a, v))
    return tuple(out)


def mono_nonneg(m):
    for a, e in m:
        if ATOMS[a].iv[0] < 0 and not (isinstance(e, int) and e % 2 == 0):
            return False
    return True


def lead(p):
    return max(p, key=lambda m: (len(m), m and tuple((a, float(e)) for a, e in m)))


def content(p):
    """p = c * mono * q with q primitive (leading coefficient 1, no common monomial, no negative
    powers).  Base atoms occurring with negative power are multiplied out."""
    for _ in range(6):
        # common monomial: min exponent over terms for each atom that occurs
        mins = {}
        first = True
        for m in p:
            d = dict(m)
            if first:
                mins = dict(d)
                first = False
            else:
                for a in list(mins):
                    mins[a] = min(mins[a], d.get(a, 0))
                for a in d:
                    if a not in mins:
                        mins[a] = min(d[a], 0)
        mono = tuple(sorted((a, e) for a, e in mins.items() if e != 0))
        if not mono:
            break
        inv = mpow(mono, -1)
        q = {}
        for m, (c, g) in p.items():
            _fix(mmul(m, inv), c, g, q)
        yield_mono = mono
        rest = content(q)
        return rest[0], mmul(yield_mono, rest[1]), rest[2]
    if not p:
        return 0.0, ONE, {}
    l = lead(p)
    c = p[l][0]
    q = {m: (x / c, g / abs(c)) for m, (x, g) in p.items()}
    return c, ONE, q


def _reduce(p):
    """cancel base-atom denominators where the numerator is divisible (cheap attempt)."""
    return p


def psign(p):
    lo, hi = piv(p)
    if lo >= 0:
        return 1
    if hi <= 0:
        return -1
    return 0


def ppow(p, c):
    """p ** c for a float c."""
    e = _frac(c)
    if isinstance(e, int) and e >= 0:
        return ppow_int(p, e)
    if not p:
        return {}
    if len(p) == 1:
        (m, (k, g)), = p.items()
        if isinstance(e, int):
            out = {}
            _fix(mpow(m, e), k ** e, abs(k) ** e, out)
            return out
        if k > 0 and mono_nonneg(m):
            out = {}
            kk = k ** float(e)
            _fix(_absify(mpow(m, e)), kk, kk, out)
            return out
        # some factor has unknown sign: pull even powers out as |atom|
        if k > 0:
            m2, ok = [], True
            for a, x in m:
                if ATOMS[a].iv[0] >= 0:
                    m2.append((a, x))
                elif isinstance(x, int) and x % 2 == 0:
                    ab = pfun('abs', pmono(((a, 1),)))
                    (am, (ak, _)), = ab.items()
                    m2.extend(mpow(am, x))
                else:
                    ok = False
            if ok:
                mm = ONE
                for t in m2:
                    mm = mmul(mm, (t,))
                kk = k ** float(e)
                out = {}
                _fix(mpow(mm, e), kk, kk, out)
                return out
        a = _base_exact(p)
        out = {}
        _fix(((a.id, e),), 1.0, 1.0, out)
        return out
    k, mono, q = content(p)
    if len(q) == 1 and ONE in q:
        return ppow(pmono(mono, k), c)
    if isinstance(e, int):
        a, s = _base(q)
        out = {}
        _fix(mmul(mpow(mono, e), ((a.id, e),)), (k * s) ** e, abs(k) ** e, out)
        return out
    # fractional: need positive pieces
    if mono_nonneg(mono):
        s = 1.0 if k > 0 else -1.0
        qq = q if s > 0 else pscale(q, -1.0)
        a, s2 = _base(qq)
        if s2 < 0:
            a = _base_exact(qq)
        out = {}
        kk = abs(k) ** float(e)
        _fix(mmul(_absify(mpow(mono, e)), ((a.id, e),)), kk, kk, out)
        return out
    a = _base_exact(p)
    out = {}
    _fix(((a.id, e),), 1.0, 1.0, out)
    return out


def _absify(m):
    return m


def _base_exact(q):
    return atom_poly('base', [q])


def _base(q):
    """atom for q or -q (whichever exists / is positive); returns (atom, sign)."""
    s = psign(q)
    if s >= 0:
        n = pscale(q, -1.0)
        key = ('base', tuple(sorted(q)))
        for a in _bykey.get(key, ()):
            if same(a.data[0], q):
                return a, 1
            if s == 0 and same(a.data[0], n):
                return a, -1
        return atom_poly('base', [q]), 1
    return atom_poly('base', [pscale(q, -1.0)]), -1


def plog(p):
    if not p:
        raise ValueError('log(0)')
    k, mono, q = content(p)
    trivial = len(q) == 1 and ONE in q
    if mono_nonneg(mono) and all(ATOMS[a].iv[0] >= 0 for a, _ in mono):
        if trivial:
            if k > 0:
                return padd(pconst(math.log(k)), _logmono(mono))
        else:
            if k < 0:
                q = pscale(q, -1.0)
            if psign(q) >= 0 or True:
                a = atom_poly('log', [q])
                r = padd(pconst(math.log(abs(k))), _logmono(mono))
                return padd(r, pmono(((a.id, 1),)))
    a = atom_poly('log', [p])
    return pmono(((a.id, 1),))


def _logmono(mono):
    r = {}
    for a, e in mono:
        at = ATOMS[a]
        if at.kind == 'exp':
            r = padd(r, pscale(at.data[0], float(e)))
        else:
            l = atom_poly('log', at.data if at.kind == 'base' else [pmono(((a, 1),))],
                          iv=dag.ilog(at.iv))
            r = padd(r, pmono(((l.id, 1),), float(e)))
    return r


def pexp(p):
    out = pconst(1.0)
    c0 = p.get(ONE)
    if c0:
        out = pconst(_safe_exp(c0[0]))
    mono = ONE
    for m, (c, g) in p.items():
        if m == ONE:
            continue
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'log':
            arg = ATOMS[m[0][0]].data[0]
            out = pmul(out, ppow(arg, c))
            continue
        key = ('exp', m)
        lst = _bykey.get(key, ())
        at = None
        for a in lst:
            r = c / a.data[1]
            f = Fraction(r).limit_denominator(1000)
            if abs(float(f) - r) <= 1e-11 * abs(r) and f != 0:
                at, e = a, _frac(f)
                break
        if at is None:
            s = abs(c)
            at = _new('exp', [pmono(m, s), s], key, None)
            at.iv = dag.iexp(piv(at.data[0]))
            e = 1 if c > 0 else -1
        mono = mmul(mono, ((at.id, e),))
    if mono:
        out = pmul(out, pmono(mono))
    return out


def _safe_exp(x):
    return math.exp(x)


def pfun(name, p):
    if not p or (len(p) == 1 and ONE in p):
        c = p[ONE][0] if p else 0.0
        return pconst(dag._FN[name][0](c)) if name != 'relu' else pconst(max(c, 0.0))
    if name == 'abs':
        s = psign(p)
        if s:
            return p if s > 0 else pscale(p, -1.0)
        k, mono, q = content(p)
        if mono_nonneg(mono) and all(ATOMS[a].iv[0] >= 0 for a, _ in mono):
            s = psign(q)
            if s:
                return pmul(pmono(mono, abs(k)), pscale(q, float(s)))
            a = atom_poly('abs', [q])
            return pmul(pmono(mono, abs(k)), pmono(((a.id, 1),)))
        a = atom_poly('abs', [_orient(p)[0]])
        return pmono(((a.id, 1),))
    if name == 'relu':
        s = psign(p)
        if s:
            return p if s > 0 else {}
        k, mono, q = content(p)
        if mono_nonneg(mono) and all(ATOMS[a].iv[0] >= 0 for a, _ in mono):
            if len(q) == 1 and ONE in q:
                return p if k > 0 else {}
            a = atom_poly('relu', [q])
            f = pmono(((a.id, 1),))
            if k < 0:      # relu(-q) = relu(q) - q
                f = padd(f, q, -1.0)
            return pmul(pmono(mono, abs(k)), f)
        a = atom_poly('relu', [p])
        return pmono(((a.id, 1),))
    if name in ('sin', 'tan', 'asin', 'atan'):
        q, s = _orient(p)
        a = atom_poly(name, [q])
        if name == 'tan':
            sn, cs = atom_poly('sin', [q]), atom_poly('cos', [q])
            return pmono(tuple(sorted([(sn.id, 1), (cs.id, -1)])), s)
        return pmono(((a.id, 1),), s)
    if name == 'cos':
        q, s = _orient(p)
        a = atom_poly('cos', [q])
        return pmono(((a.id, 1),))
    a = atom_poly(name, [p])
    return pmono(((a.id, 1),))


def _orient(p):
    l = lead(p)
    return (p, 1.0) if p[l][0] > 0 else (pscale(p, -1.0), -1.0)


# ------------------------------------------------------------------ dag -> poly
def norm(n):
    if n.poly is not None:
        if n.poly == 'big':
            raise TooBig()
        return n.poly
    for m in dag.topo([n]):
        if m.poly is None:
            try:
                m.poly = _norm1(m)
            except (TooBig, OverflowError):
                m.poly = 'big'
                n.poly = 'big'
                raise TooBig()
        elif m.poly == 'big':
            raise TooBig()
    return n.poly


def _norm1(m):
    o = m.op
    if o == 'c':
        return pconst(m.val)
    if o == 'v':
        return pmono(((atom_var(m.val).id, 1),))
    A = [a.poly for a in m.args]
    if o == '+':
        return padd(A[0], A[1])
    if o == '*':
        return pmul(A[0], A[1])
    if o == '^':
        return ppow(A[0], m.val)
    if o == 'exp':
        return pexp(A[0])
    if o == 'log':
        return plog(A[0])
    if o == 'atan2':
        a = atom_poly('uf:atan2', A)
        return pmono(((a.id, 1),))
    if o == 'uf':
        a = atom_poly('uf:' + m.val, A)
        return pmono(((a.id, 1),))
    return pfun(o, A[0])


def clear(p, maxiter=400):
    """multiply out negative powers of base atoms (numerator of p over a common denominator).
    Returns (numerator, denominator monomial)."""
    den = ONE
    for _ in range(maxiter):
        mins = {}
        for m in p:
            for a, e in m:
                if e < 0 and ATOMS[a].kind == 'base':
                    mins[a] = min(mins.get(a, 0), e)
        if not mins:
            return p, den
        # one atom at a time, the least recently created last (inner denominators first)
        a = max(mins)
        mult = ((a, -mins[a]),)
        out = {}
        for m, (c, g) in p.items():
            _fix(mmul(m, mult), c, g, out)
        p = out
        den = mmul(den, mult)
    raise TooBig()
