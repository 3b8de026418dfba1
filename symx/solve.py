"""z3 back end: translation of normal forms, feasibility, proof queries, witness search."""
import bisect
import math
import os
import sys
import time
from fractions import Fraction
import numpy as np
from . import dag, norm
from .norm import ATOMS, ONE

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
from . import sweep  # noqa: E402

z3.set_param('memory_max_size', 3000)
EQ_TOL = 1e-9
MAX_Z3_TERMS = 400


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.sampled = 0


STATS = Stats()


def rat(x):
    if not math.isfinite(x):
        raise OverflowError('coefficient')
    f = Fraction(float(x))
    return z3.Q(f.numerator, f.denominator)


def run(cons, timeout_ms, model=False):
    s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*cons)
    t = time.time()
    r = s.check()
    STATS.time += time.time() - t
    STATS.queries += 1
    k = str(r)
    setattr(STATS, k, getattr(STATS, k) + 1)
    return (k, s.model() if (model and r == z3.sat) else None)


class Trans:
    """Translate a set of polys (sharing atoms) to z3 over the reals."""

    def __init__(self, depth=6):
        self.exps = {}       # atom -> set of exponents
        self.seen = []
        self.depth = depth
        self.opaque = 0
        self.z = {}
        self.unit = {}

    def collect(self, p):
        for m in p:
            for a, e in m:
                if a not in self.exps:
                    self.exps[a] = set()
                    self.seen.append(a)
                    at = ATOMS[a]
                    if at.kind in ('base', 'exp', 'log', 'abs', 'relu', 'floor'):
                        q = at.data[0]
                        if len(q) <= MAX_Z3_TERMS:
                            self.exps[a].add(1) if at.kind == 'base' and e == int(e) else None
                            self.collect(q)
                self.exps[a].add(abs(e))

    def finish(self):
        for a, es in self.exps.items():
            fr = [Fraction(e) for e in es]
            g = fr[0]
            for f in fr[1:]:
                g = Fraction(math.gcd(g.numerator * f.denominator, f.numerator * g.denominator),
                             g.denominator * f.denominator)
            big = max(f / g for f in fr)
            self.unit[a] = g
            if big > 24:
                self.unit[a] = None      # incommensurable: one variable per exponent
            self.z[a] = z3.Real('a%d' % a)
        self.extra = {}

    def power(self, a, e):
        g = self.unit[a]
        if g is None:
            k = (a, e)
            if k not in self.extra:
                self.extra[k] = z3.Real('a%d_%s' % (a, str(e).replace('/', 'o')))
            return self.extra[k]
        n = Fraction(e) / g
        n = int(n)
        r = self.z[a]
        out = r
        for _ in range(n - 1):
            out = out * r
        return out

    def clear(self, p):
        """multiply by a positive factor to remove negative exponents."""
        mins = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    mins[a] = min(mins.get(a, 0), e)
        if not mins:
            return p
        mult = []
        for a, e in mins.items():
            k = -e
            if ATOMS[a].iv[0] < 0:
                k = Fraction(math.ceil(k / 2) * 2)
                k = int(k)
            mult.append((a, k))
        mult = tuple(sorted(mult))
        return {norm.mmul(m, mult): c for m, c in p.items()}

    def expr(self, p):
        ts = []
        for m, (c, g) in p.items():
            t = rat(c)
            for a, e in m:
                t = t * self.power(a, e)
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def atomlemmas(self):
        out = []
        exps = []
        for a in list(self.seen):
            at = ATOMS[a]
            z, g = self.z[a], self.unit[a]
            lo, hi = at.iv
            if g is None:
                pos = lo >= 0
                ks = sorted(self.exps[a])
                for (b, e), v in list(self.extra.items()):
                    if b != a:
                        continue
                    l, h = dag.ipow(at.iv, float(e))
                    if math.isfinite(l):
                        out.append(v >= rat(l))
                    if math.isfinite(h):
                        out.append(v <= rat(h))
                    if pos:
                        out.append(v > 0 if lo > 0 else v >= 0)
                continue
            ge = float(g)
            l, h = dag.ipow(at.iv, ge) if ge != 1 else (lo, hi)
            if math.isfinite(l):
                out.append(z >= rat(l) if l != 0 else z >= 0)
            if math.isfinite(h):
                out.append(z <= rat(h))
            inv = 1 / g
            k = int(inv) if inv.denominator == 1 else None
            zk = None
            if k is not None and k <= 12:
                zk = z
                for _ in range(k - 1):
                    zk = zk * z
            if at.kind == 'v' or zk is None or not isinstance(at.data, list):
                continue
            p = at.data[0]
            if len(p) > MAX_Z3_TERMS or at.kind not in ('base', 'exp', 'log', 'abs', 'relu', 'floor'):
                continue
            pc = self.clear(p)
            if at.kind == 'base':
                out.append(zk == self.expr(p))
            elif at.kind == 'exp':
                out.append(z > 0)
                e0 = self.expr(pc)
                out.append((zk > 1) == (e0 > 0))
                out.append((zk < 1) == (e0 < 0))
                # E >= 1 + p
                q = norm.padd(p, norm.pconst(1.0))
                q = norm.padd(norm.pscale(q, -1.0), {((a, Fraction(1) if g != 1 else 1),): (1.0, 1.0)})
                try:
                    out.append(self.expr(self.clear(q)) >= 0)
                except KeyError:
                    pass
                exps.append((a, zk, p))
            elif at.kind == 'log':
                out.append((zk > 0) == (self.expr(self.clear(norm.padd(p, norm.pconst(-1.0)))) > 0))
                q = norm.padd(norm.padd(p, norm.pconst(-1.0)), {((a, 1),): (1.0, 1.0)}, -1.0)
                try:
                    out.append(self.expr(self.clear(q)) >= 0)
                except KeyError:
                    pass
                exps.append((a, zk, p))
            elif at.kind == 'abs':
                e0 = self.expr(p) if pc is p else None
                if e0 is not None:
                    out.append(zk == z3.If(e0 >= 0, e0, -e0))
            elif at.kind == 'relu':
                e0 = self.expr(p) if pc is p else None
                if e0 is not None:
                    out.append(zk == z3.If(e0 >= 0, e0, z3.RealVal(0)))
            elif at.kind == 'floor':
                e0 = self.expr(p) if pc is p else None
                if e0 is not None:
                    out += [zk <= e0, e0 < zk + 1, z3.IsInt(zk)]
        for i in range(len(exps)):
            for j in range(i):
                if ATOMS[exps[i][0]].kind != ATOMS[exps[j][0]].kind:
                    continue
                d = norm.padd(exps[i][2], exps[j][2], -1.0)
                if not d:
                    continue
                e0 = self.expr(self.clear(d))
                out.append((exps[i][1] > exps[j][1]) == (e0 > 0))
                out.append((exps[i][1] < exps[j][1]) == (e0 < 0))
        # pythagoras
        ss = {}
        for a in self.seen:
            at = ATOMS[a]
            if at.kind in ('sin', 'cos') and self.unit[a] == 1:
                ss.setdefault(tuple(sorted(at.data[0])), []).append(a)
        for l in ss.values():
            for i in l:
                for j in l:
                    if ATOMS[i].kind == 'sin' and ATOMS[j].kind == 'cos' and norm.same(ATOMS[i].data[0], ATOMS[j].data[0]):
                        out.append(self.z[i] * self.z[i] + self.z[j] * self.z[j] == 1)
        return out


_SNAP = []


def _snap(c):
    """one representative for coefficients that differ by rounding only."""
    a = abs(c)
    i = bisect.bisect_left(_SNAP, a * (1 - 1e-12))
    if i < len(_SNAP) and _SNAP[i] <= a * (1 + 1e-12):
        return math.copysign(_SNAP[i], c)
    _SNAP.insert(i, a)
    return c


def _canon(p):
    """positive multiple of p with a leading coefficient of magnitude 1 and snapped coefficients."""
    if len(p) < 2:
        return p
    lead = abs(p[min(p, key=lambda m: [(a, float(e)) for a, e in m] or [(1 << 60, 0.0)])][0])
    if not (1e-200 < lead < 1e200):
        return p
    return {m: (_snap(c / lead), g / lead) for m, (c, g) in p.items()}


def _terms(n, k=1.0):
    """n as a list of (coefficient, node) over '+' and constant factors."""
    if n.op == '+':
        return _terms(n.args[0], k) + _terms(n.args[1], k)
    if n.op == '*' and n.args[0].op == 'c':
        return _terms(n.args[1], k * n.args[0].val)
    if n.op == '*' and n.args[1].op == 'c':
        return _terms(n.args[0], k * n.args[1].val)
    return [(k, n)]


def no_abs(t):
    """k |x| + r < 0 as a conjunction (k > 0) or disjunction of k x + r < 0 and -k x + r < 0."""
    from .sym import teval_iv
    o = t[0]
    if o == 'const':
        return t
    if o in ('and', 'or'):
        vs = [no_abs(x) for x in t[1:]]
        unit = o == 'and'
        if any(v == ('const', not unit) for v in vs):
            return ('const', not unit)
        vs = [v for v in vs if v != ('const', unit)]
        return (o,) + tuple(vs) if len(vs) > 1 else vs[0] if vs else ('const', unit)
    ts = _terms(t[1])
    i = next((i for i, (k, n) in enumerate(ts) if n.op == 'abs'), None)
    if i is None or len(ts) > 12:
        return t
    k, x = ts[i][0], ts[i][1].args[0]

    def rest():
        out = dag.const(0.0)
        for j, (c, n) in enumerate(ts):
            if j != i:
                out = dag.add(out, dag.mul(dag.const(c), n))
        return out

    def part(rel, sign, outer):
        # rel(outer * (sign * |k| * x + r)), decided by intervals where possible
        n = dag.mul(dag.const(outer), dag.add(rest(), dag.mul(dag.const(sign * abs(k)), x)))
        u = (rel, n)
        v = teval_iv(u)
        return ('const', v) if v is not None else no_abs(u)

    def half(rel, outer):
        # rel(outer * (k |x| + r))
        return no_abs(('and' if k * outer > 0 else 'or', part(rel, 1.0, outer), part(rel, -1.0, outer)))
    if o in ('lt', 'le'):
        return half(o, 1.0)
    if o == 'ne':
        return no_abs(('or', half('lt', 1.0), half('lt', -1.0)))
    return no_abs(('and', half('le', 1.0), half('le', -1.0)))


class Problem:
    """A conjunction of boolean trees as z3 constraints."""

    def __init__(self, trees):
        self.ok = True
        self.tr = Trans()
        self.polys = {}
        self.dropped = 0
        ts = []
        for t in trees:
            ts.append(self._prep(no_abs(t)))
        self.tr.finish()
        self.trees = ts
        self.cons = [self._b(t) for t in ts]
        self.cons += self.tr.atomlemmas()

    def _prep(self, t):
        from .sym import tnodes
        for n in tnodes(t):
            if n.id in self.polys:
                continue
            try:
                p = norm.norm(n)
                if len(p) > MAX_Z3_TERMS:
                    raise norm.TooBig()
                p = _canon(self.tr.clear(p))
                self.polys[n.id] = p
                self.tr.collect(p)
            except (norm.TooBig, OverflowError, ValueError, ZeroDivisionError):
                self.polys[n.id] = None
                self.dropped += 1
        return t

    def _b(self, t):
        o = t[0]
        if o == 'const':
            return z3.BoolVal(t[1])
        if o == 'and':
            return z3.And(*[self._b(x) for x in t[1:]])
        if o == 'or':
            return z3.Or(*[self._b(x) for x in t[1:]])
        p = self.polys[t[1].id]
        if p is None:
            return z3.FreshBool('dropped')
        e = self.tr.expr(p)
        return {'lt': e < 0, 'le': e <= 0, 'eq': e == 0, 'ne': e != 0}[o]

    def linear(self, timeout_ms=1500):
        """refuted by linear reasoning alone? (every monomial one real variable: a weakening, hence sound)"""
        z, cons = {}, []

        def lin(p):
            ts = []
            for m, (c, g) in p.items():
                if m not in z:
                    z[m] = z3.Real('l%d' % len(z)) if m else z3.RealVal(1)
                    if m:
                        lo, hi = mono_iv(m)
                        if math.isfinite(lo):
                            cons.append(z[m] >= rat(lo))
                        if math.isfinite(hi):
                            cons.append(z[m] <= rat(hi))
                ts.append(rat(c) * z[m])
            return z3.Sum(ts) if ts else z3.RealVal(0)

        def b(t):
            o = t[0]
            if o == 'const':
                return z3.BoolVal(bool(t[1]))
            if o in ('and', 'or'):
                return (z3.And if o == 'and' else z3.Or)(*[b(x) for x in t[1:]])
            p = self.polys[t[1].id]
            if p is None:
                return z3.FreshBool('dropped')
            e = lin(p)
            return {'lt': e < 0, 'le': e <= 0, 'eq': e == 0, 'ne': e != 0}[o]
        hyp = [b(t) for t in self.trees]
        return run(hyp + cons, timeout_ms)[0] == 'unsat'

    def refute(self, timeout_ms):
        if self.linear():
            return 'unsat', None
        return run(self.cons, timeout_ms, model=True)

    def env(self, model):
        """variable assignment from a model (only genuine variables)."""
        out = {}
        for a in self.tr.seen:
            if ATOMS[a].kind == 'v' and self.tr.unit[a] is not None:
                v = model.eval(self.tr.z[a], model_completion=False)
                try:
                    if z3.is_rational_value(v):
                        x = float(v.as_fraction())
                    elif z3.is_algebraic_value(v):
                        x = float(v.approx(20).as_fraction())
                    else:
                        continue
                    out[ATOMS[a].name] = x ** float(1 / self.tr.unit[a])
                except Exception:
                    continue
        return out


class Solver:
    def __init__(self, seed=1, npool=768, timeout_ms=4000):
        self.rng = np.random.default_rng(seed)
        self.npool = npool
        self.timeout = timeout_ms
        self.pool = {}
        self.poolvals = {}
        self.cache = {}
        self.points = []       # solver-found points to reuse

    def sample(self, name, n):
        _, lo, hi = dag.VARS[name]
        rng = self.rng
        u = rng.random(n)
        x = lo + (hi - lo) * u
        if lo > 0 and hi / lo > 50:
            k = rng.random(n) < 0.5
            x = np.where(k, lo * (hi / lo) ** u, x)
        elif lo <= 0 < hi and hi - lo > 0:
            k = rng.random(n) < 0.25
            x = np.where(k, np.clip(lo + (hi - lo) * 10 ** (-6 * u), lo, hi), x)
        c = rng.random(n)
        x = np.where(c < 0.02, lo, np.where(c > 0.98, hi, x))
        return x

    def _poolvar(self, name):
        if name not in self.pool:
            x = self.sample(name, self.npool)
            self.pool[name] = x
        return self.pool[name]

    def _vals(self, nodes):
        need = [m for m in dag.topo(nodes) if m.id not in self.poolvals]
        if need:
            env = {m.val: self._poolvar(m.val) for m in need if m.op == 'v'}
            # evaluate incrementally
            vals = self.poolvals
            with np.errstate(all='ignore'):
                for n in need:
                    o = n.op
                    if o == 'c':
                        v = np.full(self.npool, n.val)
                    elif o == 'v':
                        v = env[n.val]
                    elif o == '+':
                        v = vals[n.args[0].id] + vals[n.args[1].id]
                    elif o == '*':
                        v = vals[n.args[0].id] * vals[n.args[1].id]
                    elif o == '^':
                        v = np.power(vals[n.args[0].id], n.val)
                    elif o == 'relu':
                        v = np.maximum(vals[n.args[0].id], 0.0)
                    elif o == 'atan2':
                        v = np.arctan2(vals[n.args[0].id], vals[n.args[1].id])
                    elif o == 'uf':
                        v = dag.UFS[n.val](*[vals[a.id] for a in n.args])
                    else:
                        v = dag._FN[o][1](vals[n.args[0].id])
                    vals[n.id] = v
        return self.poolvals

    def mask(self, trees):
        from .sym import teval_num, tnodes
        ok = np.ones(self.npool, dtype=bool)
        for t in trees:
            v = self._vals(tnodes(t))
            ok &= np.broadcast_to(teval_num(t, v), ok.shape)
        return ok

    def feasible(self, path, t):
        from .sym import tkey
        key = (tuple(tkey(x) for x in path), tkey(t))
        if key in self.cache:
            return self.cache[key]
        trees = list(path) + [t]
        m = self.mask(trees)
        if m.any():
            STATS.sampled += 1
            r = True
        else:
            try:
                pr = Problem(trees)
                k, mod = pr.refute(self.timeout)
                if mod is not None:
                    self.points.append(pr.env(mod))
            except (z3.Z3Exception, KeyError):
                k = 'unknown'
                STATS.unknown += 1
            r = (k != 'unsat')
        self.cache[key] = r
        return r

    # ------------------------------------------------------------ witnesses
    def witness(self, trees, names, score=None, rounds=40, n=1024, hints=()):
        """find a point satisfying all trees (numerically); maximise score (a function env->array).
        Returns env dict of floats or None."""
        from .sym import teval_num, tnodes
        nodes = [x for t in trees for x in tnodes(t)]
        rng = self.rng

        def evalall(env):
            vs = dag.evaluate(nodes, env) if nodes else []
            vals = {x.id: np.broadcast_to(np.asarray(v, float), (len(next(iter(env.values()))),)) for x, v in zip(nodes, vs)}
            ok = np.ones(len(next(iter(env.values()))), dtype=bool)
            pen = np.zeros(len(ok))
            for t in trees:
                b = np.broadcast_to(teval_num(t, vals), ok.shape)
                ok &= b
                pen += np.where(b, 0.0, _penalty(t, vals))
            sc = np.zeros(len(ok)) if score is None else np.nan_to_num(np.asarray(score(env), float), nan=-1.0)
            return ok, pen, sc

        if not names:
            names = ['__dummy']
            dag.var('__dummy', 0.0, 1.0)
        best = None      # (ok, -pen, score, point)

        piv, used = [], set()
        for t in trees:
            if t[0] == 'eq' and t[1] is not None:
                vs = [v for v in sorted(dag.vars_of([t[1]])) if v not in used]
                if vs:
                    piv.append((t[1], vs[-1]))
                    used.add(vs[-1])

        def solve_eqs(env):
            # equalities that are linear in a pivot variable are solved for it (checked again by evalall)
            for n, v in piv:
                if v not in env:
                    continue
                sh = env[v].shape
                with np.errstate(all='ignore'):
                    f0 = np.broadcast_to(dag.evaluate([n], dict(env, **{v: np.zeros(sh)}))[0], sh)
                    f1 = np.broadcast_to(dag.evaluate([n], dict(env, **{v: np.ones(sh)}))[0], sh)
                    x = -f0 / (f1 - f0)
                lo, hi = dag.VARS[v][1:3]
                env[v] = np.where(np.isfinite(x) & (x >= lo) & (x <= hi), x, env[v])

        def consider(env):
            nonlocal best
            solve_eqs(env)
            ok, pen, sc = evalall(env)
            pen = np.nan_to_num(pen, nan=1e300)
            idx = np.lexsort((-sc, pen, ~ok))[0]
            cand = (bool(ok[idx]), -float(pen[idx]), float(sc[idx]))
            if best is None or cand > best[0]:
                best = (cand, {k: float(np.broadcast_to(v, ok.shape)[idx]) for k, v in env.items()})

        env = {k: self.sample(k, n) for k in names}
        consider(env)
        pts = list(hints) + self.points[-30:]
        for h in pts:
            env = {k: self.sample(k, 64) for k in names}
            for k in names:
                if k in h:
                    lo, hi = dag.VARS[k][1:3]
                    env[k] = np.full(64, min(max(h[k], lo), hi))
            consider(env)
        if score is None and best[0][0]:
            return best[1]
        for r in range(rounds):
            if best[0][0] and (score is None or r > rounds // 2):
                break
            env = {}
            scale = 10.0 ** (-rng.random(256) * 6)
            which = rng.random((len(names), 256)) < max(1.5 / len(names), 0.3 * rng.random())
            for i, k in enumerate(names):
                lo, hi = dag.VARS[k][1:3]
                b = best[1][k]
                x = np.where(which[i], np.clip(b + (hi - lo) * scale * rng.standard_normal(256), lo, hi), b)
                env[k] = x
            consider(env)
        return best[1] if best[0][0] else None


def _penalty(t, vals):
    o = t[0]
    if o == 'const':
        return 0.0 if t[1] else 1e300
    if o == 'and':
        return sum(np.maximum(_penalty(x, vals), 0) for x in t[1:])
    if o == 'or':
        return np.minimum.reduce(np.broadcast_arrays(*[_penalty(x, vals) for x in t[1:]]))
    v = vals[t[1].id]
    with np.errstate(all='ignore'):
        if o in ('lt', 'le'):
            return np.maximum(np.nan_to_num(v, nan=1e300), 0) + 1e-12
        if o == 'eq':
            return np.abs(np.nan_to_num(v, nan=1e300))
    return np.zeros_like(v)


# ------------------------------------------------------------------ proof queries
def lra_equal(p, q, tol=EQ_TOL):
    """z3 query: can |p-q| exceed tol*sum(mag) with monomials as free reals?"""
    ms = sorted(set(p) | set(q))
    diff, tot, cons = [], [], []
    for i, m in enumerate(ms):
        a, b = p.get(m, (0.0, 0.0)), q.get(m, (0.0, 0.0))
        v = z3.Real('m%d' % i)
        d = a[0] - b[0]
        g = max(a[1], b[1])
        if g == 0:
            continue
        # scaled monomial s = g*m ; |s| <= w
        w = z3.Real('w%d' % i)
        cons += [w >= v, w >= -v]
        if d != 0:
            diff.append(rat(d / g) * v)
        tot.append(w)
    D = z3.Sum(diff) if diff else z3.RealVal(0)
    T = rat(tol) * (z3.Sum(tot) if tot else z3.RealVal(0))
    cons.append(z3.Or(D > T, D < -T))
    k, _ = run(cons, 20000)
    return k


def _polys_equal(p, q, tol):
    if lra_equal(p, q, tol) == 'unsat':
        return True
    if len(p) + len(q) > 4000:
        return False
    d2, _ = norm.clear(norm.padd(p, q, -1.0))
    return lra_equal(d2, {}, tol) == 'unsat'


def trivial_equal():
    """both sides are the same hash-consed term: discharge t != t (one z3 query)."""
    v = z3.Real('t')
    return run([v != v], 1000)[0]


def with_equalities(path, nodes):
    """the nodes with variables replaced by what the equalities of the path say they are (None if they say nothing)."""
    rep = {}

    def build(ns, rep):
        v = {}
        for n in dag.topo(ns):
            v[n.id] = rep[n.val] if n.op == 'v' and n.val in rep else sweep._build(n, [v[x.id] for x in n.args]) if n.args else n
        return [v[n.id] for n in ns]
    facts = [x for t in path for x in (t[1:] if t[0] == 'and' else (t,))]
    for t in facts:
        if t[0] != 'eq' or t[1] is None:
            continue
        n = build([t[1]], rep)[0]
        ts = _terms(n)
        if len(ts) > 4:
            continue
        for i, (k, x) in enumerate(ts):
            rest = [u for j, u in enumerate(ts) if j != i]
            if x.op != 'v' or x.val in dag.vars_of([u[1] for u in rest]):
                continue
            e = dag.const(0.0)
            for c, u in rest:
                e = dag.add(e, dag.mul(dag.const(-c / k), u))
            rep = dict({v: build([o], {x.val: e})[0] for v, o in rep.items()}, **{x.val: e})
            break
    if not rep or not any(v in rep for v in dag.vars_of(nodes)):
        return None
    return build(nodes, rep)


def prove_equal(path, L, R, timeout_ms=20000, tol=EQ_TOL, extra=()):
    """'unsat' (equal on the path), 'sat', or 'unknown'; plus a candidate assignment."""
    k, mod = _prove_equal(path, L, R, timeout_ms, tol, extra)
    if k != 'unsat':
        new = with_equalities(path, [L, R])
        if new is not None and (new[0].id == new[1].id or _prove_equal(path, new[0], new[1], timeout_ms, tol, extra)[0] == 'unsat'):
            return 'unsat', None
    return k, mod


def _prove_equal(path, L, R, timeout_ms, tol, extra):
    big = len(dag.topo([L, R])) > 60
    r = sweep.prove(L, R, lambda p, q: _polys_equal(p, q, tol)) if big else 'unknown'
    if r == 'equal':
        return 'unsat', None
    try:
        if r == 'different':
            raise norm.TooBig()
        p, q = norm.norm(L), norm.norm(R)
        k = lra_equal(p, q, tol)
        if k == 'unsat':
            return 'unsat', None
        d = norm.padd(p, q, -1.0)
        d2, _ = norm.clear(d)
        if lra_equal(d2, {}, tol) == 'unsat':
            return 'unsat', None
    except (norm.TooBig, OverflowError):
        pass
    # full query with path condition
    try:
        pr = Problem(list(path) + list(extra) + [('ne', dag.sub(L, R))])
        k2, mod = pr.refute(timeout_ms)
        if k2 == 'unsat':
            return 'unsat', None
        return k2, (pr.env(mod) if mod is not None else None)
    except (z3.Z3Exception, KeyError):
        return 'unknown', None


def mono_iv(m):
    lo, hi = 1.0, 1.0
    for a, e in m:
        l, h = dag.ipow(ATOMS[a].iv, float(e))
        c = [x * y if x and y else 0.0 for x in (lo, hi) for y in (l, h)]
        if any(x != x for x in c):
            return -math.inf, math.inf
        lo, hi = min(c), max(c)
    return lo, hi


def lra_prove(path, goal, timeout_ms=3000):
    """linear reasoning with every monomial of the normal forms as one real variable (a weakening, hence sound)."""
    if goal[0] not in ('le', 'lt', 'eq'):
        return False
    z, cons = {}, []

    def term(n):
        p = norm.norm(n)
        if len(p) > 200:
            raise norm.TooBig()
        ts = []
        for m, (c, g) in p.items():
            if abs(c) <= 1e-13 * g:
                continue
            if m not in z:
                z[m] = z3.Real('m%d' % len(z))
                lo, hi = mono_iv(m)
                if math.isfinite(lo):
                    cons.append(z[m] >= rat(lo))
                if math.isfinite(hi):
                    cons.append(z[m] <= rat(hi))
            ts.append(rat(c) * z[m])
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def b(t):
        if t[0] in ('and', 'or'):
            return (z3.And if t[0] == 'and' else z3.Or)(*[b(x) for x in t[1:]])
        if t[0] == 'const':
            return z3.BoolVal(t[1])
        e = term(t[1])
        return {'lt': e < 0, 'le': e <= 0, 'eq': e == 0, 'ne': e != 0}[t[0]]
    try:
        g = z3.Not(b(goal))
        hyp = []
        for t in path:
            try:
                hyp.append(b(t))
            except norm.TooBig:
                pass
        return run(hyp + cons + [g], timeout_ms)[0] == 'unsat'
    except (norm.TooBig, OverflowError, ValueError, ZeroDivisionError, z3.Z3Exception):
        return False


def prove(path, goal, timeout_ms=20000, split=None):
    """is goal implied by path?"""
    from .sym import tnot, teval_iv
    if lra_prove(path, goal):
        return 'unsat', None
    try:
        pr = Problem(list(path) + [tnot(goal)])
        k, mod = run(pr.cons, timeout_ms, model=True)
        return k, (pr.env(mod) if mod is not None else None)
    except (z3.Z3Exception, KeyError):
        return 'unknown', None
