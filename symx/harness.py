"""Harness API: one harness body is executed symbolically (SH) and concretely (CH)."""
import contextlib
import importlib
import io
import re
import sys
import types
import warnings
import numpy as np
from . import dag, sym
from .sym import tkey, Sym, SymB, SymC, Engine, PathEnd, Unsupported, lift, wrap, is_sym
from .shim import SymArr, obj, patch_pandas

RTOL = 1e-6
NUMBER = r'[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?'


class Skip(Exception):
    """concrete run does not satisfy an assumption."""


class Harness:
    def __init__(self, fn, name, params, opts):
        self.fn, self.name, self.params, self.opts = fn, name, params, opts


REG = []


def harness(cases=None, tier='quick', **opts):
    """decorator. cases: list of dicts (parameters); 'tier' = quick|thorough."""
    def deco(fn):
        for c in (cases or [{}]):
            c = dict(c)
            t = c.pop('_tier', tier)
            o = dict(opts)
            if '_opts' in c:
                o.update(c.pop('_opts'))
            nm = fn.__name__ + (('[' + ','.join('%s=%s' % kv for kv in c.items()) + ']') if c else '')
            REG.append(Harness(fn, nm, c, dict(o, tier=t)))
        return fn
    return deco


def numbered(obs):
    """labels made unique by their occurrence."""
    seen, out = {}, []
    for l, v in obs:
        seen[l] = seen.get(l, 0) + 1
        out.append((l if seen[l] == 1 else '%s #%d' % (l, seen[l]), v))
    return out


def is_scalar_num(x):
    return isinstance(x, (int, float, complex, np.number, Sym, SymC)) and not isinstance(x, (bool, np.bool_))


def flatten(x, path=''):
    """-> list of (suffix, scalar) ; scalars are numbers, Sym*, str, None, bool."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return [(path, x.item())]
        out = [(path + '.shape', str(x.shape))]
        for idx in np.ndindex(x.shape):
            out.append((path + '[' + ','.join(map(str, idx)) + ']', x[idx]))
        return out
    if isinstance(x, (list, tuple)):
        out = [(path + '.len', len(x))]
        for i, v in enumerate(x):
            out += flatten(v, '%s[%d]' % (path, i))
        return out
    if isinstance(x, dict):
        out = [(path + '.keys', repr(sorted(map(str, x))))]
        for k in sorted(x, key=str):
            out += flatten(x[k], '%s{%s}' % (path, k))
        return out
    return [(path, x)]


def plain(x):
    if isinstance(x, (np.floating, np.integer, np.complexfloating, np.bool_)):
        return x.item()
    return x


class Base:
    def __init__(self):
        self.patches = []
        self.wlist = []

    def mod(self, name):
        return importlib.import_module('pyrtlib' + ('.' + name if name else ''))

    def patch(self, o, name, value):
        if isinstance(o, dict):
            had, old = name in o, o.get(name)
            o[name] = value
            self.patches.append(('d', o, name, had, old))
            return
        had = name in vars(o) if hasattr(o, '__dict__') else hasattr(o, name)
        old = vars(o)[name] if had and hasattr(o, '__dict__') else None
        setattr(o, name, value)
        self.patches.append(('a', o, name, had, old))

    def unpatch(self):
        for kind, o, name, had, old in reversed(self.patches):
            if kind == 'd':
                if had:
                    o[name] = old
                else:
                    o.pop(name, None)
            elif had:
                setattr(o, name, old)
            else:
                with contextlib.suppress(AttributeError):
                    delattr(o, name)
        self.patches = []

    def warned(self):
        return [str(w.message) for w in self.wlist]

    def raises(self, label, exc, f, *a, **k):
        try:
            f(*a, **k)
        except (Unsupported, Skip):
            raise
        except exc:
            self.true(label, True)
            return
        except BaseException as e:
            if isinstance(e, PathEnd):
                raise
            self.true(label, False, detail='raised %s instead of %s' % (type(e).__name__, exc))
            return
        self.true(label, False, detail='no exception, expected %s' % (exc,))

    def noraise(self, label, f, *a, **k):
        """run f; any ordinary exception is a failure of `label`.  Returns (ok, value)."""
        try:
            r = f(*a, **k)
        except (Unsupported, Skip):
            raise
        except (Exception, SystemExit) as e:
            self.true(label, False, detail='raised %s: %s' % (type(e).__name__, str(e)[:120]))
            return False, None
        self.true(label, True)
        return True, r

    def eq(self, label, a, b, rtol=RTOL, atol=0.0):
        fa, fb = flatten(a), flatten(b)
        if [s for s, _ in fa] != [s for s, _ in fb]:
            self.true(label + ':structure', False, detail='%s vs %s' % ([s for s, _ in fa][:6], [s for s, _ in fb][:6]))
            return
        for (s, x), (_, y) in zip(fa, fb):
            self.eq1(label + s, plain(x), plain(y), rtol, atol)


class SH(Base):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng
        self.obl = []          # (label, kind, npath, data)
        self.obs = []          # (label, scalar)
        self.known = []

    def var(self, name, lo, hi):
        return Sym(dag.var(name, lo, hi))

    def int(self, name, lo, hi):
        return self.var(name, lo, hi + 0.999).floor()

    def arr(self, name, n, lo, hi):
        if isinstance(n, tuple):
            a = np.empty(n, dtype=object)
            for idx in np.ndindex(n):
                a[idx] = self.var(name + '_'.join(map(str, idx)), lo, hi)
            return a.view(SymArr)
        return obj([self.var('%s%d' % (name, i), lo, hi) for i in range(n)])

    def array(self, lst):
        return obj(lst)

    def choice(self, name, options):
        return self.eng.choose(name, list(options))

    def assume(self, c):
        if isinstance(c, SymB):
            self.eng.assume(c.t)
        elif not c:
            raise PathEnd('assumption false')

    def cut(self):
        raise PathEnd('cut')

    def eq1(self, label, x, y, rtol, atol):
        if isinstance(x, (SymC, complex)) or isinstance(y, (SymC, complex)):
            p, q = sym.cparts(x), sym.cparts(y)
            if p is None or q is None:
                self.true(label, False, detail='%r vs %r' % (x, y))
                return
            self.eq1(label + '.re', p[0], q[0], rtol, atol)
            self.eq1(label + '.im', p[1], q[1], rtol, atol)
            return
        if is_scalar_num(x) and is_scalar_num(y):
            if not is_sym(x) and not is_sym(y):
                x, y = float(x), float(y)
                ok = (x == y) or (x != x and y != y) or abs(x - y) <= (1e-9 if rtol <= RTOL else rtol) * max(abs(x), abs(y)) + atol
                self._add(label, 'tree', ('const', bool(ok)), '%r vs %r' % (x, y))
                self.obs.append((label, x))
                return
            for v in (x, y):
                if not is_sym(v) and not np.isfinite(v):
                    self._add(label, 'tree', ('const', False), '%r vs %r' % (x, y))
                    return
            self._add(label, 'eq', (lift(x), lift(y), rtol, atol), None)
            self.obs.append((label, x))
            return
        if isinstance(x, SymB) or isinstance(y, SymB):
            x, y = bool(x), bool(y)
        if is_sym(x) or is_sym(y):
            self._add(label, 'tree', ('const', False), '%r vs %r' % (x, y))
            return
        try:
            ok = type(x) == type(y) and bool(x == y) or bool(x == y)
        except Exception:
            ok = False
        self._add(label, 'tree', ('const', bool(ok)), '%r vs %r' % (x, y))
        self.obs.append((label, x))

    def _add(self, label, kind, data, detail):
        self.obl.append((label, kind, len(self.eng.path), data, detail))

    def true(self, label, c, detail=None):
        if isinstance(c, (SymArr, np.ndarray)):
            c = bool(c.all())
        if isinstance(c, SymB):
            self._add(label, 'tree', c.t, detail)
        else:
            self._add(label, 'tree', ('const', bool(c)), detail)

    def le(self, label, a, b, slack=0.0):
        c = a <= b
        self.true(label, c)

    def ge(self, label, a, b, slack=0.0):
        self.le(label, b, a, slack)

    def lt(self, label, a, b):
        self.true(label, a < b)

    def observe(self, label, x):
        for s, v in flatten(x):
            v = plain(v)
            if isinstance(v, (SymC, complex)):
                r, i = sym.cparts(v)
                self.obs.append((label + s + '.re', r))
                self.obs.append((label + s + '.im', i))
            else:
                self.obs.append((label + s, v))

    def value_of(self, env, x):
        return x

    def printed(self, label, text, x, digits):
        """the first number in `text` is x, rounded to `digits` decimals."""
        m = re.search('<#(\\d+):([^>]*)>', text)
        if m is None:
            m = re.search(NUMBER, text)
            self.eq1(label, float(m.group()) if m else text, x, 0.0, 0.5000001 * 10.0 ** -digits)
            return
        self.true(label + ' precision', m.group(2) == '.%df' % digits)
        self._add(label, 'eq', (sym.PRINTED[int(m.group(1))], lift(x), RTOL, 0.0), None)

    def lemma(self, label, a, b):
        """prove a <= b on this path, then use it in the later obligations."""
        c = a <= b
        self.true(label, c)
        if isinstance(c, SymB) and self.eng.known.get(tkey(c.t)) is None:
            self.eng._learn(c.t, True)

    def finding(self, fid, text):
        self.known.append((fid, text))

    def proves_eq(self, a, b):
        """True iff the solver shows a == b on this path (used for known findings only)."""
        from . import solve
        x, y = lift(a), lift(b)
        return solve.prove_equal(list(self.eng.path), x, y)[0] == 'unsat'


class CH(Base):
    symbolic = False

    def __init__(self, env, choices):
        super().__init__()
        self.env, self.choices = env, choices
        self.fails = []
        self.checked = 0
        self.pairs = []
        self.obs = []
        self.known = []

    def var(self, name, lo, hi):
        if name not in self.env:
            self.env[name] = lo + 0.5 * (hi - lo)
        return np.float64(self.env[name])

    def int(self, name, lo, hi):
        return int(np.floor(self.var(name, lo, hi + 0.999)))

    def arr(self, name, n, lo, hi):
        if isinstance(n, tuple):
            a = np.zeros(n)
            for idx in np.ndindex(n):
                a[idx] = self.var(name + '_'.join(map(str, idx)), lo, hi)
            return a
        return np.array([self.var('%s%d' % (name, i), lo, hi) for i in range(n)])

    def array(self, lst):
        return np.array(lst)

    def choice(self, name, options):
        options = list(options)
        if name in self.choices:
            k = self.choices[name]
            return options[k]
        return options[0]

    def assume(self, c):
        if not c:
            raise Skip()

    def cut(self):
        raise Skip()

    def eq1(self, label, x, y, rtol, atol):
        self.checked += 1
        self.obs.append((label, x))
        if isinstance(x, complex) or isinstance(y, complex):
            if is_scalar_num(x) and is_scalar_num(y):
                self.obs.pop()
                x, y = complex(x), complex(y)
                self.eq1(label + '.re', x.real, y.real, rtol, max(atol, rtol * 1e-3 * abs(y)))
                self.eq1(label + '.im', x.imag, y.imag, rtol, max(atol, rtol * 1e-3 * abs(y)))
                return
        if is_scalar_num(x) and is_scalar_num(y):
            x, y = float(x), float(y)
            self.pairs.append((label, x, y))
            ok = x == y or (x != x and y != y) or abs(x - y) <= rtol * max(abs(x), abs(y)) + atol
        else:
            try:
                ok = bool(x == y)
            except Exception:
                ok = False
        if not ok:
            self.fails.append((label, '%r vs expected %r' % (x, y)))

    def true(self, label, c, detail=None):
        self.checked += 1
        if not np.all(c):
            self.fails.append((label, detail or 'false'))

    def le(self, label, a, b, slack=0.0):
        m = 1e-9 * max(abs(float(a)), abs(float(b)), 1e-300) + slack
        self.true(label, a <= b + m, '%r <= %r' % (a, b))

    def printed(self, label, text, x, digits):
        m = re.search(NUMBER, text)
        self.true(label, m and abs(float(m.group()) - x) <= 0.5000001 * 10.0 ** -digits, '%r vs %r' % (text, x))

    def ge(self, label, a, b, slack=0.0):
        self.le(label, b, a, slack)

    def lt(self, label, a, b):
        self.true(label, a < b, '%r < %r' % (a, b))

    def lemma(self, label, a, b):
        self.le(label, a, b)

    def observe(self, label, x):
        for s, v in flatten(x):
            v = plain(v)
            if isinstance(v, complex):
                self.obs.append((label + s + '.re', v.real))
                self.obs.append((label + s + '.im', v.imag))
            else:
                self.obs.append((label + s, v))

    def finding(self, fid, text):
        self.known.append((fid, text))

    def proves_eq(self, a, b):
        return bool(abs(a - b) <= 1e-9 * max(abs(a), abs(b)))


# ------------------------------------------------------------------ module state
def snapshot():
    """record the state of every loaded pyrtlib module and class (restored before each path)."""
    snap = []
    for k, m in list(sys.modules.items()):
        if (k == 'pyrtlib' or k.startswith('pyrtlib.')) and m is not None and not k.startswith('pyrtlib.tests'):
            snap.append((m, dict(m.__dict__), contents(m.__dict__)))
            for v in list(m.__dict__.values()):
                if isinstance(v, type) and v.__module__ == k:
                    snap.append((v, {a: b for a, b in v.__dict__.items() if not a.startswith('__')}, contents(v.__dict__)))
    return snap


def contents(d):
    """what the containers among the attributes hold, and the memoised functions."""
    held = []
    for a, b in list(d.items()):
        if isinstance(b, (dict, list, set)) and not a.startswith('__'):
            held.append((b, b.copy()))
        f = b.__func__ if isinstance(b, (staticmethod, classmethod)) else b
        if callable(getattr(f, 'cache_clear', None)):
            held.append((f, None))
    return held


def refill(held):
    for b, was in held:
        if was is None:
            b.cache_clear()
        elif len(b) != len(was) or (any(k not in b or b[k] is not was[k] for k in was) if isinstance(b, dict) else any(x is not y for x, y in zip(b, was)) if isinstance(b, list) else b != was):
            b.clear()
            (b.extend if isinstance(b, list) else b.update)(was)


def restore(snap):
    for o, d, held in snap:
        refill(held)
        cur = o.__dict__
        if isinstance(o, types.ModuleType):
            for a in list(cur):
                if a not in d:
                    del cur[a]
            cur.update(d)
        else:
            for a in list(cur):
                if not a.startswith('__') and a not in d:
                    delattr(o, a)
            for a, b in d.items():
                if cur.get(a) is not b:
                    setattr(o, a, b)


ALLMODS = ['', 'utils', 'absorption_model', 'rt_equation', 'tb_spectrum', 'weighting_functions', 'climatology',
           'climatology.extrapolation', 'climatology.atmospheric_profiles', 'uncertainty',
           'uncertainty.absmod_uncertainty', 'apiwebservices', 'apiwebservices.webservices', 'apiwebservices.igra2',
           'apiwebservices.wyomingupperair', 'apiwebservices.erafive']


def load_all():
    for m in ALLMODS:
        try:
            importlib.import_module('pyrtlib' + ('.' + m if m else ''))
        except ModuleNotFoundError:
            if m in ('',):
                raise
    patch_pandas()


@contextlib.contextmanager
def quiet(h):
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter('always')
        h.wlist = wl
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            yield
