"""C16: oxygen absorption."""
import types
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import DB2NP

BOUNDS = ('line lists of 1 and 2 lines with every entry symbolic; for R23/R24, whose sums treat lines 1, 2-38 and 39 on differently, lists of 40 '
          'lines with lines 1, 2, 38 and 39 symbolic and zero strength elsewhere; for the others lists of 49 lines with two symbolic ones at chosen places; all 12 models; dry pressure 1e-4..120 kPa, vapour pressure 0..30 kPa, '
          'temperature 100..428 K, frequency 0.1..3000 GHz')
ASSUMPTIONS = ['the complex error function helper (C20) is an arbitrary function here',
               'the reference expressions are transcribed from the published model descriptions carried by the source; line data are those of the line list in effect (C21)']

FIRST = ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']
SECOND = ['R16', 'R20', 'R20SD', 'R22']
ORTHO = ['R23', 'R24']
RNG = dict(s300=(1e-17, 1e-13), be=(0.0, 20.0), w300=(0.5, 2.0), y300=(-0.5, 0.5), v=(-0.5, 0.5), y0=(-0.5, 0.5), y1=(-0.5, 0.5),
           g0=(-0.5, 0.5), g1=(-0.5, 0.5), dnu0=(-0.1, 0.1), dnu1=(-0.1, 0.1))


def dcerr(x, y):
    return fn.cplx(0.5 + 0.1 * x + 0.2 * y, 0.3 * x - 0.1 * y + 0.05)


def lines(h, n, where=None):
    """n lines, those in `where` symbolic and the rest without strength."""
    where = list(range(n)) if where is None else where
    ll = types.SimpleNamespace()
    for k, (lo, hi) in RNG.items():
        rest = 0.0 if k != 'w300' else 1.0
        setattr(ll, k, h.array([h.var('%s_%d' % (k, i), lo, hi) if i in where else rest for i in range(n)]))
    ll.f = h.array([h.var('f_%d' % i, 50.0, 200.0) if i in where else 60.0 for i in range(n)])
    ll.x = h.var('x', 0.5, 1.0)
    ll.wb300 = h.var('wb300', 0.4, 0.7)
    return ll


def setup(h, model, n, where=None, fmax=3000.0):
    am = h.mod('absorption_model')
    ll = lines(h, n, where)
    am.O2AbsModel.model = model
    h.patch(am.O2AbsModel, 'o2ll', ll)
    h.patch(am, '_dcerror', dcerr)
    return am, ll, h.var('pd', 1e-4, 120.0), h.var('vx', 0.7, 3.0), h.var('e', 0.0, 30.0), h.var('f', 0.1, fmax)


def state(model, ll, pd, vx, e):
    """dry pressure and broadening (hPa -> bar)."""
    t = 300.0 / vx
    rho = e * 10.0 / (0.01 * 8.31451 / 18.01528 * t)
    if model in ('R98', 'R03', 'R16', 'R17', 'R18'):
        pv = rho * t / 217.0
    elif model in ('R22', 'R23', 'R24'):
        pv = 4.615228e-3 * rho * t
    else:
        pv = rho * t / 216.68
    p = (pd + e) * 10.0
    pda = p - pv
    if model == 'R98':
        den = 0.001 * (pda + 1.1 * pv) * vx
    elif model == 'R03':
        den = 0.001 * (pda * vx ** 0.9 + 1.1 * pv * vx)
    elif model == 'R16':
        den = 0.001 * (pda * vx ** ll.x + 1.1 * pv * vx)
    else:
        den = 0.001 * (pda * vx ** ll.x + 1.2 * pv * vx)
    return p, pda, den


def first_order(model, ll, p, den, vx, f):
    s = 0.0
    for k in range(len(ll.f)):
        w = ll.w300[k] * den
        y = (0.001 * p * vx ** ll.x if model in ('R98', 'R03') else den) * (ll.y300[k] + ll.v[k] * (vx - 1.0))
        d, u = f - ll.f[k], f + ll.f[k]
        s = s + ll.s300[k] * fn.exp(-ll.be[k] * (vx - 1.0)) * (f / ll.f[k]) ** 2 * ((w + d * y) / (d * d + w * w) + (w - u * y) / (u * u + w * w))
    return s


def second_order(ll, den, vx, f):
    s = 0.0
    for k in range(len(ll.f)):
        w = ll.w300[k] * den
        y = den * (ll.y0[k] + ll.y1[k] * (vx - 1.0))
        c = ll.f[k] + den * den * (ll.dnu0[k] + ll.dnu1[k] * (vx - 1.0))
        g = 1.0 + den * den * (ll.g0[k] + ll.g1[k] * (vx - 1.0))
        d, u = f - c, f + c
        s = s + ll.s300[k] * fn.exp(-ll.be[k] * (vx - 1.0)) * (f / ll.f[k]) ** 2 * ((w * g + d * y) / (d * d + w * w) + (w * g - u * y) / (u * u + w * w))
    return s


def nonresonant(f, g, vx):
    return 1.584e-17 * f * f * g / (vx * (f * f + g * g))


def check(h, model, am, ll, pd, vx, e, f):
    npp, ncpp = am.O2AbsModel().o2_absorption(pd, vx, e, f)
    p, pda, den = state(model, ll, pd, vx, e)
    scale = DB2NP * 0.182 * f
    wnr = ll.wb300 * den
    if model in FIRST:
        s = first_order(model, ll, p, den, vx, f)
    elif model in SECOND:
        s = second_order(ll, den, vx, f)
    if model in ('R19', 'R19SD', 'R20', 'R20SD', 'R22'):
        s = s + nonresonant(f, wnr, vx)
    if model in ('R98', 'R03'):
        a = 5.034e11 * s * pda * vx ** 3 / 3.14159
        cont = 5.034e11 * pda * vx ** 3 / 3.14159 * 1.6e-17 * f * f * wnr / (vx * (f * f + wnr * wnr))
    else:
        a = 1.6097e11 * s * pda * vx ** 3
        cont = 1.6097e11 * pda * vx ** 3 * nonresonant(f, wnr, vx)
    if model not in ('R98', 'R03', 'R16', 'R17', 'R18'):
        cont = 0.0
    if model != 'R98':
        a = fn.maximum(a, 0.0)
        h.ge('not negative', npp, 0.0)
    if model in ('R20', 'R20SD', 'R22'):
        a = 1.004 * a
    h.eq('lines', npp, a / scale)
    h.eq('continuum', ncpp, cont / scale)


@harness(cases=[dict(model=m, n=n) for m in FIRST + SECOND for n in (1, 2)] + [dict(model=m, n=3, _tier='thorough') for m in FIRST + SECOND])
def absorption(h, model, n):
    check(h, model, *setup(h, model, n))


@harness(cases=[dict(model=m, where=w) for m in FIRST + SECOND for w in ((1, 2), (14, 15), (20, 33), (34, 38), (37, 48), (47, 48))])
def long_list(h, model, where):
    """a line counts wherever it stands in a list as long as the shipped ones."""
    check(h, model, *setup(h, model, 49, where))


def speed_dep(h, w, y, d):
    w2 = 0.076 * w
    x = fn.csqrt(fn.cplx(w - 1.5 * w2, d) / w2)
    sd = fn.cplx(1.0, y) * 2.0 * (1.0 - 1.77245385090551603 * x * dcerr(-fn.im(x), fn.re(x))) / w2
    return fn.re(sd)


@harness(cases=[dict(model=m, where=w) for m in ORTHO for w in ((0, 1), (1, 38), (37, 38))] + [dict(model=m, where=(0, 1, 37, 38), _tier='thorough') for m in ORTHO])
def orthogonal(h, model, where):
    """second-order mixing with the gain made orthogonal to the band strengths (lines 2-38)."""
    am, ll, pd, vx, e, f = setup(h, model, 40, where)
    npp, ncpp = am.O2AbsModel().o2_absorption(pd, vx, e, f)
    p, pda, den = state(model, ll, pd, vx, e)
    th1 = vx - 1.0
    band = [k for k in where if 1 <= k <= 37]
    a = {k: ll.s300[k] * fn.exp(-ll.be[k] * th1) / ll.f[k] ** 2 for k in where}
    g = {k: ll.g0[k] + ll.g1[k] * th1 for k in where}
    if model == 'R23':
        pe2 = (0.99 * den) ** 2
        y = {k: 0.99 * den * (ll.y300[k] + ll.y1[k] * th1) for k in where}
        off = sum(a[k] * g[k] for k in band) / sum(a[k] for k in band)
        gf = {k: 1.0 + pe2 * (g[k] - off) if k in band else 1.0 for k in where}
    else:
        pe2 = den ** 2
        a = {k: a[k] * vx for k in where}
        yr = {k: 0.99 * (ll.y300[k] + ll.y1[k] * th1) for k in where}
        low = [k for k in where if k <= 37]
        bias = (1.584e-17 * ll.wb300 + 2.0 * sum(a[k] * (ll.w300[k] + yr[k] * ll.f[k]) for k in low)) / (2.0 * sum(a[k] for k in band))
        ratio = sum(a[k] * g[k] for k in band) / sum(a[k] ** 2 for k in band)
        y = {k: den * (yr[k] - bias / ll.f[k] if k in band else yr[k]) for k in where}
        gf = {k: 1.0 + pe2 * (g[k] - a[k] * ratio) if k in band else 1.0 for k in where}
    wnr = ll.wb300 * den
    s = 1.584e-17 * wnr / (f * f + wnr * wnr)
    if model == 'R23':
        s = s / vx
    for k in sorted(set(where) | ({37} if model == 'R23' else set())):
        if k in where:
            w = ll.w300[k] * den
            c = ll.f[k] + pe2 * (ll.dnu0[k] + ll.dnu1[k] * th1)
            d, u = f - c, f + c
            if k == 0 and abs(d) < 10.0 * w:
                near = speed_dep(h, w, y[k], d)
            else:
                near = (w * gf[k] + d * y[k]) / (d ** 2 + w ** 2)
            s = s + a[k] * (near + (w * gf[k] - u * y[k]) / (u ** 2 + w ** 2))
        if model == 'R23' and k == 37:
            s = fn.maximum(s, 0.0)
    s = 1.6097e11 * s * pda * f * f * vx ** (3 if model == 'R23' else 2)
    h.eq('lines', npp, fn.maximum(s, 0.0) / (DB2NP * 0.182 * f))
    h.ge('not negative', npp, 0.0)
    h.eq('continuum', ncpp, 0.0)


@harness(cases=[dict(model=m) for m in FIRST + SECOND])
def whole_numbers(h, model):
    am, ll, pd, vx, e, f = setup(h, model, 1)
    o2 = am.O2AbsModel()
    same(h, 'frequency', lambda f: o2.o2_absorption(pd, vx, e, f), 60)
    same(h, 'pressures', lambda p, e: o2.o2_absorption(p, vx, e, 60.5), 90, 2)
