"""C14: clear-sky absorption composition."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from checks.ref import DB2NP, long
from checks.stubs import stub

BOUNDS = ('1-3 levels, and 30 and 60 levels of which a few are symbolic, ozone profile absent/present, every combination of nitrogen and ozone model selected or not; the gas models '
          'are arbitrary linear functions of their arguments (their own formulas are decided by C15-C18)')
O3 = ['R18', 'R21', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24']


@harness(cases=[dict(n=n, n2m=a, o3m=b, ozone=o) for n in (1, 2) for a in ('', 'R98') for b in ('', 'R18') for o in (False, True)] +
         [dict(n=1, n2m='R24', o3m=m, ozone=True) for m in O3[1:] + ['R98', 'R17', 'R19SD']] +
         [dict(n=3, n2m='R19', o3m='R22', ozone=True)])
def compose(h, n, n2m, o3m, ozone):
    am = h.mod('absorption_model')
    rt = h.mod('rt_equation').RTEquation
    log = []
    h2o, o2, n2, o3 = stub(h, am, log)
    am.N2AbsModel.model = n2m
    am.O3AbsModel.model = o3m
    p = h.arr('p', n, 1e-4, 1200.0)
    t = h.arr('t', n, 60.0, 450.0)
    e = h.arr('e', n, 0.0, 300.0)
    f = h.var('f', 0.1, 3000.0)
    on = h.arr('on', n, 0.0, 1e4) if ozone else None
    amu = {'token': 1} if h.choice('amu', [0, 1]) else None
    keep = [a.copy() for a in (p, t, e)]
    awet, adry = rt.clearsky_absorption(p, t, e, f, on, amu)
    h.eq('amu passed on', all(a is amu for _, a in log), True)
    k = 0.182 * f * DB2NP
    for i in range(n):
        ek = e[i] / 10.0
        pk = p[i] / 10.0 - ek
        v = 300.0 / t[i]
        a, b = h2o(None, pk, v, ek, f, amu)
        h.eq('wet%d' % i, awet[i], k * (a + b))
        a, b = o2(None, pk, v, ek, f, amu)
        dry = k * (a + b)
        if n2m:
            dry = dry + n2(t[i], p[i] - e[i], f)
        if ozone and o3m in O3:
            dry = dry + o3(None, t[i], p[i], f, on[i], amu)
        h.eq('dry%d' % i, adry[i], dry)
    h.eq('inputs kept', [p, t, e], keep)


@harness()
def whole_numbers(h):
    am, rt = h.mod('absorption_model'), h.mod('rt_equation').RTEquation
    stub(h, am, [])
    am.N2AbsModel.model = am.O3AbsModel.model = 'R18'
    p, t, e, o = h.arr('p', 3, 0.1, 1100.0), h.arr('t', 3, 150.0, 330.0), h.arr('e', 3, 0.0, 80.0), h.arr('on', 3, 0.0, 9.0)
    f = h.var('f', 0.1, 3000.0)
    same(h, 'pressures', rt.clearsky_absorption, [1000, 850, 1], t, e, f, o)
    same(h, 'temperatures', rt.clearsky_absorption, p, [290, 280, 211], e, f, o)
    same(h, 'vapour pressures', rt.clearsky_absorption, p, t, [12, 3, 0], f, o)
    same(h, 'frequency', rt.clearsky_absorption, p, t, e, 23, o)
    same(h, 'ozone', rt.clearsky_absorption, p, t, e, f, [3, 2, 0])


@harness(cases=[dict(n=n) for n in (30, 60)])
def many_levels(h, n):
    """every level by itself, however many there are."""
    am, rt = h.mod('absorption_model'), h.mod('rt_equation').RTEquation
    stub(h, am, [])
    am.N2AbsModel.model = am.O3AbsModel.model = 'R18'
    p, t, e, o = long(h, 'p', n, 1.0, 1100.0), long(h, 't', n, 180.0, 330.0), long(h, 'e', n, 0.0, 50.0), long(h, 'o', n, 0.0, 9.0)
    f = h.var('f', 0.1, 3000.0)
    wet, dry = rt.clearsky_absorption(p, t, e, f, o)
    for i in range(n):
        w, d = rt.clearsky_absorption(p[i:i + 1], t[i:i + 1], e[i:i + 1], f, o[i:i + 1])
        h.eq('wet', wet[i], w[0])
        h.eq('dry', dry[i], d[0])
