"""C04: exponential layer integration."""
from symx.harness import harness
from checks.whole import same
from checks.ref import logmean, long

BOUNDS = '2-4 levels (thorough: 5), and 30 and 70 levels of which one (and some thicknesses) is symbolic, values 0..1e6 (negative ones -10..-1e-15), thickness 0..1000 km, every start level, both zero modes, any factor'
ASSUMPTIONS = ['start level 0 pairs the first level with the last one, as the code does for column amounts; the thickness of the first level is zero there']


def layer(a, b, flag):
    if abs(b - a) < 1e-09:
        return b
    if a == 0.0 or b == 0.0:
        return (a + b) * 0.5 if flag else 0.0
    return logmean(a, b)


@harness(cases=[dict(n=2, ibeg=1, flag=f) for f in (True, False)] + [dict(n=3, ibeg=b, flag=f) for b in (1, 2) for f in (True, False)] +
         [dict(n=4, ibeg=1, flag=True)] + [dict(n=4, ibeg=2, flag=f, _tier='thorough') for f in (True, False)] +
         [dict(n=5, ibeg=1, flag=f, _tier='thorough') for f in (True, False)])
def integrate(h, n, ibeg, flag):
    rt = h.mod('rt_equation').RTEquation
    x = h.arr('x', n, 0.0, 1e6)
    ds = h.arr('ds', n, 0.0, 1000.0)
    fac = h.var('fac', -10.0, 10.0)
    sx, xds = rt.exponential_integration(flag, x, ds, ibeg, n, fac)
    ref, tot = [0.0] * n, 0.0
    for i in range(ibeg, n):
        ref[i] = layer(x[i - 1], x[i], flag) * ds[i]
        tot = tot + ref[i]
    h.eq('layers', xds, h.array(ref), rtol=1e-5)
    h.eq('total', sx, tot * fac, rtol=1e-5)
    h.eq('warnings', len(h.warned()), 0)


@harness(cases=[dict(n=3, neg=k) for k in (0, 1, 2)] + [dict(n=4, neg=2)])
def negative(h, n, neg):
    rt = h.mod('rt_equation').RTEquation
    x = h.arr('x', n, 1e-3, 1e6)
    bad = h.var('bad', -10.0, -1e-15)
    x[neg] = bad
    ds = h.arr('ds', n, 0.0, 1000.0)
    fac = h.var('fac', -10.0, 10.0)
    sx, xds = rt.exponential_integration(True, x, ds, 1, n, fac)
    ref, tot = [0.0] * n, 0.0
    for i in range(1, max(neg, 1)):
        ref[i] = layer(x[i - 1], x[i], True) * ds[i]
        tot = tot + ref[i]
    h.eq('layers', xds, h.array(ref), rtol=1e-5)
    h.eq('total', sx, tot, rtol=1e-5)
    h.true('warned', len(h.warned()) >= 1)


@harness(cases=[dict(n=3, flag=True), dict(n=3, flag=False), dict(n=4, flag=True, _tier='thorough')])
def column(h, n, flag):
    """start level 0 with zero first thickness (column amounts)."""
    rt = h.mod('rt_equation').RTEquation
    x = h.arr('x', n, 1e-3, 1e6)
    ds = h.arr('ds', n, 0.0, 1000.0)
    ds[0] = 0.0
    fac = h.var('fac', -10.0, 10.0)
    sx, xds = rt.exponential_integration(flag, x, ds, 0, n, fac)
    ref, tot = [0.0] * n, 0.0
    for i in range(1, n):
        ref[i] = layer(x[i - 1], x[i], flag) * ds[i]
        tot = tot + ref[i]
    h.eq('layers', xds, h.array(ref), rtol=1e-5)
    h.eq('total', sx, tot * fac, rtol=1e-5)


@harness(cases=[dict(flag=f, ibeg=b) for f in (True, False) for b in (0, 1)])
def whole_numbers(h, flag, ibeg):
    rt = h.mod('rt_equation').RTEquation
    x, ds, fac = h.arr('x', 3, 0.1, 10.0), h.arr('ds', 3, 0.0, 100.0), h.var('fac', -10.0, 10.0)
    def f(x, ds, fac):
        return rt.exponential_integration(flag, x, ds, ibeg, 3, fac)
    same(h, 'values', f, [3, 2, 7], ds, fac)
    same(h, 'thicknesses', f, x, [0, 1, 2], fac)
    same(h, 'factor', f, x, ds, 2)


@harness(cases=[dict(n=n, ibeg=b, flag=f) for n in (30, 70) for b in (0, 1, 12) for f in (True, False)])
def many_levels(h, n, ibeg, flag):
    rt = h.mod('rt_equation').RTEquation
    x = long(h, 'x', n, 1e-3, 50.0, (n // 2,))
    ds = long(h, 'ds', n, 0.0, 10.0)
    ds[0] = 0.0
    fac = h.var('fac', -10.0, 10.0)
    sx, xds = rt.exponential_integration(flag, x, ds, ibeg, n, fac)
    ref, tot = [0.0] * n, 0.0
    for i in range(max(ibeg, 1), n):
        ref[i] = layer(x[i - 1], x[i], flag) * ds[i]
        tot = tot + ref[i]
    h.eq('layers', xds, h.array(ref), rtol=1e-5)
    h.eq('total', sx, tot * fac, rtol=1e-5)
