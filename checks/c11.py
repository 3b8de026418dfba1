"""C11: Thayer refractivity."""
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import long

BOUNDS = '1-3 levels, and 30 and 80 levels of which a few are symbolic, pressure 1e-4..1200 hPa, vapour pressure 0..300 hPa, 60-450 K'


@harness(cases=[dict(n=1), dict(n=2), dict(n=3)])
def thayer(h, n):
    rt = h.mod('rt_equation').RTEquation
    p = h.arr('p', n, 1e-4, 1200.0)
    t = h.arr('t', n, 60.0, 450.0)
    e = h.arr('e', n, 0.0, 300.0)
    dry, wet, m = rt.refractivity(p, t, e)
    D, W, M = [], [], []
    for i in range(n):
        pa, tc = p[i] - e[i], t[i] - 273.16
        za = 1.0 + pa * (5.79e-07 * (1.0 + 0.52 / t[i]) - 0.00094611 * tc / t[i] ** 2)
        zw = 1.0 + 1650.0 * e[i] / t[i] ** 3 * (1.0 - 0.01317 * tc + 0.000175 * tc ** 2 + 1.44e-06 * tc ** 3)
        D.append(77.6036 * pa / t[i] * za)
        W.append((64.79 * e[i] / t[i] + 377600.0 * e[i] / t[i] ** 2) * zw)
        M.append(1.0 + (D[-1] + W[-1]) * 1e-6)
    h.eq('dry', dry, h.array(D))
    h.eq('wet', wet, h.array(W))
    h.eq('index', m, h.array(M))


@harness()
def separate(h):
    """without vapour the wet part vanishes; at vapour pressure equal to pressure the dry part does."""
    rt = h.mod('rt_equation').RTEquation
    p = h.arr('p', 1, 1e-4, 1200.0)
    t = h.arr('t', 1, 60.0, 450.0)
    dry, wet, m = rt.refractivity(p, t, p * 0.0)
    h.eq('wet', wet[0], 0.0)
    dry, wet, m = rt.refractivity(p, t, p)
    h.eq('dry', dry[0], 0.0)


@harness()
def whole_numbers(h):
    rt = h.mod('rt_equation').RTEquation
    p, t, e = h.arr('p', 3, 1e-4, 1200.0), h.arr('t', 3, 60.0, 450.0), h.arr('e', 3, 0.0, 300.0)
    same(h, 'pressures', rt.refractivity, [1000, 850, 1], t, e)
    same(h, 'temperatures', rt.refractivity, p, [290, 280, 210], e)
    same(h, 'vapour pressures', rt.refractivity, p, t, [12, 3, 0])


@harness(cases=[dict(n=n) for n in (30, 80)])
def many_levels(h, n):
    """every level by itself, however many there are."""
    rt = h.mod('rt_equation').RTEquation
    p, t, e = long(h, 'p', n, 1.0, 1100.0), long(h, 't', n, 180.0, 330.0), long(h, 'e', n, 0.0, 50.0)
    out = rt.refractivity(p, t, e)
    for i in range(n):
        one = rt.refractivity(p[i:i + 1], t[i:i + 1], e[i:i + 1])
        for a, b in zip(out, one):
            h.eq('level', a[i], b[0])
