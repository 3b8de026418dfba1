"""C07: vapour pressure and density."""
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import RV, goffwater, goffice, long

BOUNDS = '1-4 levels, and 40 and 90 levels of which a few are symbolic, 60-450 K, relative humidity 0..5, ice on and off, every pattern of levels below/above 263.16 K'


@harness(cases=[dict(n=n, ice=i) for n in (1, 2, 3) for i in (False, True)] + [dict(n=4, ice=True, _tier='thorough')])
def vapor(h, n, ice):
    rt = h.mod('rt_equation').RTEquation
    t = h.arr('t', n, 60.0, 450.0)
    rh = h.arr('rh', n, 0.0, 5.0)
    e, rho = rt.vapor(t, rh, ice)
    ref = [rh[i] * (goffice(t[i]) if ice and t[i] < 263.16 else goffwater(t[i])) for i in range(n)]
    h.eq('e', e, h.array(ref))
    h.eq('rho', rho, h.array([ref[i] / (RV * 1e-5 * t[i]) for i in range(n)]))


@harness(cases=[dict(ice=False), dict(ice=True)])
def linear(h, ice):
    rt = h.mod('rt_equation').RTEquation
    t = h.arr('t', 2, 60.0, 450.0)
    rh = h.arr('rh', 2, 0.0, 5.0)
    k = h.var('k', 0.0, 10.0)
    e, rho = rt.vapor(t, rh, ice)
    e2, rho2 = rt.vapor(t, rh * k, ice)
    h.eq('e', e2, e * k)
    h.eq('rho', rho2, rho * k)


@harness(cases=[dict(ice=False), dict(ice=True)])
def local(h, ice):
    """a level is not influenced by the others, and the inputs stay as they were."""
    rt = h.mod('rt_equation').RTEquation
    t = h.arr('t', 2, 60.0, 450.0)
    rh = h.arr('rh', 2, 0.0, 5.0)
    t0, rh0 = t.copy(), rh.copy()
    e, rho = rt.vapor(t, rh, ice)
    for i in (0, 1):
        e1, rho1 = rt.vapor(t[i:i + 1], rh[i:i + 1], ice)
        h.eq('e', e1[0], e[i])
        h.eq('rho', rho1[0], rho[i])
    h.eq('t kept', t, t0)
    h.eq('rh kept', rh, rh0)


@harness(cases=[dict(ice=False), dict(ice=True)])
def whole_numbers(h, ice):
    rt = h.mod('rt_equation').RTEquation
    same(h, 'temperatures', rt.vapor, [290, 270, 250], h.arr('rh', 3, 0.0, 5.0), ice)
    same(h, 'humidities', rt.vapor, h.arr('t', 3, 60.0, 450.0), [1, 0, 1], ice)


@harness(cases=[dict(n=n, ice=i) for n in (40, 90) for i in (False, True)])
def many_levels(h, n, ice):
    rt = h.mod('rt_equation').RTEquation
    t, rh = long(h, 't', n, 180.0, 330.0, (0, n // 2, n - 1)), long(h, 'rh', n, 0.0, 1.5)
    e, rho = rt.vapor(t, rh, ice)
    ref = [rh[i] * (goffice(t[i]) if ice and t[i] < 263.16 else goffwater(t[i])) for i in range(n)]
    h.eq('e', e, h.array(ref))
    h.eq('rho', rho, h.array([ref[i] / (RV * 1e-5 * t[i]) for i in range(n)]))
