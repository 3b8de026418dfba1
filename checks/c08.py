"""C08: saturation pressures, saturation mixing ratio, relative humidity from mixing ratio."""
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import EPS, goffwater, goffice

BOUNDS = '1-3 levels, pressure 300-1100 hPa, 100-340 K (saturation pressures alone 60-450 K), mixing ratio 0..500 g/kg, vapour density 0..100 g/m3, threshold 150..300 K or none'


@harness(cases=[dict(n=1), dict(n=3)])
def formulas(h, n):
    u = h.mod('utils')
    t = h.arr('t', n, 60.0, 450.0)
    h.eq('water', u.eswat_goffgratch(t), h.array([goffwater(t[i]) for i in range(n)]))
    h.eq('ice', u.esice_goffgratch(t), h.array([goffice(t[i], 273.15) for i in range(n)]))


@harness()
def scalar(h):
    u = h.mod('utils')
    t, p = h.var('t', 180.0, 330.0), h.var('p', 300.0, 1100.0)
    h.eq('water', u.eswat_goffgratch(t), goffwater(t))
    h.eq('ice', u.esice_goffgratch(t), goffice(t, 273.15))
    h.eq('satvap', u.satvap(t), goffwater(t))
    es = goffwater(t)
    h.eq('satmix', u.satmix(p, t), 1000.0 * EPS * es / (p - es))


def es_ref(t, tc):
    if tc is not None and t <= tc:
        return goffice(t, 273.15)
    return goffwater(t)


@harness(cases=[dict(n=n, conv=c) for n in (1, 2, 3) for c in (False, True)])
def switch(h, n, conv):
    u = h.mod('utils')
    t = h.arr('t', n, 100.0, 340.0)
    p = h.arr('p', n, 300.0, 1100.0)
    t0 = t.copy()
    tc = h.var('tc', 150.0, 300.0) if conv else None
    a = (tc,) if conv else ()
    es = [es_ref(t[i], tc) for i in range(n)]
    h.eq('satvap', u.satvap(t, *a), h.array(es))
    h.eq('satmix', u.satmix(p, t, *a), h.array([1000.0 * EPS * es[i] / (p[i] - es[i]) for i in range(n)]))
    h.eq('t kept', t, t0)


@harness(cases=[dict(n=n, conv=c) for n in (1, 2) for c in (False, True)] + [dict(n=3, conv=True, _tier='thorough')])
def humidity(h, n, conv):
    u = h.mod('utils')
    t = h.arr('t', n, 100.0, 340.0)
    p = h.arr('p', n, 300.0, 1100.0)
    w = h.arr('w', n, 0.0, 500.0)
    tc = h.var('tc', 150.0, 300.0) if conv else None
    a = (tc,) if conv else ()
    r1, r2 = u.mr2rh(p, t, w, *a)
    es = [es_ref(t[i], tc) for i in range(n)]
    h.eq('rh', r1, h.array([100.0 * (p[i] * w[i] / (1000.0 * EPS + w[i])) / es[i] for i in range(n)]))
    h.eq('rh wmo', r2, h.array([100.0 * w[i] / (1000.0 * EPS * es[i] / (p[i] - es[i])) for i in range(n)]))


@harness(cases=[dict(n=1), dict(n=2)])
def density(h, n):
    u = h.mod('utils')
    t = h.arr('t', n, 100.0, 340.0)
    p = h.arr('p', n, 300.0, 1100.0)
    rho = h.arr('rho', n, 0.0, 100.0)
    r1, r2 = u.rho2rh(rho, t, p)
    e = [rho[i] * t[i] / 216.7 for i in range(n)]
    es = [goffwater(t[i]) for i in range(n)]
    h.eq('rh', r1, h.array([100.0 * e[i] / es[i] for i in range(n)]))
    h.eq('rh wmo', r2, h.array([100.0 * (e[i] / (p[i] - e[i])) / (es[i] / (p[i] - es[i])) for i in range(n)]))


@harness(cases=[dict(tc=None), dict(tc=260), dict(tc=273)])
def whole_numbers(h, tc):
    u = h.mod('utils')
    p, t, w = h.arr('p', 3, 300.0, 1100.0), h.arr('t', 3, 230.0, 330.0), h.arr('w', 3, 0.1, 20.0)
    for k, before, after in (('satvap', (), ()), ('satmix', (p,), ()), ('mr2rh', (p,), (w,))):
        def f(temp, b=before, a=after):
            return getattr(u, k)(*b, temp, *a, tc)
        same(h, k + ' temperatures', f, [290, 265, 250])
        if tc is None:
            same(h, k + ' one temperature', lambda temp: f(temp, [x[0] for x in before], [x[0] for x in after]), 290)
    same(h, 'satmix pressures', lambda x: u.satmix(x, t, tc), [1000, 850, 700])
    same(h, 'mr2rh pressures', lambda x: u.mr2rh(x, t, w, tc), [1000, 850, 700])
    same(h, 'mr2rh mixing ratios', lambda x: u.mr2rh(p, t, x, tc), [10, 5, 1])
    same(h, 'water', u.eswat_goffgratch, [290, 265, 250])
    same(h, 'ice', u.esice_goffgratch, [270, 265, 250])
