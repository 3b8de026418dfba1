"""C10: hypsometric thickness and virtual temperature."""
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import RD, RV, long

BOUNDS = '2-4 levels (thorough: 5), and 30 and 80 levels of which a few are symbolic, pressure 0.001-1200 hPa, 60-450 K, mixing ratio 0..0.5 kg/kg'
G, RDM = 9.80665, 8.314462618 / 28.96546e-3


def tv(t, r):
    e = RD / RV
    return t * (r + e) / (e * (1.0 + r))


@harness(cases=[dict(arr=False), dict(arr=True)])
def virtual(h, arr):
    u = h.mod('utils')
    if arr:
        t, r = h.arr('t', 2, 60.0, 450.0), h.arr('r', 2, 0.0, 0.5)
        h.eq('tv', u.virtual_temperature(t, r), h.array([tv(t[i], r[i]) for i in range(2)]))
    else:
        t, r = h.var('t', 60.0, 450.0), h.var('r', 0.0, 0.5)
        v = u.virtual_temperature(t, r)
        h.eq('tv', v, tv(t, r))
        h.le('tv>=t', t, v)
        h.eq('dry', u.virtual_temperature(t, 0.0), t)


@harness(cases=[dict(n=n, moist=m) for n in (2, 3, 4) for m in (False, True)] + [dict(n=5, moist=True, _tier='thorough')])
def thickness(h, n, moist):
    u = h.mod('utils')
    p = h.arr('p', n, 0.001, 1200.0)
    t = h.arr('t', n, 60.0, 450.0)
    r = h.arr('r', n, 0.0, 0.5) if moist else None
    z = u.atmospheric_tickness(p, t, r)
    v = [tv(t[i], r[i]) if moist else t[i] for i in range(n)]
    ref = [0.0]
    for i in range(1, n):
        ref.append(ref[-1] + RDM / G * 0.5 * (v[i] + v[i - 1]) * fn.log(p[i - 1] / p[i]) / 1000.0)
    h.eq('height', z, h.array(ref), atol=1e-9)


@harness(cases=[dict(n=3, moist=True), dict(n=3, moist=False)])
def increasing(h, n, moist):
    u = h.mod('utils')
    p = h.arr('p', n, 0.001, 1200.0)
    t = h.arr('t', n, 60.0, 450.0)
    r = h.arr('r', n, 0.0, 0.5) if moist else None
    for i in range(1, n):
        h.assume(p[i] < p[i - 1])
    z = u.atmospheric_tickness(p, t, r)
    h.eq('station', z[0], 0.0)
    for i in range(1, n):
        h.lemma('log', fn.log(p[i]), fn.log(p[i - 1]))
        h.le('increasing', z[i - 1], z[i])


@harness()
def whole_numbers(h):
    u = h.mod('utils')
    p, t, r = h.array([1000.0, 850.5, 700.0]), h.arr('t', 3, 60.0, 450.0), h.arr('r', 3, 0.0, 0.5)
    same(h, 'virtual temperature', u.virtual_temperature, [290, 280, 270], r)
    same(h, 'virtual temperature', u.virtual_temperature, 290, r[0])
    same(h, 'pressures', u.atmospheric_tickness, [1000, 850, 700], t, r)
    same(h, 'temperatures', u.atmospheric_tickness, p, [290, 280, 270], r)
    same(h, 'dry', u.atmospheric_tickness, [1000, 850, 700], t)


@harness(cases=[dict(n=n, moist=m) for n in (30, 80) for m in (False, True)])
def many_levels(h, n, moist):
    u = h.mod('utils')
    p, t = long(h, 'p', n, 0.01, 1100.0), long(h, 't', n, 180.0, 330.0)
    r = long(h, 'r', n, 0.0, 0.05) if moist else None
    z = u.atmospheric_tickness(p, t, r)
    v = [tv(t[i], r[i]) if moist else t[i] for i in range(n)]
    ref = [0.0]
    for i in range(1, n):
        ref.append(ref[-1] + RDM / G * 0.5 * (v[i] + v[i - 1]) * fn.log(p[i - 1] / p[i]) / 1000.0)
    h.eq('height', z, h.array(ref), atol=1e-9)
