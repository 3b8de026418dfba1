"""C09: unit and humidity conversions."""
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import EPS, RV, RD

BOUNDS = 'pressure 0.001-1200 hPa (heights: 0.01-1200), 60-450 K, mixing ratio 0..1000 g/kg, height -1000..40000 m, dew points -120..100 C, scalars and arrays of 2'


def q(h, name, lo, hi, arr):
    return h.arr(name, 2, lo, hi) if arr else h.var(name, lo, hi)


def each(h, f, *a):
    if hasattr(a[0], 'shape') and a[0].shape:
        return h.array([f(*[x[i] for x in a]) for i in range(len(a[0]))])
    return f(*a)


AR = [dict(arr=False), dict(arr=True)]


@harness(cases=AR)
def pressure_mixing(h, arr):
    u = h.mod('utils')
    p = q(h, 'p', 1e-3, 1200.0, arr)
    w = q(h, 'w', 0.0, 1000.0, arr)
    e = each(h, lambda p, x: p * x, p, q(h, 'x', 0.0, 0.9, arr))
    h.eq('mr2e', u.mr2e(p, w), each(h, lambda p, w: p * w / (1000.0 * EPS + w), p, w))
    h.eq('e2mr', u.e2mr(p, e), each(h, lambda p, e: 1000.0 * EPS * e / (p - e), p, e))
    h.eq('e2mr(mr2e)', u.e2mr(p, u.mr2e(p, w)), w, rtol=1e-5)
    h.eq('mr2e(e2mr)', u.mr2e(p, u.e2mr(p, e)), e, rtol=1e-5)


@harness(cases=AR)
def density_mixing(h, arr):
    u = h.mod('utils')
    p = q(h, 'p', 1e-3, 1200.0, arr)
    t = q(h, 't', 60.0, 450.0, arr)
    w = q(h, 'w', 0.0, 1000.0, arr)
    rv = RV * 1e-5
    rho = each(h, lambda p, t, x: p * x / (rv * t), p, t, q(h, 'x', 0.0, 0.9, arr))
    h.eq('mr2rho', u.mr2rho(w, t, p), each(h, lambda w, t, p: w * p / ((1000.0 * EPS + w) * rv * t), w, t, p))
    h.eq('rho2mr', u.rho2mr(rho, t, p), each(h, lambda r, t, p: 1000.0 * EPS * r * rv * t / (p - r * rv * t), rho, t, p))
    h.eq('rho2mr(mr2rho)', u.rho2mr(u.mr2rho(w, t, p), t, p), w, rtol=1e-5)
    h.eq('mr2rho(rho2mr)', u.mr2rho(u.rho2mr(rho, t, p), t, p), rho, rtol=1e-5)


@harness(cases=AR)
def celsius(h, arr):
    u = h.mod('utils')
    t = q(h, 't', 0.0, 500.0, arr)
    c = q(h, 'c', -273.0, 230.0, arr)
    h.eq('there and back', u.to_celsius(u.to_kelvin(c)), c, atol=1e-9)
    h.eq('back and there', u.to_kelvin(u.to_celsius(t)), t)
    off = u.to_kelvin(0.0)
    if off == 273.25 and u.to_celsius(273.25) == 0.0:
        h.finding('kelvin-offset', 'the kelvin/celsius offset is 273.25 instead of 273.15 (pinned by the existing tests)')
        return
    h.eq('kelvin', u.to_kelvin(c), each(h, lambda x: x + 273.15, c))
    h.eq('celsius', u.to_celsius(t), each(h, lambda x: x - 273.15, t), atol=1e-9)


@harness(cases=AR)
def celsius_linear(h, arr):
    """one kelvin is one degree everywhere on the scale."""
    u = h.mod('utils')
    t = q(h, 't', 0.0, 500.0, arr)
    c = q(h, 'c', -273.0, 230.0, arr)
    h.eq('kelvin', u.to_kelvin(c) - c, each(h, lambda x: x * 0.0 + u.to_kelvin(0.0), c))
    h.eq('celsius', t - u.to_celsius(t), each(h, lambda x: x * 0.0 + u.to_kelvin(0.0), t))


G, RDM = 9.80665, 8.314462618 / 28.96546e-3


@harness()
def standard_height(h):
    u = h.mod('utils')
    p = h.var('p', 0.01, 1200.0)
    z = h.var('z', -1000.0, 40000.0)
    h.eq('p(z(p))', u.height_to_pressure(u.pressure_to_height(p)), p)
    h.eq('z(p(z))', u.pressure_to_height(u.height_to_pressure(z)), z, atol=1e-3)
    h.eq('reference level', u.pressure_to_height(1013.25), 0.0, atol=1e-9)
    g = -0.0065
    wz, wp = (288.0 / g) * (1.0 - (p / 1013.25) ** (RDM * g / G)), 1013.25 * (1.0 - z * g / 288.0) ** (G / (RDM * g))
    if h.proves_eq(u.pressure_to_height(p), wz) and h.proves_eq(u.height_to_pressure(z), wp):
        h.finding('lapse-sign', 'pressure/height conversions use the standard lapse rate with the wrong sign (pinned by the existing tests)')
        return
    g = 0.0065
    h.eq('height', u.pressure_to_height(p), (288.0 / g) * (1.0 - (p / 1013.25) ** (RDM * g / G)))
    h.eq('pressure', u.height_to_pressure(z), 1013.25 * (1.0 - z * g / 288.0) ** (G / (RDM * g)))


# molecules by the gas constants of AtmosphericProfiles: {element: number of atoms}
GASES = dict(H2O='HHO', CO2='COO', O3='OOO', N2O='NNO', CO='CO', CH4='CHHHH', O2='OO', NO='NO', SO2='SOO', NO2='NOO', NH3='NHHH', HNO3='HNOOO',
             OH='OH', HF='HF', HCL='HL', HBR='HB', HI='HI', CLO='LO', OCS='OCS', H2CO='HHCO', HOCL='HOL', N2='NN', HCN='HCN', CH3CL='CHHHL',
             H2O2='HHOO', C2H2='CCHH', C2H6='CCHHHHHH', PH3='PHHH', COF2='COFF', SF6='SFFFFFF', H2S='HHS', CCL3F='CLLLF', CCL2F2='CLLFF',
             CCLF3='CLFFF', CF4='CFFFF', CHCl2F='CHLLF', CHCLF2='CHLFF', C2CL3F3='CCLLLFFF', C2CL2F4='CCLLFFFF', C2CLF5='CCLFFFFF', CCL4='CLLLL',
             CLONO2='LONOO', N2O5='NNOOOOO', HNO4='HNOOOO')
MASS = dict(H=1.0, C=12.0, N=14.0, O=16.0, F=19.0, S=32.0, P=31.0, L=35.0, B=80.0, I=127.0)      # nominal


@harness(cases=[dict(arr=a, gas=g) for a in (False, True) for g in GASES])
def ppmv(h, arr, gas):
    u, A = h.mod('utils'), h.mod('climatology.atmospheric_profiles').AtmosphericProfiles
    x = q(h, 'x', 0.0, 1e6, arr)
    mass = sum(MASS[e] for e in GASES[gas])
    if gas == 'CCL3F' and abs(u.gas_mass(A.CCL3F) / 1.6726485e-27 - 46.0) < 1e-9:
        h.finding('ccl3f-mass', 'the mass of CCL3F (31) is that of formic acid')
        mass = 46.0
    h.eq('g/kg', u.ppmv2gkg(x, getattr(A, gas)), each(h, lambda v: v * 1e-6 * mass / 28.9402753669 * 1000.0, x))
    h.eq('mass', u.gas_mass(getattr(A, gas)), mass * 1.6726485e-27)
    h.eq('air', u.gas_mass(A.AIR), 28.9402753669 * 1.6726485e-27)


@harness(cases=AR)
def number_density(h, arr):
    u = h.mod('utils')
    m = q(h, 'm', 0.0, 1e6, arr)
    p = q(h, 'p', 1e-3, 120000.0, arr)
    t = q(h, 't', 60.0, 450.0, arr)
    h.eq('n', u.ppmv_to_moleculesm3(m, p, t),
         each(h, lambda m, p, t: m * 1e-6 * 6.022140857e+23 * p / (8.31446261815324 * t), m, p, t))


@harness(cases=AR)
def air_density(h, arr):
    u = h.mod('utils')
    s = q(h, 'q', -0.01, 0.5, arr)
    p = q(h, 'p', 1e-3, 1200.0, arr)
    t = q(h, 't', 60.0, 450.0, arr)
    h.eq('rho', u.kgkg_to_kgm3(s, p, t),
         each(h, lambda s, p, t: 100.0 * p / (RD * (1.0 + (1.0 - EPS) / EPS * s) * t), s, p, t))


@harness(cases=[dict(method='arm', ice=False), dict(method='magnus', ice=False), dict(method='magnus', ice=True)])
def dewpoint(h, method, ice):
    u = h.mod('utils')
    td, t = h.var('td', -120.0, 100.0), h.var('t', -120.0, 100.0)
    rh = u.dewpoint2rh(td, t, ice, method)
    if method == 'arm':
        ref = fn.exp(17.625 * td / (243.04 + td)) / fn.exp(17.625 * t / (243.04 + t))
    else:
        a, b = (9.5, 265.5) if ice else (7.5, 237.3)
        ref = 10.0 ** (a * td / (td + b) - a * t / (t + b))
    h.eq('rh', rh, ref)
    h.eq('saturated', u.dewpoint2rh(t, t, ice, method), 1.0)
    if td <= t:
        h.le('rh<=1', rh, 1.0)
    h.lt('positive', 0.0, rh)


@harness()
def dewpoint_default(h):
    u = h.mod('utils')
    td, t = h.var('td', -120.0, 100.0), h.var('t', -120.0, 100.0)
    h.eq('rh', u.dewpoint2rh(td, t), fn.exp(17.625 * td / (243.04 + td)) / fn.exp(17.625 * t / (243.04 + t)))


@harness()
def whole_numbers(h):
    u = h.mod('utils')
    A = h.mod('climatology.atmospheric_profiles').AtmosphericProfiles
    p, t, w = h.arr('p', 2, 300.0, 1100.0), h.arr('t', 2, 180.0, 330.0), h.arr('w', 2, 0.1, 50.0)
    same(h, 'mr2e', u.mr2e, [1000, 850], w)
    same(h, 'mr2e', u.mr2e, p, [12, 7])
    same(h, 'e2mr', u.e2mr, [1000, 850], w)
    same(h, 'e2mr', u.e2mr, p, [12, 7])
    for k in ('mr2rho', 'rho2mr', 'rho2rh'):
        same(h, k, getattr(u, k), [12, 7], t, p)
        same(h, k, getattr(u, k), w, [291, 260], p)
        same(h, k, getattr(u, k), w, t, [1000, 850])
    same(h, 'ppmv', u.ppmv2gkg, [3, 400], A.H2O)
    same(h, 'number density', u.ppmv_to_moleculesm3, [3, 4], p, t)
    same(h, 'number density', u.ppmv_to_moleculesm3, w, [900, 800], t)
    same(h, 'number density', u.ppmv_to_moleculesm3, w, p, [300, 250])
    same(h, 'air density', u.kgkg_to_kgm3, w * 1e-3, [900, 800], t)
    same(h, 'air density', u.kgkg_to_kgm3, w * 1e-3, p, [300, 250])
    same(h, 'kelvin', u.to_kelvin, [-3, 15])
    same(h, 'celsius', u.to_celsius, [270, 290])
    for m in ('arm', 'magnus'):
        same(h, 'dew point', u.dewpoint2rh, 3, h.var('tc', 3.0, 40.0), False, m)
        same(h, 'dew point', u.dewpoint2rh, h.var('td', -40.0, 20.0), 20, False, m)
    same(h, 'height', u.pressure_to_height, 850)
    same(h, 'pressure', u.height_to_pressure, 1500)
