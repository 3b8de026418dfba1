"""C30: the standard atmosphere of ITU-R P.835."""
from checks import ituref as R
from symx.harness import harness
from checks.whole import same

BOUNDS = 'one symbolic altitude in each of the layers between 0 and 120 km (0 to 100 km for the formulas), as a scalar and in arrays of 2-3 altitudes in any order; boundaries to within 1 m'
ASSUMPTIONS = ['the Recommendation itself is the reference: its layer formulas are transcribed in checks/ituref.py',
               'jumps at layer boundaries are bounded by the rounding of the published constants: 0.1 K, 0.1 % in pressure']
LAYERS = [(0.0, 5.0), (5.0, 11.1), (10.9, 20.2), (19.9, 32.3), (32.0, 47.5), (47.0, 51.6), (51.2, 71.9), (71.6, 84.0), (83.0, 86.5), (85.5, 91.5), (90.5, 100.0), (100.0, 120.0)]


def E(h):
    return h.mod('climatology.extrapolation').ProfileExtrapolation()


def compare(h, e, z, want):
    i = e.instance
    h.eq('temperature', i.standard_temperature(z), h.array([R.std_t(x) for x in want]) if isinstance(want, list) else R.std_t(want))
    h.eq('pressure', i.standard_pressure(z), h.array([R.std_p(x) for x in want]) if isinstance(want, list) else R.std_p(want))


@harness(cases=[dict(lo=a, hi=b) for a, b in LAYERS])
def scalar(h, lo, hi):
    compare(h, E(h), *(h.var('h', lo, hi),) * 2)


@harness(cases=[dict(lo=a, hi=b) for a, b in LAYERS])
def public(h, lo, hi):
    """The documented entry points; surface values are the Recommendation's own."""
    e = E(h)
    z = h.var('h', lo, hi)
    h.eq('temperature', e.standard_temperature(z, 288.15), R.std_t(z))
    h.eq('pressure', e.standard_pressure(z, 288.15, 1013.25), R.std_p(z))
    h0, r0 = h.var('h0', 0.5, 10.0), h.var('rho0', 0.0, 40.0)
    h.eq('density', e.standard_water_vapour_density(z, h0, r0), R.std_rho(z, h0, r0))
    h.eq('vapour pressure', e.standard_water_vapour_pressure(z, h0, r0), R.std_rho(z, h0, r0) * R.std_t(z) / 216.7)
    h.eq('vapour pressure, defaults', e.standard_water_vapour_pressure(z), R.std_rho(z) * R.std_t(z) / 216.7)
    h.eq('density, defaults', e.instance.standard_water_vapour_density(z), R.std_rho(z))


@harness(cases=[dict(zs=z) for z in (((0.0, 11.1), (83.0, 86.5)), ((85.5, 91.5), (10.9, 20.2)), ((90.5, 100.0), (19.9, 32.3), (46.0, 52.0)), ((60.0, 75.0), (100.0, 120.0), (0.0, 5.0)))])
def arrays(h, zs):
    want = [h.var('h%d' % i, a, b) for i, (a, b) in enumerate(zs)]
    e = E(h)
    z = h.array(want)
    compare(h, e, z, want)
    h.eq('density', e.instance.standard_water_vapour_density(z), h.array([R.std_rho(x) for x in want]))
    h.eq('vapour pressure', e.instance.standard_water_vapour_pressure(z), h.array([R.std_rho(x) * R.std_t(x) / 216.7 for x in want]))


def geometric(g):
    return 6356.766 * g / (6356.766 - g)


@harness(cases=[dict(b=b) for b in (geometric(11), geometric(20), geometric(32), geometric(47), geometric(51), geometric(71), 86.0, 91.0)])
def seamless(h, b):
    """No jump from one layer to the next."""
    i = E(h).instance
    lo, hi = b - h.var('below', 0.0, 1e-3), b + h.var('above', 0.0, 1e-3)
    t, u = i.standard_temperature(lo), i.standard_temperature(hi)
    h.le('temperature rise', u - t, 0.1)
    h.le('temperature fall', t - u, 0.1)
    c = R.std_p(b)
    for n, x in (('below', lo), ('above', hi)):
        p = i.standard_pressure(x)
        h.le('pressure %s at most' % n, p, 1.002 * c)
        h.ge('pressure %s at least' % n, p, 0.998 * c)


@harness(cases=[dict(a=a, b=b) for a, b in LAYERS if a < 100])
def positive(h, a, b):
    i = E(h).instance
    z = h.var('z', a, b)
    h.true('pressure', i.standard_pressure(z) > 0)
    h.true('temperature', i.standard_temperature(z) > 150)


@harness(cases=[dict(zs=z) for z in ([0, 5, 11], [20, 32, 47], [51, 71, 86], [84, 91, 100], [12])])
def whole_numbers(h, zs):
    e = E(h)
    i = e.instance
    for n in ('temperature', 'pressure', 'water_vapour_density', 'water_vapour_pressure'):
        f = getattr(i, 'standard_' + n)
        same(h, n + ' of several', f, zs)
        same(h, n, f, zs[0])
    same(h, 'density', lambda h0, r0: e.standard_water_vapour_density(2.5, h0, r0), 2, 7)
    same(h, 'pressure', lambda t0, p0: e.standard_pressure(2.5, t0, p0), 288, 1013)
