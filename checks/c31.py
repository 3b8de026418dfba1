"""C31: latitude and season models of ITU-R P.835."""
import numpy as np
from checks import ituref as R
from symx.harness import harness
from checks.whole import same

BOUNDS = 'any latitude between 90 S and 90 N, both seasons, any altitude 0-100 km (one symbolic altitude, or arrays of two in any order)'
ASSUMPTIONS = ['the Recommendation itself is the reference: its layer formulas are transcribed in checks/ituref.py; the pressures at 10 and 72 km, '
               'which the package stores rounded to 7 digits, are taken from the formulas (agreement to 1e-5)']
SPANS = [(0.0, 7.0), (6.0, 9.0), (9.0, 12.0), (12.0, 16.0), (15.0, 25.0), (24.0, 40.0), (40.0, 51.0), (50.0, 60.0), (60.0, 75.0), (74.0, 80.5), (80.0, 100.0)]
SEASONS = ('summer', 'winter')


def E(h):
    return h.mod('climatology.extrapolation').ProfileExtrapolation()


def exact(h, tag, e, lat, season, z, want):
    k = R.key(lat, season)
    arr = isinstance(want, list)

    def ref(f):
        return h.array([f(k, x) for x in want]) if arr else f(k, want)
    h.eq(tag + 'temperature', e.temperature(lat, z, season), ref(R.temperature))
    h.eq(tag + 'pressure', e.pressure(lat, z, season), ref(R.pressure), rtol=1e-5)
    h.eq(tag + 'vapour density', e.water_vapour_density(lat, z, season), ref(R.density))


@harness(cases=[dict(lo=a, hi=b, season=s) for a, b in SPANS for s in SEASONS], max_paths=1000)
def formulas(h, lo, hi, season):
    exact(h, '', E(h), h.var('lat', -90.0, 90.0), season, *(h.var('h', lo, hi),) * 2)


@harness(cases=[dict(a=a, b=b, season=s, lat=l) for a, b in (((0.0, 8.0), (20.0, 40.0)), ((53.0, 79.0), (11.0, 14.0)), ((80.5, 100.0), (2.0, 6.0)), ((9.0, 11.0), (9.5, 10.5)))
                for s in SEASONS for l in ((-21.9, 21.9), (22.0, 44.9), (-90.0, -45.0))], max_paths=1000)
def arrays(h, a, b, season, lat):
    want = [h.var('ha', *a), h.var('hb', *b)]
    exact(h, '', E(h), h.var('lat', *lat), season, h.array(want), want)


@harness(cases=[dict(season=s) for s in SEASONS])
def latitudes(h, season):
    """One altitude for each of several latitudes."""
    z = h.var('h', 1.0, 5.0)
    lat = [h.var('l0', -90.0, 0.0), h.var('l1', 0.0, 90.0)]
    e = E(h)
    h.eq('temperature', e.temperature(h.array(lat), z, season), h.array([R.temperature(R.key(l, season), z) for l in lat]))
    h.eq('pressure', e.pressure(h.array(lat), z, season), h.array([R.pressure(R.key(l, season), z) for l in lat]), rtol=1e-5)


@harness()
def defaults(h):
    e = E(h)
    lat, z = h.var('lat', 30.0, 60.0), h.var('h', 0.5, 5.0)
    for n in ('temperature', 'pressure', 'water_vapour_density'):
        h.eq(n, getattr(e, n)(lat, z), getattr(e, n)(lat, z, 'summer'))
        h.raises(n, ValueError, getattr(e, n), lat, z, 'standard')
        h.raises(n + ' none', ValueError, getattr(e, n), lat, z, None)


@harness(cases=[dict(lat=l, zs=z) for l in ((-10.0, 10.0), (30.0, 40.0), (-80.0, -50.0)) for z in ([0, 5, 12], [20, 40, 55], [65, 76, 90])])
def whole_numbers(h, lat, zs):
    e = E(h)
    la = h.var('lat', *lat)
    for s in SEASONS:
        for n in ('temperature', 'pressure', 'water_vapour_density'):
            f = getattr(e, n)
            same(h, n + ' of several', lambda z: f(la, z, s), zs)
            same(h, n, lambda z: f(la, z, s), zs[0])
            same(h, n + ' latitude', lambda x: f(x, zs[0] + 0.5, s), int(lat[1]))
