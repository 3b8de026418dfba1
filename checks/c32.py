"""C32: extrapolation of an observed profile with the climatology."""
import numpy as np
from checks import ituref as R
from checks.ref import goffwater
from symx.harness import harness
from checks.whole import same

BOUNDS = ('observed profiles of 2-3 ascending levels whose top lies anywhere in an interval of 0.1-1 km (several intervals between 18 and 100 km, thus every way of splicing), '
          'any observed values, any latitude, all months, two extrapolations one after the other by one extrapolator or two')
ASSUMPTIONS = ['the appended heights are those the package documents by its code: every 3.2 km above the profile top up to 50 km, then the extrapolator\'s height grid',
               'the season is summer or winter of the hemisphere poleward of 20 degrees and the standard atmosphere otherwise',
               'vapour density is converted to relative humidity over water with the Goff-Gratch formula']
GRID = [55.0, 60.0, 65.0, 70.0, 75.0, 80.0, 85.0, 90.0, 95.0, 100.0]


def season(lat, month):
    if lat > 20:
        return 'summer' if month in (6, 7, 8) else 'winter' if month in (12, 1, 2) else 'standard'
    if lat < -20:
        return 'winter' if month in (6, 7, 8) else 'summer' if month in (12, 1, 2) else 'standard'
    return 'standard'


def heights(top, grid):
    out = []
    last = top
    if top < 50:
        while top + 3.2 * (len(out) + 1) < 50:
            out.append(top + 3.2 * (len(out) + 1))
            last = out[-1]
    return out + [g for g in grid if g > last]


def climate(lat, month, z):
    s = season(lat, month)
    if s == 'standard':
        t, p, w = R.std_t(z), R.std_p(z), R.std_rho(z)
    else:
        k = R.key(lat, s)
        t, p, w = R.temperature(k, z), R.pressure(k, z), R.density(k, z)
    return p, t, w * t / 216.7 / goffwater(t)


def check(h, tag, got, obs, lat, month, grid):
    z, (p, t, r) = obs
    n = len(z)
    zz, pp, tt, rr = got
    add = heights(z[n - 1], grid)
    h.eq(tag + 'levels', [len(x) for x in got], [n + len(add)] * 4)
    c = [climate(lat, month, x) for x in add]
    h.eq(tag + 'height', zz, h.array([z[i] for i in range(n)] + add))
    h.eq(tag + 'pressure', pp, h.array([p[i] for i in range(n)] + [x[0] for x in c]), rtol=1e-5)
    h.eq(tag + 'temperature', tt, h.array([t[i] for i in range(n)] + [x[1] for x in c]))
    h.eq(tag + 'humidity', rr, h.array([r[i] for i in range(n)] + [x[2] for x in c]))


def observed(h, tag, n, lo, hi):
    z = [h.var(tag + 'z%d' % i, 1.0 + 3 * i, 3.5 + 3 * i) for i in range(n - 1)] + [h.var(tag + 'top', lo, hi)]
    return h.array(z), (h.arr(tag + 'p', n, 1.0, 1000.0), h.arr(tag + 't', n, 100.0, 400.0), h.arr(tag + 'r', n, 0.0, 3.0))


def E(h):
    return h.mod('climatology.extrapolation').ProfileExtrapolation()


def run(h, tag, e, obs, lat, month):
    z, q = obs
    keep = [x.copy() for x in (z,) + q]
    got = e.profile_extrapolation(lat, month, z, q)
    for n, a, b in zip('zptr', (z,) + q, keep):
        h.eq(tag + 'caller ' + n, a, b)
    return got


LATS = [(-90.0, -45.1), (-44.9, -22.1), (-21.9, -20.01), (-20.0, 20.0), (20.01, 21.9), (22.1, 44.9), (45.1, 90.0)]
TOPS = [(18.2, 18.4), (24.0, 24.3), (36.0, 36.3), (43.0, 43.2), (46.5, 46.75), (47.5, 49.5), (49.9, 50.1), (53.0, 57.0), (93.0, 99.0), (99.5, 101.0)]


@harness(cases=[dict(lat=l, months=m) for l in LATS for m in ((1, 6, 4), (12, 2, 7, 8), (3, 5, 9, 10, 11))], max_paths=400)
def seasons(h, lat, months):
    """Which climatology applies, at every latitude and month."""
    e = E(h)
    obs = observed(h, '', 2, 43.0, 43.2)
    la, mo = h.var('lat', *lat), h.choice('month', list(months))
    e.height = np.array([30.0, 55.0, 88.0])
    check(h, '', run(h, '', e, obs, la, mo), obs, la, mo, [30.0, 55.0, 88.0])


@harness(cases=[dict(lo=lo, hi=hi, lat=l, month=m) for lo, hi in TOPS for l, m in ((40.0, 7), (60.0, 1), (-30.0, 8), (10.0, 7))], max_paths=400)
def splice(h, lo, hi, lat, month):
    """Where the climatology starts, for every profile top."""
    obs = observed(h, '', 2, lo, hi)
    check(h, '', run(h, '', E(h), obs, lat, month), obs, lat, month, [float(x) for x in list(range(26)) + [27.5 + 2.5 * i for i in range(10)]] + GRID)


@harness(cases=[dict(a=a, b=b) for a, b in (((53.0, 57.0), (47.5, 49.5)), ((36.0, 36.1), (99.5, 101.0)), ((93.0, 99.0), (93.0, 99.0)), ((45.0, 45.1), (18.2, 18.3)))])
def twice(h, a, b):
    """A second extrapolation with the same object, for another profile, place and month."""
    e = E(h)
    g = [float(x) for x in e.height]
    A, B = observed(h, 'a', 2, *a), observed(h, 'b', 3, *b)
    first = run(h, 'a ', e, A, 50.0, 1)
    kept = [x.copy() for x in first]
    check(h, 'b ', run(h, 'b ', e, B, 5.0, 7), B, 5.0, 7, g)
    h.eq('grid', e.height, np.array(g))
    for n, x, y in zip('zptr', first, kept):
        h.eq('first result ' + n, x, y)
    again = run(h, 'a again ', e, A, 50.0, 1)
    for n, x, y in zip('zptr', again, kept):
        h.eq('repeated ' + n, x, y)
    check(h, 'a ', first, A, 50.0, 1, g)


@harness(cases=[dict(first=a, second=b, same=s) for a, b in (((50.0, 7), (-50.0, 7)), ((50.0, 1), (30.0, 1)), ((10.0, 4), (50.0, 4)), ((50.0, 7), (50.0, 1)), ((50.0, 12), (50.0, 10))) for s in (True, False)]
         + [dict(first=a, second=a, same=s, tops=(43.0, 43.1, 43.12, 43.2)) for a in ((10.0, 4), (50.0, 7)) for s in (True, False)])
def elsewhere(h, first, second, same, tops=(93.0, 94.9, 90.1, 94.9)):
    """An extrapolation for another place, month or profile top after one of as many levels."""
    e = E(h)
    g = [float(x) for x in e.height]
    A, B = observed(h, 'a', 2, *tops[:2]), observed(h, 'b', 2, *tops[2:])
    run(h, 'a ', e, A, *first)
    check(h, 'b ', run(h, 'b ', e if same else E(h), B, *second), B, *second, g)


@harness()
def grid(h):
    """The default grid and its replacement."""
    m = h.mod('climatology.extrapolation')
    e = m.ProfileExtrapolation()
    h.eq('default', e.height, np.array([float(x) for x in list(range(26)) + [27.5 + 2.5 * i for i in range(10)]] + GRID))
    g = h.arr('g', 3, 10.0, 90.0)
    e.height = g
    h.eq('replaced', e.height, g)
    h.raises('list', ValueError, setattr, e, 'height', [1.0, 2.0])
    h.raises('none', ValueError, setattr, e, 'height', None)
    h.eq('kept', e.height, g)
    h.raises('mode', ValueError, m.ProfileExtrapolation, 'ITU')
    h.eq('other objects', m.ProfileExtrapolation().height[40], 75.0)


@harness(cases=[dict(which=w, lat=l) for w in 'zptr' for l in (5.0, 50.0)])
def whole_numbers(h, which, lat):
    z, (p, t, r) = observed(h, '', 2, 46.5, 46.75)
    v = dict(z=z, p=p, t=t, r=r)

    def run(x):
        a = dict(v, **{which: x})
        return E(h).profile_extrapolation(lat, 7, a['z'], (a['p'], a['t'], a['r']))
    same(h, which, run, dict(z=[2, 46], p=[800, 2], t=[280, 230], r=[1, 0])[which])
