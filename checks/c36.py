"""C36: reanalysis profiles."""
import numpy as np
from symx import fn, text
from symx.harness import harness
from checks.ref import RD, RV

BOUNDS = ('regular grids of 1-3 latitudes by 1-3 longitudes (thorough: 4) 0.1-2 degrees apart anywhere between 85S and 85N, any location in any cell of the grid, any fields on 1-3 levels, two files one after the other; '
          'requests for any location, resolution, margin and date')
ASSUMPTIONS = ['one time per file', 'the location is at least 2% of the grid spacing from the middle between grid points and the grid does not cross the date line',
               'sklearn.neighbors.BallTree returns the nearest point (any of the points not farther in both coordinates, where that is undecided)',
               'specific humidity is used for the mixing ratio in the virtual temperature, as the package documents by its code',
               'netCDF4.Dataset gives access to the variables of the file by name']
G, RDM = 9.80665, 8.314462618 / 28.96546e-3
NAMES = ['t', 'r', 'clwc', 'ciwc', 'crwc', 'cswc', 'o3', 'q']
RANGE = dict(t=(100.0, 400.0), r=(-5.0, 200.0), q=(-0.001, 0.1))
TIMES = [(1078368, (2023, 1, 8, 0)), (438311, (1950, 1, 1, 23)), (1218113, (2038, 12, 17, 17))]
UNITS = dict(p='hPa', z='km', t='K', clwc='kg kg-1', ciwc='kg kg-1', crwc='kg kg-1', cswc='kg kg-1', o3='kg kg-1', q='kg kg-1')


def dominates(a, b, x):
    """point a is at least as near to x as b in both coordinates."""
    return bool(abs(a[0] - x[0]) <= abs(b[0] - x[0])) and bool(abs(a[1] - x[1]) <= abs(b[1] - x[1]))


class Tree:
    """nearest neighbour of a point: decided where one point is nearest in both coordinates, any candidate otherwise."""

    def __init__(self, points, metric=None, **k):
        self.p = [(r[0], r[1]) for r in points]

    def query(self, x, k=1, return_distance=True, **kw):
        x = (x[0][0], x[0][1])
        cand = list(range(len(self.p)))
        for i in list(cand):
            if any(j != i and dominates(self.p[j], self.p[i], x) and not (j > i and dominates(self.p[i], self.p[j], x)) for j in cand):
                cand.remove(i)
        i = cand[0] if len(cand) == 1 else Tree.h.choice('nearest', cand)
        idx = np.array([[i]])
        return (np.array([[0.0]]), idx) if return_distance else idx


class Var:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return self.a[k]

    shape = property(lambda self: self.a.shape)


def dataset(h, nlev, nlat, nlon, tag=''):
    box = dict(a=(-78.0, -10.0, 10.0, 60.0), b=(10.0, 85.0, -60.0, -10.0)).get(tag, (-78.0, 85.0, -178.0, 172.0))
    lat0, lon0 = h.var(tag + 'lat0', *box[:2]), h.var(tag + 'lon0', *box[2:])
    step = h.var(tag + 'step', 0.1, 2.0)
    lats = h.array([lat0 - step * i for i in range(nlat)])
    lons = h.array([lon0 + step * j for j in range(nlon)])
    when = h.choice(tag + 'when', list(range(len(TIMES))))
    p = h.arr(tag + 'p', nlev, 0.1, 1080.0)
    for i in range(1, nlev):
        h.assume(p[i] > p[i - 1])
    v = {n: h.arr(tag + n, (1, nlev, nlat, nlon), *RANGE.get(n, (0.0, 0.01))) for n in NAMES}
    nc = dict({n: Var(a) for n, a in v.items()}, latitude=Var(lats), longitude=Var(lons), level=Var(p), time=Var(np.array([TIMES[when][0]])))
    return nc, v, lats, lons, p, step, when


def profile(h, v, p, i, j):
    n = len(p)
    c = {k: [a[0, l, i, j] for l in reversed(range(n))] for k, a in v.items()}
    pp = [p[l] for l in reversed(range(n))]
    e = RD / RV
    tv = [t * (q + e) / (e * (1.0 + q)) for t, q in zip(c['t'], c['q'])]
    z = [0.0]
    for l in range(1, n):
        z.append(z[-1] + RDM / G * 0.5 * (tv[l] + tv[l - 1]) * fn.log(pp[l - 1] / pp[l]) / 1000.0)
    c['rh'] = [x / 100 for x in c.pop('r')]
    return dict(c, p=pp, z=z)


def read(h, nc, lonlat, stub):
    M = h.mod('apiwebservices.erafive')
    names = []

    class Dataset:
        def __init__(self, file, *a, **k):
            names.append(file)
            self.variables = nc

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def close(self):
            pass

        def __getitem__(self, k):
            return nc[k]
    h.patch(M, 'Dataset', Dataset)
    if h.symbolic or stub:
        Tree.h = h
        h.patch(M, 'BallTree', Tree)
    df = M.ERA5Reanalysis.read_data('file.nc', lonlat)
    h.eq('file', names, ['file.nc'])
    return df


def run(h, nlev, nlat, nlon, i, j, tag=''):
    nc, v, lats, lons, p, step, when = dataset(h, nlev, nlat, nlon, tag)
    lat, lon = lats[i] + step * h.var(tag + 'dlat', -0.48, 0.48), lons[j] + step * h.var(tag + 'dlon', -0.48, 0.48)
    err = None
    try:
        df = read(h, nc, (lon, lat), i != j and nlat == nlon)
    except ValueError as e:
        err = e
    if err is not None:
        if nlat != nlon and 'same shape' in str(err):
            h.finding('era5-nonsquare', 'reading a profile from a file whose numbers of latitudes and longitudes differ raises ValueError')
            h.true('no wrong profile is returned', True)
        else:
            h.true('profile read', False, detail=str(err))
        return
    at = (i, j)
    if i != j and nlat == nlon:
        x = (lat, lon)
        diag = [k for k in range(nlat) if not any(m != k and dominates((lats[m], lons[m]), (lats[k], lons[k]), x) for m in range(nlat))]
        for k in diag:
            if all(h.proves_eq(df['t'].values[l], v['t'][0, nlev - 1 - l, k, k]) for l in range(nlev)):
                h.finding('era5-diagonal', 'the profile is taken from the diagonal of the grid: the nearest latitude and longitude have different indices '
                          '(pinned by test_pyrtlib_ground_R21SD_ERA5)')
                at = (k, k)
                break
    want = profile(h, v, p, *at)
    for n in want:
        h.eq(n, [x for x in df[n].values], want[n], atol=1e-9 if n == 'z' else 0.0)
    h.eq('units', {n: df.attrs['units'].get(n) for n in UNITS}, UNITS)
    h.true('humidity unit', df.attrs['units'].get('rh') != '%')
    h.eq('time', [(t.year, t.month, t.day, t.hour) for t in df['time']], [TIMES[when][1]] * nlev)


@harness(cases=[dict(nlev=1, n=1, i=0, j=0)] + [dict(nlev=2, n=2, i=i, j=j) for i in (0, 1) for j in (0, 1)] + [dict(nlev=3, n=3, i=i, j=j) for i in range(3) for j in range(3)]
         + [dict(nlev=3, n=4, i=i, j=j, _tier='thorough') for i in range(4) for j in range(4)])
def nearest(h, nlev, n, i, j):
    run(h, nlev, n, n, i, j)


@harness(cases=[dict(nlat=a, nlon=b, i=i, j=j) for a, b in ((1, 2), (2, 3), (3, 1)) for i in range(a) for j in range(b)])
def oblong(h, nlat, nlon, i, j):
    run(h, 2, nlat, nlon, i, j)


@harness(cases=[dict(first=a, second=b) for a, b in (((1, 2, 0), (1, 2, 1)), ((1, 2, 1), (2, 3, 1)), ((2, 3, 2), (2, 3, 2)))])
def another(h, first, second):
    """a profile read after one of another file and location is that of its own file and location."""
    for tag, (nlev, n, i) in (('a', first), ('b', second)):
        run(h, nlev, n, n, i, i, tag)


@harness(cases=[dict(margins=m) for m in ('default', 'given')])
def request(h, margins):
    """the area, grid, date and fields asked for."""
    M = h.mod('apiwebservices.erafive')
    s = (h.int('year', 1950, 2049), h.int('month', 1, 12), h.int('day', 1, 28), h.int('hour', 0, 23))
    if h.symbolic:
        t = text.Stamp(*s)
    else:
        from datetime import datetime
        t = datetime(*s)
    lon, lat = h.var('lon', -179.0, 179.0), h.var('lat', -85.0, 85.0)
    calls = []

    class Client:
        def __init__(self, *a, **k):
            pass

        def retrieve(self, name, req, target=None):
            calls.append((name, req, target))
    h.patch(M, 'cdsapi', type('cdsapi', (), {'Client': Client}))
    res, off = (0.25, 0.4) if margins == 'default' else (h.var('res', 0.1, 2.0), h.var('off', 0.1, 3.0))
    f = M.ERA5Reanalysis.request_data('/scratch', t, (lon, lat)) if margins == 'default' else M.ERA5Reanalysis.request_data('/scratch', t, (lon, lat), res, off)
    h.eq('requests', len(calls), 1)
    name, q, target = calls[0]
    h.eq('dataset', name, 'reanalysis-era5-pressure-levels')
    h.eq('area', list(q['area']), [lat + off, lon - off, lat - off, lon + off])
    h.eq('grid', list(q['grid']), [res, res])
    num = lambda x: text.number(x, False) if isinstance(x, str) and text.has_token(x) else int(x) if not h.symbolic or isinstance(x, (str, int)) else x
    h.eq('date', [num(q[k]) for k in ('year', 'month', 'day')], list(s[:3]))
    hh = str(q['time'])
    h.true('time', hh.endswith(':00'))
    h.eq('hour', num(hh[:-3]), s[3])
    h.eq('fields', sorted(q['variable']), sorted(['relative_humidity', 'specific_cloud_ice_water_content', 'specific_cloud_liquid_water_content',
                                                  'specific_humidity', 'specific_rain_water_content', 'specific_snow_water_content', 'ozone_mass_mixing_ratio', 'temperature']))
    levels = [int(x) for x in q['pressure_level']]
    h.eq('levels', (len(levels), min(levels), max(levels), levels == sorted(set(levels))), (37, 1, 1000, True))
    h.true('target', target == f and f.startswith('/scratch/') and f.endswith('.nc'))
    two = lambda x: text.digits(x, 2)
    text.contains(h, 'file date', f, '%s-%s-%sT%s' % (text.digits(s[0], 4), two(s[1]), two(s[2]), two(s[3])))
