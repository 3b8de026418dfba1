"""C33: selecting soundings of the radiosonde archive by date."""
from checks.archive import Response, SITE, put, right, serve, zipped
from symx import text
from symx.harness import harness

BOUNDS = ('archives of 1-3 chronological soundings of 1-2 levels with any dates and hours (hour unknown included), two of 6 and 8 soundings of 1-5 levels with given dates, three of 2-4 levels of which some hold no data, one date or any range, '
          'both layouts, any station number')
ASSUMPTIONS = ['the archive is chronological (a sounding of unknown hour counts as 00 UTC), as the published files are',
               'days of the month up to 28', 'the zip archive holds one text file']


FIXED = [(2019, 12, 31, 12), (2019, 12, 31, 23), (2020, 1, 1, 0), (2020, 2, 28, 6), (2020, 3, 1, 18), (2021, 3, 1, 0), (2021, 3, 1, 12), (2021, 11, 9, 11)]


def stamp(h, name, hour=True):
    y, m, d = h.int(name + 'year', 1950, 2049), h.int(name + 'month', 1, 12), h.int(name + 'day', 1, 28)
    return (y, m, d, h.int(name + 'hour', 0, 23) if hour else 0)


def rank(s):
    return ((s[0] * 12 + s[1]) * 31 + s[2]) * 24 + s[3]


def when(h, s):
    if h.symbolic:
        return text.Stamp(*s)
    from datetime import datetime
    return datetime(*s)


def archive(h, derived, hours, levels, fixed=None, gone=()):
    soundings, lines = [], []
    for k, (hr, n) in enumerate(zip(hours, levels)):
        s = fixed[k] if fixed else stamp(h, 's%d' % k, hr)
        soundings.append(s)
        if k and not fixed:
            h.assume(rank(soundings[k - 1]) <= rank(s))
        head = [(1, '#' + SITE), (14, text.digits(s[0], 4)), (19, text.digits(s[1], 2)), (22, text.digits(s[2], 2)),
                (25, text.digits(s[3], 2) if hr else '99'), (28, '%02d15' % (10 + k)), right(33, 36, str(n))]
        if derived:
            lines.append(put(157, head + [right(38, 43, str(1000 + k))] + [right(44 + 6 * i, 49 + 6 * i, '123') for i in range(19)]))
        else:
            lines.append(put(71, head + [(38, 'ncdc-nws'), (47, 'ncdc-nws'), right(56, 62, str(381200 + 1000 * k)), right(64, 71, '157600')]))
        for j in range(n):
            v = str(100 * (k + 1) + j)
            if derived:
                lines.append(put(151, [right(1 + 8 * i, 7 + 8 * i, '-99999' if (k, j) in gone and i in (3, 11, 14, 16) else v) for i in range(19)]))
            elif (k, j) in gone:
                lines.append(put(51, [(1, '21'), right(4, 8, '115'), right(10, 15, '9' + v), right(17, 21, v)] + [right(c, c + 4, '-9999') for c in (23, 29, 35, 41, 47)]))
            else:
                lines.append(put(51, [(1, '21'), right(4, 8, '115'), right(10, 15, '9' + v), right(17, 21, v), right(23, 27, '151'),
                                      right(29, 33, '801'), right(35, 39, '20'), right(41, 45, '270'), right(47, 51, '55')]))
    return soundings, ''.join(lines)


def run(h, derived, hours, levels, single, beg2021=False, fixed=None, gone=()):
    soundings, txt = archive(h, derived, hours, levels, fixed, gone)
    urls = serve(h, lambda url: Response(content=zipped(txt)))
    b = stamp(h, 'b')
    e = b if single else stamp(h, 'e')
    arg = when(h, b) if single else [when(h, b), when(h, e)]
    M = h.mod('apiwebservices.igra2')
    got = err = None
    try:
        got = M.IGRAUpperAir.request_data(arg, SITE, beg2021=beg2021, derived=derived)
    except ValueError as x:
        err = x
    keep = [k for k, s in enumerate(soundings) if rank(b) <= rank(s) and rank(s) <= rank(e)]
    if not keep:
        h.true('a date without data raises', err is not None)
        return
    h.true('soundings within the request are returned', err is None, detail=str(err))
    if err is not None:
        return
    body, head = got
    h.eq('levels returned', [int(x) for x in body['calculated_height' if derived else 'height'].values],
         [100 * (k + 1) + j for k in keep for j in range(levels[k]) if (k, j) not in gone])
    h.eq('soundings returned', [float(x) for x in head['precipitable_water' if derived else 'latitude'].values],
         [10.0 + 0.01 * k if derived else 38.12 + 0.1 * k for k in keep])
    h.eq('level counts', [int(x) for x in head['number_levels'].values], [levels[k] for k in keep])
    for label, df, rows in (('level', body, [k for k in keep for j in range(levels[k]) if (k, j) not in gone]), ('header', head, keep)):
        dates = list(df['date'])
        h.eq('%s dates' % label, len(dates), len(rows))
        for i, (d, k) in enumerate(list(zip(dates, rows)) if fixed is None or gone else list(zip(dates, rows))[::4]):
            h.eq('%s date %d' % (label, i), [d.year, d.month, d.day, d.hour], list(soundings[k]))
    h.eq('requests made', len(urls), 1)


Q = [dict(n=1, single=True), dict(n=2, single=True), dict(n=3, single=True), dict(n=1, single=False), dict(n=2, single=False), dict(n=3, single=False)]


@harness(cases=[dict(c, derived=False, miss=-1) for c in Q] + [dict(n=3, single=s, derived=False, miss=k) for s in (True, False) for k in (0, 1)]
         + [dict(n=2, single=True, derived=True, miss=-1), dict(n=3, single=False, derived=True, miss=-1)]
         + [dict(n=4, single=False, derived=False, miss=-1, _tier='thorough'), dict(n=4, single=True, derived=True, miss=1, _tier='thorough')], max_paths=3000)
def selection(h, n, single, derived, miss):
    run(h, derived, [k != miss for k in range(n)], [1 + (k + n) % 2 for k in range(n)], single)


@harness(cases=[dict(levels=v, derived=d, single=s) for v in ((3, 1, 4, 2, 1, 5), (1, 5, 2, 1, 3, 1, 1, 2)) for d in (False, True) for s in (False, True)], max_paths=3000)
def many(h, levels, derived, single):
    """a longer archive of soundings of very different sizes."""
    run(h, derived, [True] * len(levels), list(levels), single, fixed=FIXED)


@harness(cases=[dict(gone=g, derived=d, single=s) for g in (((0, 1),), ((0, 0), (1, 1)), ((0, 2), (1, 0), (2, 3))) for d in (False, True) for s in (False, True)], max_paths=3000)
def gaps(h, gone, derived, single):
    """levels without any data are left out, and the others keep the date of their own sounding."""
    run(h, derived, [True] * 3, [3, 2, 4], single, fixed=FIXED[2:5], gone=gone)


@harness(cases=[dict(beg2021=b, derived=d) for b in (False, True) for d in (False, True)])
def naming(h, beg2021, derived):
    """the file asked for is the one of the station and of the archive kind; the layout follows the kind."""
    s, txt = archive(h, derived, [True], [2])
    urls = serve(h, lambda url: Response(content=zipped(txt)))
    num = h.int('station', 0, 99999999)
    site = 'SPM' + text.digits(num, 8)
    M = h.mod('apiwebservices.igra2')
    ok, got = h.noraise('request', M.IGRAUpperAir.request_data, when(h, s[0]), site, beg2021=beg2021, derived=derived)
    want = ('derived-por/%s-drvd.txt.zip' if derived else 'data-y2d/%s-data-beg2021.txt.zip' if beg2021 else 'data-por/%s-data.txt.zip') % site
    h.eq('requests made', len(urls), 1)
    text.compare(h, 'file', urls[0][1][-len(want):] if urls else '', want)
    text.compare(h, 'folder', urls[0][1][:-len(want)] if urls else '', 'https://www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/')
    if ok:
        h.true('layout', ('potential_temperature' in got[0].columns) == derived and ('cape' in got[1].columns) == derived)
        h.eq('first level', int(got[0]['calculated_height' if derived else 'height'].values[0]), 100)


@harness(cases=[dict(derived=False), dict(derived=True)])
def repeat(h, derived):
    """two requests in a row are independent."""
    s, txt = archive(h, derived, [True, True], [1, 2])
    serve(h, lambda url: Response(content=zipped(txt)))
    M = h.mod('apiwebservices.igra2')
    h.assume(rank(s[0]) < rank(s[1]))
    a = M.IGRAUpperAir.request_data([when(h, s[0]), when(h, s[1])], SITE, derived=derived)
    b = M.IGRAUpperAir.request_data(when(h, s[1]), SITE, derived=derived)
    key = 'calculated_height' if derived else 'height'
    h.eq('first', [int(x) for x in a[0][key].values], [100, 200, 201])
    h.eq('second', [int(x) for x in b[0][key].values], [200, 201])
