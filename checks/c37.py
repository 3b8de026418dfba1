"""C37: Wyoming sounding pages."""
from checks.archive import Response, serve
from symx import sym, text
from symx.harness import harness

BOUNDS = ('pages of 1-3 levels whose numbers take every value of every width and sign that fits their 7-character columns, any column blank, '
          'with and without a station name, any station number, date, coordinates and elevation; station lists of 1-3 stations')
ASSUMPTIONS = ['the table is laid out in columns of 7 characters after five lines of heading, the layout the service publishes',
               'the stations of a list have different numbers', 'pandas converts numeric text as documented', 'the observation hour is given with two-digit years from 1969 to 2068']
COLS = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
DEC = dict(pressure=1, height=0, temperature=1, dewpoint=1, rh=0, mixr=2)
UNITS = dict(pressure='hPa', height='meter', temperature='degC', dewpoint='degC', rh='%', mixr='g/kg', latitude='degrees', longitude='degrees', elevation='meter')
TYP = dict(pressure=4, height=4, temperature=3, dewpoint=3, rh=2, mixr=3)
nan = float('nan')
HEAD = '''
-----------------------------------------------------------------------------
   PRES   HGHT   TEMP   DWPT   RELH   MIXR   DRCT   SKNT   THTA   THTE   THTV
    hPa     m      C      C      %%    g/kg    deg   knot     K      K      K
-----------------------------------------------------------------------------
'''.replace('%%', '%')


def dec(h, name, d, places, sign=''):
    """a decimal of d digits, `places` of them after the point -> (text, value)."""
    v = h.int(name, 10 ** (d - 1) if d > max(places + 1, 1) else 0, 10 ** d - 1)
    t = text.digits(v, d)
    if places:
        t = t[:-places] + '.' + t[-places:]
    x = v / 10.0 ** places if places else v
    return sign + t, -x if sign else x


def page(rows, meta, title='16245 LIRE Pratica Di Mare Observations at 12Z 22 Jun 2022'):
    table = ''.join(''.join(t.rjust(7) for t in r) + '\n' for r in rows)
    info = '\n' + ''.join('%43s: %s\n' % m for m in meta)
    return ('<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<BODY BGCOLOR="white">\n<H2>%s</H2>\n<PRE>%s%s</PRE>'
            '<H3>Station information and sounding indices</H3><PRE>%s</PRE>\n<P>Description of the data columns</P></BODY>\n</HTML>\n'
            % (title, HEAD, table, info))


def station(h, named=True, lat='', lon='', elev='', whole=False):
    num, (la, lav), (lo, lov), (el, elv) = h.int('num', 0, 99999), dec(h, 'lat', 4, 2, lat), dec(h, 'lon', 5 if lon else 4, 2, lon), dec(h, 'elev', *((3, 0) if whole else (4, 1)), elev)
    el += '.0' * whole
    t = [h.int('year', 0, 99), h.int('month', 1, 12), h.int('day', 1, 28), h.int('hour', 0, 23), h.int('minute', 0, 59)]
    n = text.digits(num, 5)
    when = ''.join(text.digits(x, 2) for x in t[:3]) + '/' + ''.join(text.digits(x, 2) for x in t[3:])
    meta = [('Station identifier', 'LIRE')] * named + [('Station number', n), ('Observation time', when), ('Station latitude', la),
                                                       ('Station longitude', lo), ('Station elevation', el), ('Showalter index', '0.90')]
    return meta, (num, t, lav, lov, elv)


def num(x):
    if isinstance(x, str):
        return text.number(x, True) if text.has_token(x) else float(x)
    return x if isinstance(x, sym.Sym) else float(x)


def request(h, txt):
    serve(h, lambda url: Response(body=txt))
    from datetime import datetime
    return h.noraise('parsed', h.mod('apiwebservices.wyomingupperair').WyomingUpperAir.request_data, datetime(2022, 6, 22, 12), 'LIRE')


META = [('Station identifier', 'LIRE'), ('Station number', '16245'), ('Observation time', '220622/1200'), ('Station latitude', '41.65'),
        ('Station longitude', '12.43'), ('Station elevation', '6.0')]


def table(h, levels, blank=(), form=None, full=False):
    rows, want = [], []
    for k in range(levels):
        r, w = [], {}
        for c in COLS:
            d, s = TYP[c], '-' if c in ('temperature', 'dewpoint') and k % 2 else ''
            if form and form[0] == c and k == 0:
                d, s = form[1], form[2]
            if full:
                d, s = 7 - (DEC[c] > 0) - (k % 2 and c in ('temperature', 'dewpoint')), '-' if k % 2 and c in ('temperature', 'dewpoint') else ''
            if (k, c) in blank:
                r.append('')
                w[c] = nan
            else:
                t, w[c] = dec(h, '%s%d' % (c, k), d, DEC[c], s)
                r.append(t)
        rows.append(r + ['255', '30', '411.5', '', '411.5'])
        want.append(w)
    ok, df = request(h, page(rows, META))
    if not ok:
        return
    keep = [w for w in want if w['temperature'] == w['temperature'] and w['dewpoint'] == w['dewpoint']]
    h.eq('levels', len(df), len(keep))
    h.true('columns', all(c in df.columns for c in COLS))
    for k, w in enumerate(keep[:len(df)]):
        for c in COLS:
            h.eq('%s %d' % (c, k), num(df[c].values[k]), w[c])
    h.eq('index', [int(i) for i in df.index], list(range(len(keep))))
    h.eq('units', {n: df.attrs['units'].get(n) for n in UNITS}, UNITS)


@harness(cases=[dict(levels=n) for n in (1, 2, 3)] + [dict(levels=2, full=True), dict(levels=3, full=True, _tier='thorough')])
def values(h, levels, full=False):
    table(h, levels, full=full)


@harness(cases=[dict(col=c, row=r, levels=3) for c in COLS for r in (0, 1, 2)])
def blanks(h, col, row, levels):
    table(h, levels, {(row, col)})


@harness(cases=[dict(kind=k) for k in ('all', 'moisture', 'thermo', 'two')])
def blank_groups(h, kind):
    b = dict(all=[(1, c) for c in COLS[1:]], moisture=[(2, c) for c in COLS[3:]], thermo=[(0, 'temperature'), (0, 'dewpoint'), (2, 'rh'), (2, 'mixr')],
             two=[(0, 'temperature'), (2, 'dewpoint'), (1, 'height')])[kind]
    table(h, 3, set(b))


@harness(cases=[dict(col=c, d=d, neg=s) for c, ds in dict(pressure=(2, 3, 4, 5), height=(1, 2, 3, 4, 5), temperature=(2, 3), dewpoint=(2, 3), rh=(1, 2, 3), mixr=(3, 4)).items()
                for d in ds for s in ('', '-') if not s or c in ('temperature', 'dewpoint', 'height') and d < 5])
def widths(h, col, d, neg):
    table(h, 2, form=(col, d, neg))


@harness(cases=[dict(named=n, lat=a, lon=o, elev='-' if a != o else '') for n in (True, False) for a in ('', '-') for o in ('', '-')] +
         [dict(named=True, elev=s, whole=True) for s in ('', '-')])
def metadata(h, named, lat='', lon='', elev='', whole=False):
    meta, (n, t, la, lo, el) = station(h, named, lat, lon, elev, whole)
    ok, df = request(h, page([['1000.0', '112', '8.4', '7.2', '92', '6.45'], ['925.0', '789', '23.8', '13.8', '53', '10.79']], meta))
    if not ok:
        return
    h.eq('levels', len(df), 2)
    for i in range(2):
        h.eq('station %d' % i, df['station'].values[i], 'LIRE' if named else '')
        h.eq('number %d' % i, num(df['station_number'].values[i]), n)
        for c, v in (('latitude', la), ('longitude', lo), ('elevation', el)):
            h.eq('%s %d' % (c, i), num(df[c].values[i]), v)
        d = list(df['time'])[i]
        y = t[0] + 2000 if t[0] < 69 else t[0] + 1900
        h.eq('time %d' % i, [d.year, d.month, d.day, d.hour, d.minute], [y] + t[1:])
        h.eq('title %d' % i, df['title'].values[i], '16245 LIRE Pratica Di Mare Observations at 12Z 22 Jun 2022')


@harness(cases=[dict(n=n) for n in (1, 2, 3)])
def stations(h, n):
    ids = [text.digits(h.int('id%d' % i, 0, 99999), 5) for i in range(n)]
    names = ['Kings Park', 'Pratica  Di Mare', 'Halley']
    if h.symbolic:
        pass
    else:
        h.assume(len(set(ids)) == n)
    body = '<html><map name="m">' + ''.join('<area shape="circle" coords="1,2,3" href="x" title="%s  %s">' % (i, s) for i, s in zip(ids, names)) \
        + '<area shape="circle" coords="1,2,3" href="y">' + '</map></html>'
    serve(h, lambda url: Response(body=body))
    ok, df = h.noraise('parsed', h.mod('apiwebservices.wyomingupperair').WyomingUpperAir.get_stations, 'pac')
    if ok:
        h.eq('stations', len(df), n)
        for k in range(min(n, len(df))):
            text.compare(h, 'id %d' % k, df['station_id'].values[k], ids[k])
            h.eq('name %d' % k, df['station_name'].values[k], names[k])
