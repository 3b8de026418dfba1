"""C34: decoding of the radiosonde archive's fixed-width fields."""
import math
from checks.archive import Response, SITE, number, put, right, serve, zipped
from symx import fn, sym, text
from symx.harness import harness

BOUNDS = ('one sounding of two levels; every field in turn takes every value of every width and sign its columns allow, blank-adjacent or filling its columns, '
          'and each missing-value code, while the other fields hold any typical value; all fields filling their columns at once; three levels, the second with every single main field or none of them; both layouts')
ASSUMPTIONS = ['the column layout is the published one: the data record of the archive and the derived-parameter record (7- and 6-column fields)',
               'release times have minutes 00-59', 'a number rounded half-way between two decimals may go either way',
               'in derived files the values -9999 and -8888 themselves are not used',
               'pandas converts the text of a column it is given no converter for as documented']
nan = float('nan')
# name, first column, last column, decimal scale, typical form
BODY = [('etime', 4, 8, 't', None), ('pressure', 10, 15, 2, 'p5'), ('height', 17, 21, 0, 'p4'), ('temperature', 23, 27, 1, 'p3'),
        ('relative_humidity', 29, 33, 1, 'p3'), ('dewpoint_depression', 35, 39, 1, 'p2'), ('direction', 41, 45, 0, 'p3'), ('speed', 47, 51, 1, 'p3')]
DBODY = ['pressure', 'reported_height', 'calculated_height', 'temperature', 'temperature_gradient', 'potential_temperature',
         'potential_temperature_gradient', 'virtual_temperature', 'virtual_potential_temperature', 'vapor_pressure',
         'saturation_vapor_pressure', 'reported_relative_humidity', 'calculated_relative_humidity', 'relative_humidity_gradient',
         'u_wind', 'u_wind_gradient', 'v_wind', 'v_wind_gradient', 'refractive_index']
DPOW = dict.fromkeys(DBODY, 1)
DPOW.update(pressure=2, reported_height=0, calculated_height=0, vapor_pressure=3, saturation_vapor_pressure=3, refractive_index=0)
DUNIT = dict(pressure='hPa', reported_height='meter', calculated_height='meter', temperature='Kelvin', potential_temperature='Kelvin',
             virtual_temperature='Kelvin', virtual_potential_temperature='Kelvin', vapor_pressure='hPa', saturation_vapor_pressure='hPa',
             reported_relative_humidity='percent', calculated_relative_humidity='percent', u_wind='meter / second', v_wind='meter / second')
DHEAD = ['precipitable_water', 'inv_pressure', 'inv_height', 'inv_strength', 'mixed_layer_pressure', 'mixed_layer_height',
         'freezing_point_pressure', 'freezing_point_height', 'lcl_pressure', 'lcl_height', 'lfc_pressure', 'lfc_height', 'lnb_pressure',
         'lnb_height', 'lifted_index', 'showalter_index', 'k_index', 'total_totals_index', 'cape', 'convective_inhibition']
DHPOW = {n: 2 if n.endswith('pressure') or n == 'precipitable_water' else 1 if n == 'inv_strength' else 0 for n in DHEAD}
UNIT = dict(etime='second', pressure='hPa', height='meter', temperature='degC', dewpoint='degC', direction='degrees', speed='meter / second',
            u_wind='meter / second', v_wind='meter / second')


def head(h, n, release='1115', lat='381200', lon='157600', derived=None):
    items = [(1, '#' + SITE), (14, '2022'), (19, '06'), (22, '22'), (25, '12'), (28, release), right(33, 36, str(n))]
    if derived is not None:
        return put(157, items + [right(38 + 6 * i, 43 + 6 * i, t) for i, t in enumerate(derived)])
    return put(71, items + [(38, 'ncdc-nws'), (47, 'ncdc-nws'), right(56, 62, lat), right(64, 71, lon)])


def request(h, txt, derived=False):
    serve(h, lambda url: Response(content=zipped(txt)))
    from datetime import datetime
    return h.noraise('decoded', h.mod('apiwebservices.igra2').IGRAUpperAir.request_data, datetime(2022, 6, 22, 12), SITE, derived=derived)


def cell(x):
    return x.item() if hasattr(x, 'item') and not isinstance(x, sym.Sym) else x


def scaled(v, p):
    return v / 10.0 ** p if v is not None else nan


def fields(h, k, spec, form, special, only, missing):
    """texts and expected values of the fields of level k; `only` takes `form`, the others their typical form."""
    items, want = [], {}
    for name, a, b, p, typ in spec:
        f = typ
        if name == only:
            f = form
        if special == 'full':
            f = 't' if p == 't' else 'p%d' % (b - a + 1) if k == 0 else 'n%d' % (b - a)
        if p == 't':
            if f in missing:
                t, v = f, None
            else:
                md = 3 if special == 'full' else 1 if f is None or f == 't1' else 2 if f == 't2' else 3
                m, s = h.int('%s%dm' % (name, k), 10 ** (md - 1) if md > 1 else 0, 10 ** md - 1), h.int('%s%ds' % (name, k), 0, 59)
                t, v = text.digits(m, md) + text.digits(s, 2), m * 60 + s
            p = 0
        else:
            if name in ('direction',) and f == 'p3':
                v = h.int('%s%d' % (name, k), 100, 360)
                t = text.digits(v, 3)
            else:
                t, v = number(h, '%s%d' % (name, k), f, b - a + 1)
                for code in missing if v is not None else ():
                    if f == 'n%d' % (len(code) - 1):
                        h.assume(v != int(code))
                if f in ('n4',) and '-99999' in missing:
                    h.assume(v != -9999)
                    h.assume(v != -8888)
        items.append(right(a, b, t))
        want[name] = scaled(v, p)
    return items, want


def body(h, only, form, flags=(' ', 'A', 'B'), special=None):
    missing = ('-9999', '-8888')
    txt, wants = '', []
    for k in range(2):
        items, want = fields(h, k, BODY, form if k == 0 else (form if special == 'both' else 'p2' if only != 'etime' else 't2'), special, only, missing)
        types = [h.int('lvltyp%d%d' % (k, i), 1, 3) for i in (1, 2)]
        items += [(1, text.digits(types[0], 1)), (2, text.digits(types[1], 1))]
        items += [(16, flags[0]), (22, flags[1]), (28, flags[2])]
        txt += put(51, items)
        want.update(lvltyp1=types[0], lvltyp2=types[1], pflag=' AB'.index(flags[0]), zflag=' AB'.index(flags[1]), tflag=' AB'.index(flags[2]))
        wants.append(want)
    ok, got = request(h, head(h, 2) + txt)
    if not ok:
        return
    df = got[0]
    isnan = lambda x: x != x
    keep = [w for w in wants if not all(isnan(w[n]) for n in ('temperature', 'direction', 'speed', 'dewpoint_depression'))]
    h.eq('levels', len(df), len(keep))
    if len(df) != len(keep):
        return
    for k, w in enumerate(keep):
        w['dewpoint'] = nan if isnan(w['temperature']) or isnan(w['dewpoint_depression']) else w['temperature'] - w['dewpoint_depression']
        calm = isnan(w['speed']) or isnan(w['direction'])
        wind = None if calm else w['direction'] * (fn.pi / 180)
        for n in w:
            if n != 'dewpoint_depression':
                h.eq('%s %d' % (n, k), cell(df[n].values[k]), w[n])
        for n, f in (('u_wind', fn.sin), ('v_wind', fn.cos)):
            x = cell(df[n].values[k])
            if calm:
                h.eq('%s %d' % (n, k), x, nan)
            else:
                r = -w['speed'] * f(wind)       # rounded to one decimal
                h.le('%s %d upper' % (n, k), x, r + 0.0500001)
                h.le('%s %d lower' % (n, k), r - 0.0500001, x)
    h.eq('units', {n: df.attrs['units'].get(n) for n in UNIT}, UNIT)


FORMS = ['p%d', 'n%d', '-9999', '-8888']


def forms(w, quick):
    out = ['p%d' % d for d in range(1, w + 1)] + ['n%d' % d for d in range(1, w)]
    q = {'p1', 'p%d' % w, 'n%d' % (w - 1), 'n1'}
    return [f for f in out if (f in q) == quick]


def cases(spec, codes):
    out = []
    for n, a, b, p, t in spec:
        if p == 't':
            fs = [(f, 'quick') for f in ('t1', 't2', 't3') + codes]
        else:
            w = b - a + 1
            neg = n not in ('direction', 'speed')
            fs = [(f, t) for t in ('quick', 'thorough') for f in forms(w, t == 'quick') if neg or f[0] == 'p' and (n != 'direction' or len(f) < 2 or f in ('p1', 'p2'))]
            fs += [(c, 'quick') for c in codes]
        out += [dict(only=n, form=f, _tier=t) for f, t in fs]
    return out


@harness(cases=cases(BODY, ('-9999', '-8888')))
def level(h, only, form):
    body(h, only, form)


@harness(cases=[dict(flags=f) for f in ('AAA', 'BBB', 'A B', '   ')])
def packed(h, flags):
    """every field fills its columns; neighbours touch."""
    body(h, None, None, flags=flags, special='full')


@harness(cases=[dict(gone=g) for g in ('wind', 'thermo', 'all', 'all but temperature', 'all but speed', 'all but direction', 'all but dewpoint_depression')])
def incomplete(h, gone):
    """a level is dropped only when temperature, dew point and wind are all missing."""
    whole = ('direction', 'speed', 'temperature', 'dewpoint_depression')
    off = dict(wind=('direction', 'speed'), thermo=('temperature', 'dewpoint_depression'), all=whole).get(gone) or [n for n in whole if n != gone[8:]]
    txt, rows = '', []
    for k in range(3):
        items, row = [], {}
        for name, a, b, p, typ in BODY:
            if p == 't':
                t, v = '130', 90.0
            elif k == 1 and name in off:
                t, v = '-9999', None
            else:
                t, v = number(h, '%s%d' % (name, k), typ, b - a + 1)
            items.append(right(a, b, t))
            row[name] = scaled(v, 0 if p == 't' else p)
        txt += put(51, items + [(1, '21')])
        rows.append(row)
    ok, got = request(h, head(h, 3) + txt)
    if ok:
        keep = [r for k, r in enumerate(rows) if k != 1 or gone != 'all']
        h.eq('levels', len(got[0]), len(keep))
        for n in ('pressure', 'height', 'temperature', 'speed', 'etime', 'direction'):
            h.eq(n, [cell(x) for x in got[0][n].values], [r[n] for r in keep])
        h.eq('index', [int(i) for i in got[0].index], list(range(len(keep))))


@harness(cases=[dict(lat=a, lon=o) for a, o in (('p6', 'p7'), ('n6', 'n7'), ('p5', 'p5'), ('n5', 'n5'), ('p4', 'p4'), ('n4', 'n4'), ('p3', 'n3'), ('n2', 'p2'), ('p1', 'p1'), ('p6', 'n6'))])
def header(h, lat, lon):
    la, lo = number(h, 'lat', lat, 7), number(h, 'lon', lon, 8)
    hh, mm = h.int('rh', 0, 23), h.int('rm', 0, 59)
    ok, got = request(h, head(h, 1, text.digits(hh, 2) + text.digits(mm, 2), la[0], lo[0])
                      + put(51, [(1, '21'), right(4, 8, '0'), right(10, 15, '99700'), right(17, 21, '132'), right(23, 27, '249'),
                                 right(29, 33, '580'), right(35, 39, '86'), right(41, 45, '180'), right(47, 51, '20')]))
    if ok:
        r = got[1]
        h.eq('latitude', cell(r['latitude'].values[0]), la[1] / 10000.0)
        h.eq('longitude', cell(r['longitude'].values[0]), lo[1] / 10000.0)
        h.eq('release time', cell(r['release_time'].values[0]), hh * 3600 + mm * 60)
        h.eq('station', r['site_id'].values[0], SITE)
        h.eq('date', [int(r[n].values[0]) for n in ('year', 'month', 'day', 'hour', 'number_levels')], [2022, 6, 22, 12, 1])
        h.eq('sources', [r[n].values[0] for n in ('pressure_source_code', 'non_pressure_source_code')], ['ncdc-nws', 'ncdc-nws'])
        h.eq('units', {n: r.attrs['units'].get(n) for n in ('release_time', 'latitude', 'longitude')},
             dict(release_time='second', latitude='degrees', longitude='degrees'))


@harness(cases=[dict(derived=d) for d in (False, True)])
def release_missing(h, derived):
    b = put(151, [right(1 + 8 * i, 7 + 8 * i, '100') for i in range(19)]) if derived else put(51, [(1, '21'), right(4, 8, '0'), right(10, 15, '99700'), right(17, 21, '132'),
        right(23, 27, '249'), right(29, 33, '580'), right(35, 39, '86'), right(41, 45, '180'), right(47, 51, '20')])
    ok, got = request(h, head(h, 1, '9999', derived=['100'] * 20 if derived else None) + b, derived)
    if ok:
        h.eq('release time', cell(got[1]['release_time'].values[0]), nan)


DSPEC = [(n, 1 + 8 * i, 7 + 8 * i, DPOW[n], 'p3') for i, n in enumerate(DBODY)]
DHSPEC = [(n, 38 + 6 * i, 43 + 6 * i, DHPOW[n], 'p3') for i, n in enumerate(DHEAD)]
NEG = [n for n in DBODY if 'gradient' in n or 'wind' in n]


def derived(h, only, form, special=None):
    missing = ('-99999',)
    txt, wants = '', []
    for k in range(2):
        items, want = fields(h, k, DSPEC, form if k == 0 else 'p4', special, only, missing)
        txt += put(151, items)
        wants.append(want)
    hi, hw = fields(h, 7, DHSPEC, form if not special and form != 'p7' and form != 'n6' else 'p6', special, only, missing)
    hh, mm = h.int('rh', 0, 23), h.int('rm', 0, 59)
    line = [(1, '#' + SITE), (14, '2022'), (19, '06'), (22, '22'), (25, '12'), (28, text.digits(hh, 2) + text.digits(mm, 2)), right(33, 36, '2')] + hi
    ok, got = request(h, put(157, line) + txt, True)
    if not ok:
        return
    df, hd = got
    h.eq('levels', len(df), 2)
    for k, w in enumerate(wants):
        for n in w:
            h.eq('%s %d' % (n, k), cell(df[n].values[k]), w[n])
    for n in hw:
        h.eq('header %s' % n, cell(hd[n].values[0]), hw[n])
    h.eq('release time', cell(hd['release_time'].values[0]), hh * 3600 + mm * 60)
    h.eq('header', [hd['site_id'].values[0]] + [int(hd[n].values[0]) for n in ('year', 'month', 'day', 'hour', 'number_levels')], [SITE, 2022, 6, 22, 12, 2])
    h.eq('units', {n: df.attrs['units'].get(n) for n in DUNIT}, DUNIT)


@harness(cases=[dict(only=n, form=f, _tier=t) for i, n in enumerate(DBODY) for f, t in
                [('p7', 'quick'), ('n6', 'quick' if n in NEG else 'thorough'), ('-99999', 'quick'), ('p1', 'thorough'), ('p5', 'thorough'), ('n1', 'thorough'), ('n4', 'thorough')]])
def derived_level(h, only, form):
    derived(h, only, form)


@harness(cases=[dict(only=n, form=f, _tier=t) for n in DHEAD for f, t in [('p6', 'quick'), ('n5', 'thorough'), ('-99999', 'quick'), ('p1', 'thorough'), ('n1', 'thorough')]])
def derived_header(h, only, form):
    derived(h, only, form)


@harness(cases=[dict()])
def derived_packed(h):
    derived(h, None, None, special='full')


MAIN = ('temperature', 'reported_relative_humidity', 'u_wind', 'v_wind')


@harness(cases=[dict(kept=k) for k in (None,) + MAIN])
def derived_incomplete(h, kept):
    """a derived level is dropped only when temperature, humidity and both wind components are all missing."""
    txt, rows = '', []
    for k in range(3):
        items, row = [], {}
        for name, a, b, p, typ in DSPEC:
            t, v = ('-99999', None) if k == 1 and name in MAIN and name != kept else number(h, '%s%d' % (name, k), typ, b - a + 1)
            items.append(right(a, b, t))
            row[name] = scaled(v, p)
        txt += put(151, items)
        rows.append(row)
    ok, got = request(h, head(h, 3, derived=['100'] * 20) + txt, True)
    if ok:
        keep = [r for k, r in enumerate(rows) if k != 1 or kept]
        h.eq('levels', len(got[0]), len(keep))
        for n in MAIN + ('pressure', 'calculated_height'):
            h.eq(n, [cell(x) for x in got[0][n].values], [r[n] for r in keep])
        h.eq('index', [int(i) for i in got[0].index], list(range(len(keep))))


@harness(cases=[dict(values=v) for v in ('any', 'missing')])
def winds(h, values):
    """the published wind conversion: components of the wind vector from speed and the direction it blows from."""
    f = h.mod('apiwebservices.igra2').get_wind_components
    s, d = h.arr('s', 3, 0.0, 120.0), h.arr('d', 3, -7.0, 7.0)
    u, v = f(s, d)
    for i in range(3):
        h.eq('u%d' % i, u[i], -s[i] * fn.sin(d[i]))
        h.eq('v%d' % i, v[i], -s[i] * fn.cos(d[i]))
