"""C35: remote requests name the station, date and region, and failures raise."""
from urllib.parse import urlsplit
from checks.archive import Response, SITE, put, right, serve, zipped
from symx import sym, text
from symx.harness import harness

BOUNDS = ('all dates (year 1950-2049, any month, day, hour), all numeric station ids of 5-8 digits and name ids, all regions of the documented list, '
          'every HTTP status from 100 to 599 with HTML and other error bodies, pages saying that no data is available; two requests one after the other that differ in station, day, hour or archive kind')
ASSUMPTIONS = ['requests are made through the `requests` library', 'days of the month up to 28']
PAGE = '''<HTML><BODY><H2>16245 LIRE Observations</H2><PRE>
---
 PRES
 hPa
---
 1000.0    112    8.4    7.2     92   6.45
</PRE><PRE>
 Station identifier: LIRE
 Station number: 16245
 Observation time: 220622/1200
 Station latitude: 41.65
 Station longitude: 12.43
 Station elevation: 6.0
</PRE></BODY></HTML>'''
REGIONS = ['naconf', 'samer', 'pac', 'nz', 'ant', 'np', 'europe', 'africa', 'seasia', 'mideast']


def when(h, name='t'):
    s = (h.int(name + 'year', 1950, 2049), h.int(name + 'month', 1, 12), h.int(name + 'day', 1, 28), h.int(name + 'hour', 0, 23))
    if h.symbolic:
        return s, text.Stamp(*s)
    from datetime import datetime
    return s, datetime(*s)


def query(url, params):
    u = urlsplit(url)
    q = dict(x.split('=', 1) for x in u.query.split('&') if '=' in x)
    q.update({k: str(v) for k, v in (params or {}).items()})
    return u, q


def sounding_zip(height, derived):
    """an archive of one sounding of one level at the given height (three digits)."""
    head = [(1, '#' + SITE), (14, '2022'), (19, '06'), (22, '22'), (25, '12'), (28, '1115'), right(33, 36, '1')]
    if derived:
        return zipped(put(157, head + [right(38, 43, '1000')] + [right(44 + 6 * i, 49 + 6 * i, '123') for i in range(19)])
                      + put(151, [right(1 + 8 * i, 7 + 8 * i, height if i == 2 else '250') for i in range(19)]))
    return zipped(put(71, head + [(38, 'ncdc-nws'), (47, 'ncdc-nws'), right(56, 62, '381200'), right(64, 71, '157600')])
                  + put(51, [(1, '21'), right(4, 8, '0'), right(10, 15, '99700'), right(17, 21, height), right(23, 27, '249'),
                             right(29, 33, '580'), right(35, 39, '86'), right(41, 45, '180'), right(47, 51, '20')]))


@harness(cases=[dict(site=s) for s in ('LIRE', 'number', 'digits')])
def wyoming(h, site):
    s, t = when(h)
    n = h.int('station', 10000, 99999)
    sid = n if site == 'number' else text.digits(n, 5) if site == 'digits' else site
    urls = serve(h, lambda url: Response(body=PAGE))
    ok, _ = h.noraise('request', h.mod('apiwebservices.wyomingupperair').WyomingUpperAir.request_data, t, sid)
    h.eq('requests', [u[0] for u in urls], ['GET'])
    if not urls:
        return
    u, q = query(*urls[0][1:])
    h.eq('page', (u.netloc, u.path.rstrip('/')), ('weather.uwyo.edu', '/cgi-bin/sounding'))
    h.eq('parameters', sorted(k for k in q if k != 'region'), ['FROM', 'MONTH', 'STNM', 'TO', 'TYPE', 'YEAR'])
    h.eq('kind', q.get('TYPE', '').replace('%3A', ':'), 'TEXT:LIST')
    two = lambda x: text.digits(x, 2)
    for k, v in dict(YEAR=text.digits(s[0], 4), MONTH=two(s[1]), FROM=two(s[2]) + two(s[3]), TO=two(s[2]) + two(s[3]),
                     STNM=site if site == 'LIRE' else text.digits(n, 5)).items():
        text.compare(h, k, q.get(k, ''), v)


@harness(cases=[dict(message=m) for m in ("Can't get 16245 LIRE Observations at 12Z 22 Jun 2022.", "Sorry, unable. Can't find it")] + [dict(message="Can't get 16245 LIRE Observations at 12Z 22 Jun 2022.", frame=('', ''))])
def wyoming_no_data(h, message, frame=('<HTML><BODY>', '</BODY></HTML>')):
    s, t = when(h)
    serve(h, lambda url: Response(body=frame[0] + message + frame[1]))
    try:
        h.mod('apiwebservices.wyomingupperair').WyomingUpperAir.request_data(t, 'LIRE')
        h.true('no data raises', False)
    except ValueError as e:
        h.true('no data raises', True)
        m = str(e)
        h.true('names the station', 'LIRE' in m)
        text.contains(h, 'date', m, '%s-%s-%s %s' % (text.digits(s[0], 4), text.digits(s[1], 2), text.digits(s[2], 2), text.digits(s[3], 2)))


@harness(cases=[dict(region=r) for r in REGIONS] + [dict(region=None)])
def region(h, region):
    n = h.int('station', 0, 99999)
    i = text.digits(n, 5)
    urls = serve(h, lambda url: Response(body='<area title="%s  Somewhere">' % i))
    f = h.mod('apiwebservices.wyomingupperair').WyomingUpperAir.get_stations
    ok, df = h.noraise('request', f, *([region] if region else []))
    h.eq('url', [u[1] for u in urls], ['http://weather.uwyo.edu/upperair/%s.html' % (region or 'europe')])
    if ok:
        text.compare(h, 'station', df['station_id'].values[0], i)


KINDS = dict(por=dict(), y2d=dict(beg2021=True), derived=dict(derived=True))
FILES = dict(por='data-por/%s-data.txt.zip', y2d='data-y2d/%s-data-beg2021.txt.zip', derived='derived-por/%s-drvd.txt.zip')


@harness(cases=[dict(first=a, second=b) for a in ('sounding', 'stations', 'archive') for b in ('sounding', 'stations')] + [dict(first=a, second=b) for a in KINDS for b in KINDS]
         + [dict(first='stations', second='por')])
def one_after_another(h, first, second):
    """a request is addressed the same way whatever was requested before it."""
    from datetime import datetime
    W, I = h.mod('apiwebservices.wyomingupperair').WyomingUpperAir, h.mod('apiwebservices.igra2').IGRAUpperAir
    n = h.int('station', 10000, 99999)
    d = text.digits(n, 5)

    def ask(kind, station, region, day):
        urls = serve(h, lambda url: Response(body=PAGE + '<area title="1 A">', status=404 if 'integrated-global' in url else 200))
        if kind == 'sounding':
            W.request_data(datetime(2022, 6, day, 12), station)
        elif kind == 'stations':
            W.get_stations(region)
        else:
            try:
                I.request_data(datetime(2022, 6, day, 12), 'SPM000' + station, **KINDS.get(kind, {}))
            except ValueError:
                pass
        return urls
    ask(first, '11111', 'pac', 3)
    urls = ask(second, d, 'nz', 22)
    h.eq('requests', len(urls), 1)
    u, q = query(*urls[0][1:])
    if second == 'sounding':
        h.eq('page', (u.netloc, u.path.rstrip('/')), ('weather.uwyo.edu', '/cgi-bin/sounding'))
        text.compare(h, 'station', q.get('STNM', ''), d)
        h.eq('time', [q.get(k) for k in ('YEAR', 'MONTH', 'FROM', 'TO')], ['2022', '06', '2212', '2212'])
    elif second == 'stations':
        h.eq('page', urls[0][1], 'http://weather.uwyo.edu/upperair/nz.html')
    else:
        text.compare(h, 'file', urls[0][1], 'https://www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/' + FILES[second] % ('SPM000' + d))


@harness(cases=[dict(first=a, second=b, other=o) for a, b, o in (('sounding', 'sounding', 'day'), ('sounding', 'sounding', 'hour'), ('sounding', 'sounding', 'station'))]
         + [dict(first=a, second=b, other='kind' if a != b else 'station') for a in KINDS for b in KINDS])
def answers(h, first, second, other):
    """what is returned comes from the answer to this request, not from an earlier one for another station, date or kind of archive."""
    from datetime import datetime
    W, I = h.mod('apiwebservices.wyomingupperair').WyomingUpperAir, h.mod('apiwebservices.igra2').IGRAUpperAir
    v = [h.int('first', 100, 999), h.int('second', 100, 999)]
    n = [0]

    def answer(url):
        x = text.digits(v[n[0]], 3)
        return Response(body=PAGE.replace('    112', '    ' + x)) if first == 'sounding' else Response(content=sounding_zip(x, KINDS[(first, second)[n[0]]].get('derived')))
    serve(h, answer)
    got = []
    for i, kind in enumerate((first, second)):
        n[0] = i
        last = '89'[i] if other == 'station' else '8'
        at = datetime(2022, 6, 22 - (other == 'day' and not i), 12 - 12 * (other == 'hour' and not i))
        if kind == 'sounding':
            x = W.request_data(at, '1632' + last)['height'].values[0]
            got.append(text.number(x, False) if isinstance(x, str) and text.has_token(x) else x)
        else:
            got.append(I.request_data(at, SITE[:-1] + last, **KINDS[kind])[0]['calculated_height' if kind == 'derived' else 'height'].values[0])
    h.eq('first', got[0], v[0])
    h.eq('second', got[1], v[1])


@harness(cases=[dict(derived=d, beg2021=b, span=s) for d, b in ((False, False), (True, False), (False, True)) for s in (False, True)])
def igra(h, derived, beg2021, span):
    """a failed download raises an error naming station and date, whatever the archive kind."""
    s, t = when(h)
    n = h.int('station', 0, 99999999)
    site = 'SPM' + text.digits(n, 8)
    code = h.int('status', 100, 599)
    h.assume(code != 200)
    urls = serve(h, lambda url: Response(status=code, reason='Gone', url=url))
    try:
        h.mod('apiwebservices.igra2').IGRAUpperAir.request_data([t, when(h, 'e')[1]] if span else t, site, beg2021=beg2021, derived=derived)
        h.true('failure raises', False)
    except ValueError as e:
        h.true('failure raises', True)
        text.contains(h, 'date', str(e), '%s-%s-%s %s' % (text.digits(s[0], 4), text.digits(s[1], 2), text.digits(s[2], 2), text.digits(s[3], 2)))
        text.contains(h, 'station', str(e), site)
    h.eq('requests', len(urls), 1)
    if urls:
        h.true('host', urls[0][1].startswith('https://www.ncei.noaa.gov/data/integrated-global-radiosonde-archive/access/'))
        text.compare(h, 'file', urls[0][1].split('/')[-1], site + ('-drvd.txt.zip' if derived else '-data-beg2021.txt.zip' if beg2021 else '-data.txt.zip'))


@harness(cases=[dict(service=s, ctype=c) for s in ('sounding', 'stations', 'endpoint', 'query') for c in ('text/html; charset=utf-8', 'text/plain', None)])
def status(h, service, ctype):
    """any status other than 200 raises an error with the address, the status and the server's explanation."""
    W, H = h.mod('apiwebservices.wyomingupperair'), h.mod('apiwebservices.webservices')
    import requests
    from datetime import datetime
    code = h.int('status', 100, 599)

    def answer(url):
        r = Response(body=PAGE if service != 'stations' else '<area title="1 A">', status=code, reason='the reason', ctype=ctype, url='http://where/is/it')
        if ctype is None:
            r.headers = {}
        return r
    serve(h, answer)
    err = None
    try:
        if service == 'sounding':
            W.WyomingUpperAir.request_data(datetime(2022, 6, 22, 12), 'LIRE')
        elif service == 'stations':
            W.WyomingUpperAir.get_stations('pac')
        elif service == 'endpoint':
            H.HTTPEndPoint('http://host/base')._get_path('x')
        else:
            H.HTTPEndPoint('http://host/base/')._get_query({'a': 'b'})
    except requests.HTTPError as e:
        err = str(e)
    if code == 200:
        h.true('success does not raise', err is None)
        return
    h.true('failure raises', err is not None)
    if err is None:
        return
    h.true('address', 'http://where/is/it' in err)
    want = text.digits(code, 3)
    body = 'the reason' if (ctype or '').startswith('text/html') else PAGE if service != 'stations' else '<area title="1 A">'
    h.true('explanation', body in err)
    text.compare(h, 'status', err.split('Server Error (')[-1][:3], want)


@harness(cases=[dict(base=b) for b in ('http://host/base', 'http://host/base/', 'http://host')])
def endpoint(h, base):
    """paths and queries are resolved against the base address of the end point."""
    H = h.mod('apiwebservices.webservices')
    n = h.int('n', 0, 99999)
    d = text.digits(n, 5)
    urls = serve(h, lambda url: Response())
    e = H.HTTPEndPoint(base)
    H.HTTPEndPoint('http://elsewhere/')
    e._get_path('a/%s.txt' % d)
    e._get_query({'k': d})
    e._get_path('b', {'k': d})
    H.session_manager.urlopen('http://other/%s' % d)
    b = base.rstrip('/')
    want = [b + '/a/%s.txt' % d, b, b + '/b', 'http://other/%s' % d]
    h.eq('requests', len(urls), 4)
    for k, (u, w) in enumerate(zip(urls, want)):
        text.compare(h, 'url %d' % k, u[1], w)
    for k in (1, 2):
        h.eq('query keys %d' % k, sorted(urls[k][2] or {}), ['k'])
        text.compare(h, 'query %d' % k, (urls[k][2] or {}).get('k', ''), d)


@harness(cases=[dict(content=c) for c in (b'', b'abc\x00\xff')])
def sessions(h, content):
    """sessions carry the user agent and the options set, and urlopen returns the bytes received."""
    H = h.mod('apiwebservices.webservices')
    serve(h, lambda url: Response(content=content))
    v = h.var('timeout', 0.0, 10.0)
    m = H.HTTPSessionManager()
    m.set_session_options(verify=False, extra=v)
    s = m.create_session()
    h.eq('option', s.extra, v)
    h.true('verify', s.verify is False)
    h.true('agent', s.headers['User-Agent'].startswith('pyrtlib ('))
    h.true('bytes', m.urlopen('http://x/').read() == content)
    o = H.HTTPSessionManager().create_session()
    h.true('managers are independent', o.verify is True and not hasattr(o, 'extra'))
