"""Building radiosonde archive text with symbolic fields (shared by C33, C34)."""
import io
import zipfile
from symx import sym, text

SITE = 'SPM00060018'


class Response:
    def __init__(self, content=b'', body='', status=200, reason='OK', ctype='text/html', url=''):
        self.content, self.text, self.status_code, self.reason = content, body, status, reason
        self.headers = {'Content-Type': ctype}
        self.ok = status == 200
        self.request = type('R', (), {'url': url})()
        self.url = url


def serve(h, answer):
    """every HTTP request made through `requests` is recorded and answered by answer(url)."""
    import requests
    urls = []

    def request(self, method, url, params=None, **k):
        urls.append((method.upper(), url, params))
        return answer(url)
    h.patch(requests.sessions.Session, 'request', request)
    if h.symbolic:
        h.patch(sym, 'HASHABLE', [1])       # pandas keeps the decoded values in hash tables
    return urls


def zipped(txt):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        z.writestr('archive.txt', txt.encode('utf-8'))
    return b.getvalue()


def put(width, items):
    """one line: items are (first column counted from 1, text)."""
    line = [' '] * width
    for c, t in items:
        line[c - 1:c - 1 + len(t)] = list(t)
    return ''.join(line) + '\n'


def right(first, last, t):
    assert len(t) <= last - first + 1, (first, last, t)
    return first + (last - first + 1 - len(t)), t


def number(h, name, form, width, lo=0):
    """-> (text, value).  form: 'p<d>' positive of d digits, 'n<d>' negative, 'z' zero, or a literal text."""
    if form[0] in 'pn' and form[1:].isdigit():
        d = int(form[1:])
        v = h.int(name, 10 ** (d - 1) if d > 1 else max(lo, 0), 10 ** d - 1)
        if form[0] == 'n':
            return '-' + text.digits(v, d), -v
        return text.digits(v, d), v
    return form, None
