"""Symbolic text.

A decimal field of a text record is rendered, in a symbolic run, as one private-use character per digit; the
characters of one field stand for the digits of one symbolic integer.  Slicing, splitting, joining, stripping and
padding of the text are then the ordinary string operations of the code under test, and turning (any part of) the
text into a number gives the number as an expression over the symbolic integers.  In a concrete run the same
fields are rendered with ordinary digits."""
import builtins
import datetime
import re
from . import sym
from .sym import Sym, SymB, Unsupported

FIRST, LAST = 0xE000, 0xF8FF
TOK = {}          # first codepoint -> (value, width)
OWNER = {}        # codepoint -> (first codepoint, position)
NEXT = [FIRST]


def reset():
    TOK.clear()
    OWNER.clear()
    NEXT[0] = FIRST


def digits(v, width):
    """text of the non-negative integer v in exactly `width` digits (zero padded)."""
    if not isinstance(v, Sym):
        s = '%0*d' % (width, int(round(float(v))))
        assert len(s) == width, (v, width)
        return s
    f = NEXT[0]
    if f + width > LAST:
        raise Unsupported('too many symbolic digits')
    NEXT[0] = f + width
    TOK[f] = (v, width)
    for k in range(width):
        OWNER[f + k] = (f, k)
    return ''.join(chr(f + k) for k in range(width))


def has_token(s):
    return any(FIRST <= ord(c) <= LAST for c in s)


def _run(v, w, i, j):
    """the number made of digits i..j (0 = leading) of v written with w digits."""
    if i == 0 and j == w - 1:
        return v
    q = v if j == w - 1 else (v / 10.0 ** (w - 1 - j)).floor()
    return q if i == 0 else q - (v / 10.0 ** (w - i)).floor() * 10.0 ** (j - i + 1)


def number(s, decimal):
    """numeric value of a text containing symbolic digits; ValueError as for ordinary text."""
    t = s.strip()
    neg = t[:1] == '-'
    if t[:1] in '+-':
        t = t[1:]
    frac = 0
    if decimal and '.' in t:
        a, b = t.split('.', 1)
        frac = len(b)
        t = a + b
    if not t or any(not (c.isdigit() and c.isascii() or FIRST <= ord(c) <= LAST) for c in t):
        raise ValueError('invalid literal: %r' % s)
    r = None
    k = 0
    while k < len(t):
        c = ord(t[k])
        if c in OWNER:
            f, i = OWNER[c]
            j = i
            while k + 1 < len(t) and OWNER.get(ord(t[k + 1])) == (f, j + 1):
                j += 1
                k += 1
            v, w = TOK[f]
            x, n = _run(v, w, i, j), j - i + 1
        else:
            x, n = builtins.int(t[k]), 1
        r = x if r is None else r * 10.0 ** n + x
        k += 1
    if frac:
        r = r / 10.0 ** frac
    return -r if neg else r


class _M(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class Int(builtins.int, metaclass=_M):
    """replacement for the `int` builtin in code that reads symbolic text."""

    def __new__(cls, x=0, *a):
        if isinstance(x, str) and has_token(x):
            return number(x, False)
        if isinstance(x, Sym) and sym.is_int(x.n):
            return x
        return builtins.int(x, *a)


def to_float(x):
    return number(x, True) if isinstance(x, str) and has_token(x) else None


def compare(h, label, got, want):
    """the two texts are equal; runs of symbolic digits are compared as numbers."""
    pat = '([0-9%s-%s]+)' % (chr(FIRST), chr(LAST))
    g, w = re.split(pat, got), re.split(pat, want)
    shown = (re.sub('[%s-%s]' % (chr(FIRST), chr(LAST)), '#', x) for x in (got, want))
    h.true(label + ' text', [(len(x) if k % 2 else x) for k, x in enumerate(g)] == [(len(x) if k % 2 else x) for k, x in enumerate(w)],
           '%r vs %r' % tuple(shown))
    if len(g) == len(w):
        for k in range(1, len(g), 2):
            if has_token(g[k]) or has_token(w[k]):
                h.eq(label + ' number %d' % (k // 2), number(g[k], False), number(w[k], False))
            elif len(g[k]) < 15:
                h.eq(label + ' number %d' % (k // 2), int(g[k]), int(w[k]))
            else:
                h.true(label + ' number %d' % (k // 2), g[k] == w[k], '%r vs %r' % (g[k], w[k]))


def order(t):
    """an integer ordering date-times chronologically."""
    return ((((t.year * 12 + t.month) * 31 + t.day) * 24 + t.hour) * 60 + t.minute) * 60 + t.second


class Stamp:
    """stand-in for datetime.datetime with (possibly) symbolic fields; ordered like the original."""
    def __init__(self, year, month, day, hour=0, minute=0, second=0):
        for x, lo, hi in ((month, 1, 12), (day, 1, 31), (hour, 0, 23), (minute, 0, 59), (second, 0, 59)):
            if x < lo or x > hi:
                raise ValueError('out of range')
        self.year, self.month, self.day, self.hour, self.minute, self.second = year, month, day, hour, minute, second

    def __lt__(self, o):
        return order(self) < order(o)

    def __le__(self, o):
        return order(self) <= order(o)

    def __gt__(self, o):
        return order(self) > order(o)

    def __ge__(self, o):
        return order(self) >= order(o)

    def __eq__(self, o):
        return isinstance(o, (Stamp, datetime.datetime)) and order(self) == order(o)

    def __ne__(self, o):
        return not isinstance(o, (Stamp, datetime.datetime)) or order(self) != order(o)

    __hash__ = object.__hash__
    FIELDS = {'Y': ('year', 4), 'm': ('month', 2), 'd': ('day', 2), 'H': ('hour', 2), 'M': ('minute', 2), 'S': ('second', 2)}

    def strftime(self, spec):
        def one(m):
            if m.group(1) == '%':
                return '%'
            if m.group(1) == 'y':
                return digits(self.year - 100 * (self.year / 100).floor() if isinstance(self.year, Sym) else self.year % 100, 2)
            if m.group(1) == 'I':
                x = self.hour
                return digits(12 + x if x == 0 else x if x <= 12 else x - 12, 2)
            if m.group(1) == 'p':
                return 'AM' if self.hour < 12 else 'PM'
            if m.group(1) in 'bB':
                for k in range(1, 13):
                    if self.month == k:
                        return datetime.date(2000, k, 1).strftime('%' + m.group(1))
            if m.group(1) == 'F':
                return self.strftime('%Y-%m-%d')
            if m.group(1) == 'T':
                return self.strftime('%H:%M:%S')
            if m.group(1) not in self.FIELDS:
                raise Unsupported('date format %' + m.group(1))
            n, w = self.FIELDS[m.group(1)]
            return digits(getattr(self, n), w)
        return re.sub('%(.)', one, spec)

    def timetuple(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second)

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def isoformat(self, sep='T'):
        return self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')

    def __str__(self):
        return self.isoformat(' ')

    __repr__ = __str__

    def replace(self, **k):
        return type(self)(**{n: k.get(n, getattr(self, n)) for n in ('year', 'month', 'day', 'hour', 'minute', 'second')})

    @classmethod
    def strptime(cls, text, spec):
        k, pos = {}, 0
        for lit, f in re.findall('([^%]*)(?:%(.))?', spec):
            if text[pos:pos + len(lit)] != lit:
                raise ValueError('time data does not match format')
            pos += len(lit)
            if f:
                if f == 'y':
                    y = Int(text[pos:pos + 2])
                    k['year'] = y + 2000 if y < 69 else y + 1900
                    pos += 2
                else:
                    if f not in cls.FIELDS:
                        raise Unsupported('date format %' + f)
                    n, w = cls.FIELDS[f]
                    k[n] = Int(text[pos:pos + w])
                    pos += w
        if pos != len(text):
            raise ValueError('unconverted data remains')
        return cls(**dict(dict(year=1900, month=1, day=1), **k))


class _DM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Stamp, datetime.datetime))

    def __getattr__(cls, name):
        return getattr(datetime.datetime, name)


class DateTime(metaclass=_DM):
    """replacement for datetime.datetime in the code under test."""

    def __new__(cls, *a, **k):
        if any(isinstance(x, Sym) for x in list(a) + list(k.values())):
            return Stamp(*a, **k)
        return datetime.datetime(*a, **k)

    @staticmethod
    def strptime(text, spec):
        return (Stamp if has_token(text) else datetime.datetime).strptime(text, spec)


def contains(h, label, got, want):
    """`want` occurs in `got` (digits, symbolic or not, are compared as numbers, at the first place where the rest of the text fits)."""
    pat = '[0-9%s-%s]' % (chr(FIRST), chr(LAST))
    i = re.sub(pat, '#', got).find(re.sub(pat, '#', want))
    if i < 0:
        h.true(label + ' text', False, '%r is not in %r' % (re.sub('[%s-%s]' % (chr(FIRST), chr(LAST)), '#', want), re.sub('[%s-%s]' % (chr(FIRST), chr(LAST)), '#', got)))
    else:
        compare(h, label, got[i:i + len(want)], want)
