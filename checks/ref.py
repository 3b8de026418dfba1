"""Reference formulas shared by the harnesses (written from the documentation, not from the code)."""
import math
from symx import fn

H, K, TC = 6.6260755e-34, 1.380658e-23, 2.728
RV, RD = 461.52, 287.04
EPS = 0.621970585
DB2NP = 0.23025850929940458      # ln(10)/10


def B(hvk, t):
    return 1.0 / (fn.exp(hvk / t) - 1.0)


def goffwater(t):
    y = 373.16 / t
    return 10.0 ** (-7.90298 * (y - 1.0) + 5.02808 * fn.log10(y) - 1.3816e-07 * (10.0 ** (11.344 * (1.0 - 1.0 / y)) - 1.0)
                    + 0.0081328 * (10.0 ** (-3.49149 * (y - 1.0)) - 1.0) + math.log10(1013.246))


def goffice(t, t0=273.16):
    y = t0 / t
    return 10.0 ** (-9.09718 * (y - 1.0) - 3.56654 * fn.log10(y) + 0.876793 * (1.0 - 1.0 / y) + math.log10(6.1071))


def logmean(a, b):
    """layer mean of an exponentially varying quantity, with the documented degenerate cases."""
    if abs(b - a) < 1e-09:
        return b
    if a == 0.0 or b == 0.0:
        return (a + b) * 0.5
    return (b - a) / fn.log(b / a)


def long(h, name, n, lo, hi, free=None):
    """an array of many values, those at a few positions symbolic, the others given ones in between."""
    free = (0, 1, n // 2, n - 2, n - 1) if free is None else free
    return h.array([h.var('%s%d' % (name, i), lo, hi) if i in free else lo + (hi - lo) * (0.31 + 0.4 * ((i * 7) % 11) / 11.0) for i in range(n)])
