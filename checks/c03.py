"""C03: modified Planck radiance and brightness temperature are mutual inverses; monotone."""
from symx.harness import harness
from checks.whole import same
from checks.ref import H, K, B

BOUNDS = 'temperature 1-1000 K, radiance 1e-12..1e6, frequency 0.1-3000 GHz'


def hvk(h):
    return h.var('f', 0.1, 3000.0) * 1e9 * H / K


@harness()
def there_and_back(h):
    rt, u = h.mod('rt_equation').RTEquation, h.mod('utils')
    hv = hvk(h)
    t = h.var('t', 1.0, 1000.0)
    b = u.tk2b_mod(hv, t)
    h.eq('radiance', b, B(hv, t))
    h.lt('positive', 0.0, b)
    h.eq('T', rt.bright(hv, b), t)


@harness()
def back_and_there(h):
    rt, u = h.mod('rt_equation').RTEquation, h.mod('utils')
    hv = hvk(h)
    b = h.var('b', 1e-9, 1e6)
    h.eq('B', u.tk2b_mod(hv, rt.bright(hv, b)), b)


@harness(cases=[dict(zero=0.0), dict(zero=0)])
def zero(h, zero):
    rt = h.mod('rt_equation').RTEquation
    h.eq('zero', rt.bright(hvk(h), zero), 0.0)


@harness()
def near_zero_radiance(h):
    """no radiance, however small, is treated as zero or changes sign."""
    rt = h.mod('rt_equation').RTEquation
    hv = hvk(h)
    b = h.var('b', 1e-12, 1e6)
    h.lt('positive', 0.0, rt.bright(hv, b))


@harness()
def monotone(h):
    rt, u = h.mod('rt_equation').RTEquation, h.mod('utils')
    hv = hvk(h)
    t1, t2 = h.var('t1', 1.0, 1000.0), h.var('t2', 1.0, 1000.0)
    h.assume(t1 < t2)
    h.lt('radiance increasing', u.tk2b_mod(hv, t1), u.tk2b_mod(hv, t2))


@harness(cases=[dict(n=2), dict(n=3)])
def arrays(h, n):
    """the radiance of an array of temperatures is the array of radiances."""
    u = h.mod('utils')
    hv = hvk(h)
    t = h.arr('t', n, 1.0, 1000.0)
    h.eq('array', u.tk2b_mod(hv, t), h.array([B(hv, t[i]) for i in range(n)]))


@harness()
def whole_numbers(h):
    rt, u = h.mod('rt_equation').RTEquation, h.mod('utils')
    hv = hvk(h)
    same(h, 'radiance', u.tk2b_mod, hv, [300, 281, 3])
    same(h, 'radiance of one', u.tk2b_mod, hv, 250)
    same(h, 'temperature', rt.bright, hv, 3)
    same(h, 'constant', u.tk2b_mod, 2, h.var('t', 1.0, 1000.0))
