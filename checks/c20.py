"""C20: complex error function helper."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn

BOUNDS = 'any argument x+iy with |x|, |y| <= 100 (|x|, |y| <= 15 below the real axis, where exp(y^2-x^2) must stay finite)'

A = (122.607931777104326, 214.382388694706425, 181.928533092181549, 93.155580458138441, 30.180142196210589, 5.912626209773153, 0.564189583562615)
B = (122.607931773875350, 352.730625110963558, 457.334478783897737, 348.703917719495792, 170.354001821091472, 53.992906912940207, 10.479857114260399, 1.0)


def poly(c, z):
    s = fn.cplx(0.0, 0.0)
    for a in reversed(c):
        s = s * z + a
    return s


def w(x, y):
    """rational approximation in the upper half plane, argument y - ix."""
    z = fn.cplx(y, -x)
    return poly(A, z) / poly(B, z)


@harness()
def upper(h):
    ut = h.mod('utils')
    x, y = h.var('x', -100.0, 100.0), h.var('y', 0.0, 100.0)
    a, r = ut._dcerror(x, y), w(x, y)
    h.eq('re', fn.re(a), fn.re(r))
    h.eq('im', fn.im(a), fn.im(r))
    b = ut._dcerror(-x, y)
    h.eq('mirror re', fn.re(b), fn.re(a))
    h.eq('mirror im', fn.im(b), -fn.im(a))


@harness()
def lower(h):
    """w(z) = 2 exp(-z^2) - conj(w(conj z))."""
    ut = h.mod('utils')
    x, y = h.var('x', -15.0, 15.0), h.var('y', -15.0, -1e-9)
    a, r = ut._dcerror(x, y), w(x, -y)
    g = 2.0 * fn.exp(y * y - x * x)
    h.eq('re', fn.re(a), g * fn.cos(2.0 * x * y) - fn.re(r))
    h.eq('im', fn.im(a), -g * fn.sin(2.0 * x * y) + fn.im(r))


@harness(cases=[dict(x=x, y=y) for x in (-2, 0, 3) for y in (-1, 0, 2)])
def whole_numbers(h, x, y):
    same(h, 'w', h.mod('utils')._dcerror, x, y)
