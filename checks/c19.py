"""C19: dielectric constant of liquid water."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn

BOUNDS = 'temperature 200..373 K, frequency 0.01..3000 GHz (complex logarithms with principal values)'


def debye(f, t, r03):
    th = 1.0 - 300.0 / t
    e0 = 77.66 - 103.3 * th
    e1 = 0.0671 * e0
    fp = 20.1 * fn.exp(7.88 * th) if r03 else 20.2 + 146.4 * th + 316.0 * th * th
    return (e0 - e1) / fn.cplx(1.0, f / fp) + (e1 - 3.52) / fn.cplx(1.0, f / (39.8 * fp)) + 3.52


@harness()
def dilec12(h):
    """static value minus relaxation and the 'B band' resonance."""
    ut = h.mod('utils')
    f, t = h.var('f', 0.01, 3000.0), h.var('t', 200.0, 373.0)
    c = t - 273.15
    th = 300.0 / t
    static = -43.7527 * th ** 0.05 + 299.504 * th ** 1.47 - 399.364 * th ** 2.11 + 221.327 * th ** 2.31
    d1 = 80.69715 * fn.exp(-c / 226.45)
    s1 = 1164.023 * fn.exp(-651.4728 / (c + 133.07))
    z = fn.cplx(0.0, f)
    d2 = 4.008724 * fn.exp(-c / 103.05)
    f1 = 10.46012 + 0.1454962 * c + 0.063267156 * c ** 2 + 0.00093786645 * c ** 3
    z1, z2 = fn.cplx(-0.75 * f1, f1), fn.cplx(-4500.0, 2000.0)
    n = fn.clog(z2 / z1)
    chip = d2 / 2.0 * fn.clog((z - z2) / (z - z1)) / n
    chij = d2 / 2.0 * fn.clog((z - fn.conj(z2)) / (z - fn.conj(z1))) / fn.conj(n)
    k = ut.dilec12(f, t)
    ref = static - d1 * z / (s1 + z) + chip + chij - d2
    h.eq('re', fn.re(k), fn.re(ref))
    h.eq('im', fn.im(k), fn.im(ref))


@harness(cases=[dict(model=m) for m in ('R98', 'R03')])
def double_debye(h, model):
    """absorption of a unit cloud with the two-relaxation dielectric constant; never negative."""
    am = h.mod('absorption_model')
    am.LiqAbsModel.model = model
    f, t = h.var('f', 0.01, 3000.0), h.var('t', 200.0, 373.0)
    a = am.LiqAbsModel.liquid_water_absorption(h.var('one', 1.0, 1.0), f, t)
    e = debye(f, t, model == 'R03')
    h.eq('absorption', a, -0.06286 * f * fn.im((e - 1.0) / (e + 2.0)))
    h.le('absorbing', fn.im(e), 0.0)


@harness()
def whole_numbers(h):
    ut = h.mod('utils')
    f, t = h.var('f', 0.01, 3000.0), h.var('t', 200.0, 373.0)
    same(h, 'frequency', lambda f: ut.dilec12(f, t), 89)
    same(h, 'temperature', lambda t: ut.dilec12(f, t), 280)
    am = h.mod('absorption_model')
    for m in ('R98', 'R03'):
        am.LiqAbsModel.model = m
        same(h, m, am.LiqAbsModel.liquid_water_absorption, 1, 89, 280)
