"""C17: nitrogen collision-induced absorption."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn

BOUNDS = 'all 14 nitrogen models; temperature 60..450 K, dry pressure 0..1200 hPa, frequency 0.01..3000 GHz'

COEF = {m: (6.5e-14, 3.6, 1.34) for m in ('R16', 'R17', 'R18', 'R19', 'R19SD')}
COEF.update({m: (9.95e-14, 3.22, 1.0) for m in ('R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24')})
COEF['R03'] = (6.5e-14, 3.6, 1.29)
COEF['R98'] = (6.4e-14, 3.55, 1.0)


def setup(h, model):
    am = h.mod('absorption_model')
    am.N2AbsModel.model = model
    return am.N2AbsModel, h.var('t', 60.0, 450.0), h.var('p', 0.0, 1200.0), h.var('f', 0.01, 3000.0)


@harness(cases=[dict(model=m) for m in COEF])
def absorption(h, model):
    n2, t, p, f = setup(h, model)
    c, m, n = COEF[model]
    dep = 1.0 if model == 'R98' else 0.5 + 0.5 / (1.0 + (f / 450.0) ** 2)
    a = n2.n2_absorption(t, p, f)
    h.eq('absorption', a, n * c * dep * p * p * f * f * (300.0 / t) ** m)
    h.ge('not negative', a, 0.0)


def mwl24(t, p, f):
    d, r = 108.0 / (0.6950354549 * t), 108.0 / (0.6950354549 * 300.0)
    pot = (fn.exp(d) - 1.0 - d) / (fn.exp(r) - 1.0 - r)
    m0 = 1.4359 - 0.0005385 * f + 1.6182e-7 * f ** 2 + 1.8845e-10 * f ** 3
    aa = 0.07988 - 0.0005165 * f + 1.131e-6 * f ** 2 - 5.738e-10 * f ** 3
    spec = 1.754e-18 * 0.5 * (1.0 + 1.033 * (1.0 + 0.1510 / (1.0 + ((f - 358.0) / 127.0) ** 2)) / (1.0 + ((f - 44.0) / 568.0) ** 2)
                              + 0.1420 * fn.exp(-(f / 92.0 - 1.0) ** 2))
    l = fn.log(300.0 / t)
    return spec * fn.exp((m0 + aa * l) * l) * pot * (p * 0.7500616827) ** 2 * f ** 2


@harness()
def trajectory(h):
    """MWL24: classical trajectory fit in 1/cm, scaled to Np/km and to dry air."""
    n2, t, p, f = setup(h, 'MWL24')
    h.eq('fit', n2.n2_absorption_mwl24(t, p, f), mwl24(t, p, f))
    a = n2.n2_absorption(t, p, f)
    h.eq('absorption', a, 0.84e5 * mwl24(t, p, f))
    h.eq('quadratic in pressure', n2.n2_absorption(t, 2.0 * p, f), 4.0 * a)


@harness(cases=[dict(model=m) for m in list(COEF) + ['MWL24']])
def profile(h, model):
    """levels of a profile do not influence each other."""
    n2, _, _, f = setup(h, model)
    t, p = h.arr('tt', 2, 60.0, 450.0), h.arr('pp', 2, 0.0, 1100.0)
    out = n2.n2_absorption(t, p, f)
    for i in range(2):
        h.eq('level%d' % i, out[i], n2.n2_absorption(t[i], p[i], f))


@harness(cases=[dict(model=m) for m in ('R99', 'r98', 'R25', 'N2', '')])
def unknown(h, model):
    n2, t, p, f = setup(h, 'R98')
    n2.model = model
    h.raises('rejected', ValueError, n2.n2_absorption, t, p, f)


@harness(cases=[dict(model=m) for m in list(COEF) + ['MWL24']])
def whole_numbers(h, model):
    n2, t, p, f = setup(h, model)
    same(h, 'frequency', lambda f: n2.n2_absorption(t, p, f), 90)
    same(h, 'state', lambda t, p: n2.n2_absorption(t, p, f), 280, 900)
    same(h, 'states', lambda t, p: n2.n2_absorption(t, p, f), [280, 250], [900, 500])
