"""C12: cloud liquid and ice absorption."""
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import DB2NP, long

BOUNDS = ('1-3 levels, and 30 and 60 levels of which a few are symbolic; every pattern of levels with and without liquid/ice; temperature 230..320 K, frequency 0.1..3000 GHz, '
          'water content -1..100 g/m3; every liquid model name listed by the code plus unsupported names')
ASSUMPTIONS = ['the dielectric function used by the later models is decided on its own by C19: here it stands for an arbitrary complex value per (frequency, temperature)']

NEW = ['R16', 'R17', 'R19', 'R20', 'R19SD', 'R22SD', 'R23', 'R23SD', 'R24']
LIGHT = 299792458.0


def rayleigh(eps, frq, water):
    return -0.06286 * fn.im((eps - 1.0) / (eps + 2.0)) * frq * water


def debye(model, f, t):
    th = 1.0 - 300.0 / t
    e0 = 77.66 - 103.3 * th
    e1 = 0.0671 * e0
    e2 = 3.52
    fp = 20.1 * fn.exp(7.88 * th) if model == 'R03' else 20.2 + 146.4 * th + 316.0 * th * th
    fs = 39.8 * fp
    return (e0 - e1) / fn.cplx(1.0, f / fp) + (e1 - e2) / fn.cplx(1.0, f / fs) + e2


@harness(cases=[dict(model=m) for m in ('R98', 'R03')])
def liquid_debye(h, model):
    am = h.mod('absorption_model')
    am.LiqAbsModel.model = model
    w, f, t = h.var('w', 1e-9, 100.0), h.var('f', 0.1, 3000.0), h.var('t', 230.0, 320.0)
    h.eq('abs', am.LiqAbsModel.liquid_water_absorption(w, f, t), rayleigh(debye(model, f, t), f, w))


@harness(cases=[dict(model=m) for m in NEW])
def liquid_dilec(h, model):
    am = h.mod('absorption_model')
    am.LiqAbsModel.model = model
    w, f, t = h.var('w', 1e-9, 100.0), h.var('f', 0.1, 3000.0), h.var('t', 230.0, 320.0)
    stub = lambda f, t: fn.cplx(20.0 + 0.1 * t, -0.5 * f - 0.01 * t)
    h.patch(am, 'dilec12', stub)
    h.eq('abs', am.LiqAbsModel.liquid_water_absorption(w, f, t), rayleigh(stub(f, t), f, w))


@harness(cases=[dict(model=m) for m in ('R98', 'R03', 'R24')])
def none(h, model):
    am = h.mod('absorption_model')
    am.LiqAbsModel.model = model
    w, f, t = h.var('w', -1.0, 0.0), h.var('f', 0.1, 3000.0), h.var('t', 230.0, 320.0)
    h.eq('abs', am.LiqAbsModel.liquid_water_absorption(w, f, t), 0.0)


@harness(cases=[dict(model=m) for m in ('', 'R99', 'r98', 'ABC')])
def unsupported(h, model):
    am = h.mod('absorption_model')
    am.LiqAbsModel.model = model
    w, f, t = h.var('w', 1e-9, 100.0), h.var('f', 0.1, 3000.0), h.var('t', 230.0, 320.0)
    h.raises('refused', ValueError, am.LiqAbsModel.liquid_water_absorption, w, f, t)


@harness(cases=[dict(model=m) for m in ('R98', 'R03', 'R24')])
def proportional(h, model):
    am = h.mod('absorption_model')
    am.LiqAbsModel.model = model
    w, f, t = h.var('w', 1e-9, 100.0), h.var('f', 0.1, 3000.0), h.var('t', 230.0, 320.0)
    k = h.var('k', 1e-3, 100.0)
    h.patch(am, 'dilec12', lambda f, t: fn.cplx(20.0 + 0.1 * t, -0.5 * f - 0.01 * t))
    f1 = am.LiqAbsModel.liquid_water_absorption
    h.eq('linear', f1(w * k, f, t), f1(w, f, t) * k)


@harness(cases=[dict(n=n) for n in (1, 2)] + [dict(n=3, _tier='thorough')])
def profile(h, n):
    am = h.mod('absorption_model')
    rt = h.mod('rt_equation').RTEquation
    t = h.arr('t', n, 230.0, 320.0)
    dl = h.arr('dl', n, 0.0, 100.0)
    di = h.arr('di', n, 0.0, 100.0)
    f = h.var('f', 0.1, 3000.0)
    stub = lambda water, freq, temp: water * (3.0 * freq + 0.7 * temp + 11.0)
    h.patch(am.LiqAbsModel, 'liquid_water_absorption', staticmethod(stub))
    keep = [a.copy() for a in (t, dl, di)]
    aliq, aice = rt.cloudy_absorption(t, dl, di, f)
    wave = LIGHT * 100.0 / (f * 1e9)
    h.eq('liq', aliq, h.array([stub(dl[i], f, t[i]) if dl[i] > 0 else 0.0 for i in range(n)]))
    h.eq('ice', aice, h.array([8.18645 / wave * di[i] * 0.000959553 * DB2NP if di[i] > 0 else 0.0 for i in range(n)]))
    h.eq('inputs kept', [t, dl, di], keep)


@harness()
def whole_numbers(h):
    am, rt = h.mod('absorption_model'), h.mod('rt_equation').RTEquation
    am.LiqAbsModel.model = 'R03'
    t, dl, di, f = h.arr('t', 3, 230.0, 320.0), h.arr('dl', 3, 0.1, 5.0), h.arr('di', 3, 0.1, 5.0), h.var('f', 1.0, 300.0)
    same(h, 'temperatures', rt.cloudy_absorption, [290, 280, 250], dl, di, f)
    same(h, 'liquid', rt.cloudy_absorption, t, [0, 1, 2], di, f)
    same(h, 'ice', rt.cloudy_absorption, t, dl, [0, 1, 2], f)
    same(h, 'frequency', rt.cloudy_absorption, t, dl, di, 89)


@harness(cases=[dict(n=n) for n in (30, 60)])
def many_levels(h, n):
    am = h.mod('absorption_model')
    rt = h.mod('rt_equation').RTEquation
    t, f = long(h, 't', n, 230.0, 320.0), h.var('f', 0.1, 3000.0)
    dl, di = long(h, 'dl', n, 0.0, 5.0, (1, n - 1)), long(h, 'di', n, 0.0, 5.0, (0, n - 2))
    stub = lambda water, freq, temp: water * (3.0 * freq + 0.7 * temp + 11.0)
    h.patch(am.LiqAbsModel, 'liquid_water_absorption', staticmethod(stub))
    aliq, aice = rt.cloudy_absorption(t, dl, di, f)
    wave = LIGHT * 100.0 / (f * 1e9)
    h.eq('liq', aliq, h.array([stub(dl[i], f, t[i]) for i in range(n)]))
    h.eq('ice', aice, h.array([8.18645 / wave * di[i] * 0.000959553 * DB2NP for i in range(n)]))
