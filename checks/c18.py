"""C18: ozone absorption."""
import types
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn

BOUNDS = ('frequency-sorted line lists of 1-3 lines with every entry symbolic, any position of the lines relative to the frequency; lists of 330 and 700 lines with one line near the frequency at chosen places; '
          'all three ozone spectroscopies and both line shapes; temperature 60..450 K, pressure 1e-4..1200 hPa, frequency 0.1..3000 GHz, ozone 1e10..1e19 m-3')
ASSUMPTIONS = ['the complex error function helper (C20) is an arbitrary function here']


def dcerr(x, y):
    return fn.cplx(0.5 + 0.1 * x * x + 0.2 * y, 0.3 * x - 0.1 * y + 0.05)


def setup(h, model, n, near=False):
    am = h.mod('absorption_model')
    ll = types.SimpleNamespace()
    fl = [h.var('fl0', 10.0, 900.0)]
    for i in range(1, n):
        fl.append(fl[-1] + h.var('gap%d' % i, 0.0, 30.0))
    ll.fl = h.array(fl)
    for k, (lo, hi) in dict(s1=(1e-18, 1e-13), b=(0.0, 15.0), w=(1e-3, 5e-3), x=(0.5, 1.0), sr=(-0.1, 0.1)).items():
        setattr(ll, k, h.array([h.var('%s_%d' % (k, i), lo, hi) for i in range(n)]))
    ll.reftline = h.var('reftline', 290.0, 305.0)
    am.O3AbsModel.model = model
    h.patch(am.O3AbsModel, 'o3ll', ll)
    h.patch(am, '_dcerror', dcerr)
    return am, ll, h.var('t', 60.0, 450.0), h.var('p', 1e-4, 1200.0), h.var('f', 0.1, 3000.0), h.var('on', 1e10, 1e19)


def reference(model, ll, t, p, f, on):
    ti = ll.reftline / t
    s = 0.0
    for k in range(len(ll.fl)):
        c = ll.fl[k]
        if c > f + 1.0 or c < f - 1.0:
            continue
        w = ll.w[k] * p * ti ** ll.x[k]
        st = ll.s1[k] * fn.exp(ll.b[k] * (1.0 - ti))
        if model in ('R22', 'R22SD'):
            bd = 0.62065e-7 * c * fn.sqrt(t)
            s = s + 0.56419e-4 * st * fn.re(dcerr((c - f) / bd, w / bd)) / bd
        else:
            w = 0.5346 * w + fn.sqrt(0.2166 * w * w + 0.6931 * 3.85e-15 * t * c ** 2)
            s = s + 3.183e-05 * st * (f / c) ** 2 * w / ((f - c) ** 2 + w * w)
    return s * (1.0 - fn.exp(-1008.0 / t)) * ti ** 2.5 * 1e-6 * on


@harness(cases=[dict(model=m, n=n) for m in ('R18', 'R22', 'R22SD', 'R23') for n in (1, 2)] +
         [dict(model=m, n=3) for m in ('R18', 'R22')] + [dict(model=m, n=4, _tier='thorough') for m in ('R18', 'R22', 'R23')])
def absorption(h, model, n):
    am, ll, t, p, f, on = setup(h, model, n)
    o3 = am.O3AbsModel()
    a = o3.o3_absorption(t, p, f, on)
    h.eq('absorption', a, reference(model, ll, t, p, f, on))


@harness(cases=[dict(model=m) for m in ('R18', 'R22')])
def proportional(h, model):
    am, ll, t, p, f, on = setup(h, model, 1)
    o3 = am.O3AbsModel()
    h.eq('proportional', o3.o3_absorption(t, p, f, 3.0 * on), 3.0 * o3.o3_absorption(t, p, f, on))
    h.eq('none', o3.o3_absorption(t, p, f, h.var('zero', 0.0, 0.0)), 0.0)


@harness(cases=[dict(model=m, n=n) for m in ('R18', 'R22', 'R22SD', 'R23') for n in (330, 700)])
def long_list(h, model, n):
    """a line of a long list counts, wherever it stands in the list."""
    am, ll, t, p, f, on = setup(h, model, 1)
    f = h.var('near', 300.1, 300.9)
    k = h.choice('place', [0, 1, 20, 49, 50, 99, 200, n // 2, n - 2, n - 1])
    for name in ('s1', 'b', 'w', 'x', 'sr'):
        v = getattr(ll, name)[0]
        setattr(ll, name, h.array([v] * n))
    ll.fl = h.array([20.0 + 0.1 * i for i in range(k)] + [h.var('line', 300.0, 301.0)] + [400.0 + 0.5 * i for i in range(n - k - 1)])
    h.eq('absorption', am.O3AbsModel().o3_absorption(t, p, f, on), reference(model, ll, t, p, f, on))


@harness(cases=[dict(model=m) for m in ('R18', 'R22', 'R22SD', 'R23')])
def whole_numbers(h, model):
    am, ll, t, p, f, on = setup(h, model, 1)
    ll.fl = h.array([110.5])
    o3 = am.O3AbsModel()
    same(h, 'frequency', lambda f: o3.o3_absorption(t, p, f, on), 110)
    same(h, 'state', lambda t, p: o3.o3_absorption(t, p, 110.2, on), 250, 30)
