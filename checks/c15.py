"""C15: water vapour absorption."""
import types
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import DB2NP

BOUNDS = ('line lists of 1 and 2 lines with every entry symbolic, and of 25 lines with one symbolic line near 183 GHz at a chosen place at 60..100 kPa and 273 K (thorough: 2 lines with every combination of near/far resonances), all 14 models; '
          'one line: dry pressure 1e-4..120 kPa, vapour pressure 1e-12..30 kPa, temperature 100..428 K, frequency 0.1..3000 GHz; '
          'two lines: 1e-3..110 kPa, 1e-9..8 kPa, 160..333 K, 1..1000 GHz; the tabulated self continuum of R23SD and R24 up to 1190 GHz: its table ends at 1199 GHz, beyond which these models raise IndexError')
ASSUMPTIONS = ['the complex error function helper (C20) is an arbitrary function here; the self continua of R23SD/R24 and MWL24 are decided on their own',
               'the reference expressions are transcribed from the published model descriptions carried by the source; line data are those of the line list in effect (C21)']

OLD = ['R98', 'R03', 'R16', 'R17']
MODELS = OLD + ['R18', 'R19', 'R20', 'R19SD', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
SD = ['R19SD', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
D2 = ['R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
MASS = 2.9915075E-23


def lines(h, n, zero_w2=False, split=False):
    ll = types.SimpleNamespace()
    rng = dict(s1=(1e-15, 1e-11), b2=(0.1, 10.0), w0=(1e-3, 5e-3), x=(0.3, 1.2), w0s=(5e-3, 2e-2), xs=(0.3, 1.6), sr=(-0.1, 0.1),
               sh=(-2e-4, 2e-4), xh=(-1.0, 4.0), shs=(-1e-3, 1e-3), xhs=(-1.0, 3.0), aair=(-2.0, 2.0), aself=(-2.0, 15.0),
               w2=(1e-5, 5e-4), xw2=(0.0, 2.0), w2s=(1e-5, 2e-3), xw2s=(0.0, 2.0), d2=(-5e-5, 5e-5), d2s=(-2e-4, 2e-4))
    for k, (lo, hi) in rng.items():
        setattr(ll, k, h.array([h.var('%s_%d' % (k, i), lo, hi) for i in range(n)]))
    ll.fl = h.array([h.var('fl_%d' % i, *((20.0 + 480.0 * i, 80.0 + 520.0 * i) if split else (20.0 + 300.0 * i, 310.0 + 300.0 * i))) for i in range(n)])
    if zero_w2:
        ll.w2 = h.array([0.0] * n)
    ll.reftcon = h.var('reftcon', 290.0, 305.0)
    ll.reftline = h.var('reftline', 290.0, 305.0)
    ll.cf, ll.xcf = h.var('cf', 1e-10, 1e-9), h.var('xcf', 2.0, 5.0)
    ll.cs, ll.xcs = h.var('cs', 1e-9, 1e-7), h.var('xcs', 4.0, 9.0)
    ll.d2air, ll.d2self = h.var('d2air', -5e-5, 5e-5), h.var('d2self', -2e-4, 2e-4)
    return ll


def dcerr(x, y):
    return fn.cplx(0.5 + 0.1 * x + 0.2 * y, 0.3 * x - 0.1 * y + 0.05)


def setup(h, model, n, **kw):
    am = h.mod('absorption_model')
    ll = lines(h, n, **kw)
    am.H2OAbsModel.model = model
    h.patch(am.H2OAbsModel, 'h2oll', ll)
    h.patch(am, '_dcerror', dcerr)
    if n == 1:
        pd, e = h.var('pd', 1e-4, 120.0), h.var('e', 1e-12, 30.0)
        vx, f = h.var('vx', 0.7, 3.0), h.var('f', 0.1, 3000.0)
    else:
        pd, e = h.var('pd', 1e-3, 110.0), h.var('e', 1e-9, 8.0)
        vx, f = h.var('vx', 0.9, 1.875), h.var('f', *((400.0, 650.0) if kw.get('split') else (1.0, 1000.0)))
    return am, ll, pd, vx, e, f


def state(model, pd, vx, e):
    t = 300.0 / vx
    rho = e * 10.0 / (0.01 * 8.31451 / 18.01528 * t)
    if model in OLD:
        pv = rho * t / 217.0
    elif model in ('R22SD', 'R23SD', 'R24', 'MWL24'):
        pv = 461.52e-5 * rho * t
    else:
        pv = rho * t / 216.68
    return t, rho, pv, (pd + e) * 10.0 - pv


def continuum(am, model, ll, t, pv, pda, f, vx):
    tc = ll.reftcon / t
    if model in ('R98', 'R03'):
        return (5.43e-10 * pda * tc ** 3 + 1.8e-08 * pv * tc ** 7.5) * pv * f * f
    if model == 'MWL24':
        return mwl_self(f, vx) * pv * pv + 7.1e-10 * vx ** 4.4 * f ** 1.96 * pda * pv
    if model in ('R23SD', 'R24'):
        cs = ll.cs * tc ** ll.xcs if ll.cs > 0 else mt_self(f, vx)
        return (ll.cf * tc ** ll.xcf * pda + cs * pv) * pv * f * f
    return (ll.cf * pda * tc ** ll.xcf + ll.cs * pv * tc ** ll.xcs) * pv * f * f


def mt_self(f, vx):
    return 1e-9 * f + 2e-8 * vx


def mwl_self(f, vx):
    return 3e-7 * f + 5e-8 * vx


def line(h, model, ll, i, t, pv, pda, f):
    ti = ll.reftline / t
    ln = fn.log(ti)
    w = ll.w0[i] * pda * ti ** ll.x[i] + ll.w0s[i] * pv * ti ** ll.xs[i]
    w2, d2 = 0.0, 0.0
    if model in SD:
        if model in D2:
            if ll.w2[i] > 0:
                w2 = ll.w2[i] * pda * ti ** ll.xw2[i] + ll.w2s[i] * pv * ti ** ll.xw2s[i]
            d2 = ll.d2[i] * pda + ll.d2s[i] * pv
        else:
            w2 = ll.w2[i] * pda + ll.w2s[i] * pv
            if model == 'R20SD' and i == 1:
                d2 = ll.d2air * pda + ll.d2self * pv
    if model == 'R98':
        shift = 0.0
    elif model == 'R03':
        shift = ll.sr[i] * w
    elif model in ('R16', 'R17'):
        shift = ll.sr[i] * ll.w0[i] * pda * ti ** ll.x[i]
    else:
        a, b = ((ll.aair[i], ll.aself[i]) if model != 'R18' else (0.0, 0.0))
        shift = ll.sh[i] * pda * (1.0 - a * ln) * ti ** ll.xh[i] + ll.shs[i] * pv * (1.0 - b * ln) * ti ** ll.xhs[i]
    s = ll.s1[i] * ti ** 2.5 * fn.exp(ll.b2[i] * (1.0 - ti))
    base = w / (562500.0 + w * w)
    res = 0.0
    for j, df in enumerate((f - ll.fl[i] - shift, f + ll.fl[i] + shift)):
        h.assume(abs(df) != 750.0)      # both sides of the cutoff coincide there
        if j == 0 and w2 > 0 and abs(df) < 10.0 * w:
            den = fn.cplx(w2, -d2)
            xc = fn.cplx(w - 1.5 * w2, df + 1.5 * d2) / den
            x = fn.csqrt(xc)
            sd = 2.0 * (1.0 - 1.77245385090551603 * x * dcerr(-fn.im(x), fn.re(x))) / den
            res = res + fn.re(sd) - base
        elif abs(df) < 750.0:
            res = res + w / (df * df + w * w) - base
    return s * res * (f / ll.fl[i]) ** 2


def one(v):
    return v.reshape(-1)[0] if hasattr(v, 'reshape') and getattr(v, 'ndim', 0) and v.size == 1 else v


def check(h, model, am, ll, pd, vx, e, f):
    h.patch(am.H2OAbsModel, 'h2o_continuum', lambda self, frq, vx, nfreq: mt_self(frq, vx))
    h.patch(am.H2OAbsModel, 'h2o_continuum_mwl24', lambda self, frq, vx: mwl_self(frq, vx))
    npp, ncpp = am.H2OAbsModel().h2o_absorption(pd, vx, e, f)
    t, rho, pv, pda = state(model, pd, vx, e)
    scale = DB2NP * 0.182 * f
    h.eq('continuum', one(ncpp), continuum(am, model, ll, t, pv, pda, f, vx) / scale)
    s = 0.0
    for i in range(len(ll.fl)):
        s = s + line(h, model, ll, i, t, pv, pda, f)
    if model in ('R22SD', 'R23SD', 'R24'):
        a = 1e-10 * rho * s / (np.pi * MASS)
    else:
        a = 3.1831e-05 * (3.335e16 if model in ('R98', 'R03', 'R16') else 3.344e16) * rho * s
    h.eq('lines', one(npp), a / scale)


@harness(cases=[dict(model=m, n=1) for m in MODELS] + [dict(model=m, n=2, _opts=dict(cost=3)) for m in ('R98', 'R17')] +
         [dict(model=m, n=2, _tier='thorough', _opts=dict(cost=5)) for m in MODELS if m not in ('R98', 'R17')])
def absorption(h, model, n):
    check(h, model, *setup(h, model, n))


@harness(cases=[dict(model=m) for m in MODELS])
def two_lines(h, model):
    """the sum over lines: the second resonance scanned, the first one in its far wing."""
    check(h, model, *setup(h, model, 2, split=True))


@harness(cases=[dict(model=m, place=k) for m in MODELS for k in (2, 14, 24)])
def long_list(h, model, place):
    """a line counts wherever it stands in a list as long as the shipped ones."""
    am, ll, pd, vx, e, f = setup(h, model, 1)
    f, vx, pd, e = h.var('near', 185.0, 190.0), 1.1, h.var('pdn', 60.0, 100.0), h.var('en', 0.1, 2.0)
    ll.fl = h.array([h.var('line', 175.0, 183.5)])
    for k, v in list(vars(ll).items()):
        if getattr(v, 'ndim', 0):
            setattr(ll, k, h.array([v[0] if i == place else {'fl': 30.0, 'w0': 1e-3}.get(k, 0.0) for i in range(25)]))
    check(h, model, am, ll, pd, vx, e, f)


@harness(cases=[dict(model=m) for m in D2])
def no_speed_dependence(h, model):
    """a line without speed-dependent width keeps the Lorentz shape at resonance."""
    check(h, model, *setup(h, model, 1, zero_w2=True))


@harness(cases=[dict(model=m) for m in ('R23SD', 'R24')])
def tabulated_self_continuum(h, model):
    """a non-positive self coefficient selects the tabulated self continuum."""
    am, ll, pd, vx, e, f = setup(h, model, 1)
    ll.cs = h.var('csn', -2.0, 0.0)
    check(h, model, am, ll, pd, vx, e, f)


@harness(cases=[dict(model=m) for m in MODELS])
def dry(h, model):
    am, ll, pd, vx, e, f = setup(h, model, 1)
    npp, ncpp = am.H2OAbsModel().h2o_absorption(pd, vx, h.var('dry', 0.0, 0.0), f)
    h.eq('lines', one(npp), 0.0)
    h.eq('continuum', one(ncpp), 0.0)


@harness()
def mtckd(h):
    """tabulated self continuum: four-point interpolation between 299.79 GHz nodes of 6.532e12 S (296/T)^(n+3)."""
    am = h.mod('absorption_model')
    f, vx = h.var('f', 0.1, 1190.0), h.var('vx', 0.7, 3.0)
    S = [2.877e-21, 2.855e-21, 2.731e-21, 2.49e-21, 2.178e-21, 1.863e-21]
    N = [6.413, 6.414, 6.275, 6.049, 5.789, 5.557]
    th = 296.0 / (300.0 / vx)
    a = [6.532e12 * s * th ** (n + 3.0) for s, n in zip(S, N)]
    a = [a[1]] + a
    x = f / 299.792458
    j = 0
    for k in (1, 2, 3):
        if x >= k:
            j = k
    p = x - j
    c = (3.0 - 2.0 * p) * p * p
    b = 0.5 * p * (1.0 - p)
    ref = -a[j] * b * (1.0 - p) + a[j + 1] * (1.0 - c + b * p) + a[j + 2] * (c + b * (1.0 - p)) - a[j + 3] * b * p
    out = am.H2OAbsModel().h2o_continuum(f, vx, 1)
    h.eq('cs', out[0], ref)


@harness()
def mwl24_self(h):
    """bound and metastable dimers plus far wings."""
    am = h.mod('absorption_model')
    f, vx = h.var('f', 0.1, 3000.0), h.var('vx', 0.7, 3.0)
    t = 300.0 / vx
    c = (-7.804242E+6, 8.345651E+4, -4.212794E+2, 1.242946, -2.409822E-3, 3.017768E-6, -2.518957E-9, 1.350628E-12, -4.134191E-16, 5.530774E-20)
    bt = 0.0
    for i in range(10):
        bt = bt + c[i] * t ** i
    bt = -bt * (100.0 / t) ** 6
    k = 4.7856E-4 * fn.exp(1669.8 / t - 5.10485E-3 * t)
    kmd = ((bt - 30.5) / (82.05746 * t) - k) / 1013.25
    kbd = k / 1013.25
    bd = (5.55E-8 / (434.8 ** 2 + (f - 219.5) ** 2) + 4.93E-10 / (21.06 ** 2 + f * f) + 1.34E-14) * (268.0 / t) ** 10
    s2 = 1e-13 * (4.06 + 7.12E-3 * f) / 1013.25
    md = (s2 * 0.3 * (266.0 / t) ** 2.9 + 0.7 * bd / kbd) * kmd
    fw = 8.5E-15 * f ** 2.2 * (296.0 / t) ** 1.5
    h.eq('cs', am.H2OAbsModel().h2o_continuum_mwl24(f, vx), ((bd + md) * f ** 2 + fw) * 1e5)


@harness(cases=[dict(model=m) for m in MODELS])
def whole_numbers(h, model):
    am, ll, pd, vx, e, f = setup(h, model, 1)
    h2o = am.H2OAbsModel()
    ll.fl, ll.cs = h.array([21.0]), 1e-8
    same(h, 'frequency', lambda f: h2o.h2o_absorption(pd, vx, e, f), 22)
    same(h, 'pressures', lambda p, e: h2o.h2o_absorption(p, vx, e, 22.2), 90, 2)


@harness()
def whole_frequencies(h):
    h2o = h.mod('absorption_model').H2OAbsModel()
    vx = h.var('vx', 0.9, 1.875)
    for f in (22, 300, 650):
        same(h, 'tabulated continuum', lambda f: h2o.h2o_continuum(f, vx, 1), f)
        same(h, 'dimers', lambda f: h2o.h2o_continuum_mwl24(f, vx), f)
    same(h, 'frequency as array', lambda f: h2o.h2o_continuum(f, vx, 1), [183])
    same(h, 'temperature', lambda v: h2o.h2o_continuum(22.2, v, 1), 1)
