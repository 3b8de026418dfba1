"""C23: perturbation of spectroscopic parameters."""
import numpy as np
from checks.llfiles import H2O, O2, O3, OLD_H2O, OLD_O2, cls, files
from symx.harness import harness

BOUNDS = ('dictionaries of three parameters (arrays of 3 elements, scalars, arrays with a scalar uncertainty) with symbolic values and uncertainties; every index, one, several or all parameters; '
          'the dictionaries of every model of every gas from symbolic spectroscopy files of 2 lines, each parameter perturbed in turn')

SIGN = dict(max=1.0, min=-1.0, non=0.0)


def parts(p):
    return [p.value.copy() if isinstance(p.value, np.ndarray) else p.value, p.uncer.copy() if isinstance(p.uncer, np.ndarray) else p.uncer, p.units, p.refer, p.name]


def snap(d):
    return {k: parts(p) for k, p in d.items()}


def shifted(before, what, mode, index):
    out = {}
    for k, (v, u, *rest) in before.items():
        if k in what and SIGN[mode]:
            scalar = not isinstance(v, np.ndarray) or not isinstance(u, np.ndarray)
            if scalar:
                v = v + SIGN[mode] * u
            else:
                v = v.copy()
                for i in range(len(v)) if index is None else [index]:
                    v[i] = v[i] + SIGN[mode] * u[i]
        out[k] = [v, u] + rest
    return out


@harness(cases=[dict(mode=m, what=w) for m in SIGN for w in ('a', 'b', 's', 'm', 'ab', 'as', 'ba', 'all')])
def synthetic(h, mode, what):
    """a, b: arrays with array uncertainties; s: a number; m: an array with one uncertainty for all elements."""
    un = h.mod('uncertainty')
    P, U = un.SpectroscopicParameter, un.AbsModUncertainty
    d = dict(a=P(h.arr('av', 3, -5.0, 5.0), h.arr('au', 3, 0.0, 2.0), 'GHz', 'ref a', 'name a'),
             b=P(h.arr('bv', 3, -5.0, 5.0), h.arr('bu', 3, 0.0, 2.0), 'MHz/mb', 'ref b', 'name b'),
             s=P(h.var('sv', -5.0, 5.0), h.var('su', 0.0, 2.0)),
             m=P(h.arr('mv', 3, -5.0, 5.0), h.var('mu', 0.0, 2.0)))
    before = snap(d)
    P.set_parameters(d)
    index = h.choice('index', [0, 1, 2, -1, None])
    w = [] if what == 'all' else list(what)
    got = U.parameters_perturbation(w, mode, index)
    want = shifted(before, w or list(d), mode, index)
    h.eq('perturbed', snap(got), want)
    h.eq('reference untouched', snap(d), before)
    h.eq('request untouched', w, [] if what == 'all' else list(what))
    for p in got.values():
        if isinstance(p.value, np.ndarray):
            p.value[0] = 99.0
            p.value[2] = -99.0
        if isinstance(p.uncer, np.ndarray):
            p.uncer[1] = 7.0
    h.eq('again', snap(U.parameters_perturbation(w, mode, index)), want)
    h.eq('reference reproducible', snap(U.parameters_perturbation(w, 'non', index)), before)


@harness(cases=[dict(mode=m, u=u) for m in SIGN for u in (1, 0)])
def whole_numbers(h, mode, u):
    """values and uncertainties given as whole numbers count like the same numbers."""
    un = h.mod('uncertainty')
    P, U = un.SpectroscopicParameter, un.AbsModUncertainty
    v, a, k = h.var('v', -5.0, 5.0), h.arr('a', 2, -5.0, 5.0), h.choice('asked', [[], ['s'], ['m'], ['b'], ['i'], ['n']])
    x, i = h.arr('x', 2, 0.0, 2.0), h.choice('whole value', [np.array([3, 0]), np.array([-1, 2])])
    P.set_parameters(dict(s=P(v, u), m=P(a.copy(), u), b=P(a.copy(), np.array([2, u])), i=P(i.copy(), x.copy()), n=P(3, u)))
    got = U.parameters_perturbation(k, mode, None)
    sg = lambda n: SIGN[mode] if not k or n in k else 0.0
    h.eq('number', got['s'].value, v + sg('s') * u)
    h.eq('one for all', got['m'].value, a + sg('m') * u)
    h.eq('whole values', got['i'].value, h.array([i[0] + sg('i') * x[0], i[1] + sg('i') * x[1]]))
    h.eq('whole number', got['n'].value, 3 + sg('n') * u)
    h.eq('each its own', got['b'].value, h.array([a[0] + sg('b') * 2.0, a[1] + sg('b') * u]))


@harness()
def refused(h):
    un = h.mod('uncertainty')
    P, U = un.SpectroscopicParameter, un.AbsModUncertainty
    P.set_parameters(dict(a=P(h.arr('av', 2, -5.0, 5.0), h.arr('au', 2, 0.0, 2.0))))
    for m in ('nom', 'Max', '', None):
        h.raises('mode %s' % m, ValueError, U.parameters_perturbation, ['a'], m, 0)
    h.raises('random', NotImplementedError, U.parameters_perturbation, ['a'], 'ran', 0)
    h.raises('unknown parameter', KeyError, U.parameters_perturbation, ['z'], 'max', 0)


PARAMS = dict(h2o='water_parameters', o2='oxygen_parameters', o3='ozono_parameters')


def nominal(gas, model, d):
    """documented contents of the dictionaries, in their documented units."""
    if gas == 'o3':
        c = lambda i: d['mtx'][:, i]
        return dict(O3_FL=c(1), O3_S1=c(2), O3_B=c(3), O3_W=c(4) / 1000.0, O3_X=c(5), O3_SR=c(6))
    if gas == 'h2o':
        c = lambda i: d['mtx'][:, i]
        old = model in OLD_H2O
        r = dict(con_Cf=d['ctr'][1], con_Xf=d['ctr'][2], con_Cs=d['ctr'][3], con_Xs=d['ctr'][4], FL=c(1), S=c(2), B2=c(3), gamma_a=c(4), n_a=c(5), wv_nS=0.0)
        i = 7 if old and model != 'R98' else 6
        r.update(gamma_w=c(i), n_w=c(i + 1), con_Cf_factr=1.11 if old else 1, con_Cs_factr=0.79 if old else 1)
        if not old:
            r.update(delta_a=c(8), n_da=c(9), delta_w=c(10), n_dw=c(11))
        elif model != 'R98':
            r['SR'] = c(6)
        return r
    r = dict(O2FL=d['f'], O2S=d['s300'], O2BE=d['be'], O2gamma=d['w300'], O2gamma_NL=d['w300'], Snr=1.6e-17, WB300=scalar(d['wb300']), X11=0.785, X16=0.765, X05=scalar(d['x']), O2_nS=2.0, w2a=1.2)
    if model in OLD_O2:
        r.update(O2_V=d['v'], O2_V_NL=d['v'], Y300=d['y300'], Y300_NL=d['y300'])
    else:
        r.update(y1=d['y1'], dnu0=d['dnu0'], dnu1=d['dnu1'])
        r['Y300' if model in ('R23', 'R24') else 'y0'] = d['y300' if model in ('R23', 'R24') else 'y0']
    return r


def scalar(v):
    return v.reshape(-1)[0]


MODELS = dict(h2o=H2O, o2=O2, o3=O3)


@harness(cases=[dict(gas=g, model=m) for g in MODELS for m in MODELS[g]])
def dictionaries(h, gas, model):
    un = h.mod('uncertainty')
    P, U = un.SpectroscopicParameter, un.AbsModUncertainty
    raw = files(h, {gas: [model]})[gas][model]
    d = getattr(P, PARAMS[gas])(model)
    h.eq('nominal', {k: p.value for k, p in d.items()}, nominal(gas, model, raw))
    turner = dict(con_Cf_factr=(0.098 ** 2 + 0.03 ** 2) ** 0.5, con_Cs_factr=(0.17 ** 2 + 0.06 ** 2) ** 0.5) if gas == 'h2o' and model in OLD_H2O else {}
    for k, p in d.items():
        h.eq('uncertainty', np.ravel(p.uncer) * 1.0, np.full(np.size(p.uncer), turner.get(k, 0.0)))
    n = 0
    for k, p in d.items():
        if isinstance(p.uncer, np.ndarray):
            p.uncer = h.arr('u%d_' % n, len(p.uncer), 0.0, 0.5)
        else:
            p.uncer = h.var('u%d' % n, 0.0, 0.5)
        n += 1
    before = snap(d)
    P.set_parameters(d)
    mode = h.choice('mode', ['max', 'min'])
    index = h.choice('index', [0, 1])
    for k in d:
        h.eq(k, snap(U.parameters_perturbation([k], mode, index)), shifted(before, [k], mode, index))
    h.eq('all', snap(U.parameters_perturbation([], mode, index)), shifted(before, list(d), mode, index))
    h.eq('reference untouched', snap(d), before)
