"""C22: uncertainty dictionaries."""
import numpy as np
from checks.llfiles import H2O, O2, O3, OLD_H2O, OLD_O2, NAME, args, cls, files
from checks import simref as S
from symx.harness import harness

BOUNDS = ('every water vapour, oxygen and ozone model, spectroscopy files with the layout of the shipped ones and 2 lines whose every entry is symbolic '
          '(49 lines for the parameters of the neglected oxygen lines and their namesakes, 40 for R23 and R24, of which a few symbolic); every parameter of the dictionary that the absorption depends on, all its elements replaced; '
          'water and oxygen frequencies 500-700 GHz, ozone line frequencies within 1 GHz; runs without, with and again without a dictionary, 2 levels, 1 frequency')
ASSUMPTIONS = ['the R23SD/R24 self continuum table is stood in for by a linear function of frequency',
               'parameters documented in the dictionary but used by no absorption formula (w2a, Snr, O2_nS, X11, X16, wv_nS, O3_SR) are only required to have no effect']

PARAMS = dict(h2o='water_parameters', o2='oxygen_parameters', o3='ozono_parameters')


def keys(gas, model):
    """{dictionary key: (line list field, unit factor)} of the parameters the absorption uses."""
    if gas == 'o3':
        return {'O3_' + k: (v, 1.0) for k, v in dict(FL='fl', S1='s1', B='b', W='w', X='x').items()}
    if gas == 'h2o':
        k = dict(FL=('fl', 1.0), S=('s1', 1.0), B2=('b2', 1.0), gamma_a=('w0', 1e-3), gamma_w=('w0s', 1e-3), n_a=('x', 1.0), n_w=('xs', 1.0))
        k.update(con_Cf=('cf', 1.0), con_Cs=('cs', 1.0), con_Xf=('xcf', 1.0), con_Xs=('xcs', 1.0))
        if model not in OLD_H2O:
            k.update(n_da=('xh', 1.0), n_dw=('xhs', 1.0), delta_a=('sh', 1e-3), delta_w=('shs', 1e-3))
        elif model != 'R98':
            k.update(SR=('sr', 1.0))
        return k
    k = dict(O2FL='f', O2S='s300', O2BE='be', O2gamma='w300', WB300='wb300', X05='x')
    if model in OLD_O2:
        k.update(O2_V='v', Y300='y300')
    else:
        k.update(y1='y1', dnu0='dnu0', dnu1='dnu1')
        k['Y300' if model in ('R23', 'R24') else 'y0'] = 'y300' if model in ('R23', 'R24') else 'y0'
    return {a: (b, 1.0) for a, b in k.items()}


IDLE = dict(h2o=['wv_nS'], o2=['w2a', 'Snr', 'O2_nS', 'X11', 'X16'], o3=['O3_SR'])
MODELS = dict(h2o=H2O, o2=O2, o3=O3)


class World:
    def __init__(self, h, gas, model):
        self.h, self.gas = h, gas
        big = (gas, model) in (('o2', 'R24'), ('o2', 'R23'))
        self.raw = files(h, {gas: [model]}, 40 if big else 2, (0, 5, 36, 39) if big else True)
        self.cls = cls(h, gas)
        am = h.mod('absorption_model')
        h.patch(am.H2OAbsModel, 'h2o_continuum', lambda self, frq, vx, nfreq: 1e-9 * frq)
        self.cls.model = model
        self.args = args(h, gas)
        self.sp = getattr(h.mod('uncertainty').SpectroscopicParameter, PARAMS[gas])(model)
        self.scaled = None
        if gas == 'h2o' and model in OLD_H2O:
            self.scaled = self.sp['con_Cf_factr'].value, self.sp['con_Cs_factr'].value
            self.sp['con_Cf_factr'].value = self.sp['con_Cs_factr'].value = 1.0

    def run(self, amu=None, **fields):
        """absorption with a freshly loaded line list, some of its fields replaced."""
        self.cls.set_ll()
        ll = getattr(self.cls, self.gas + 'll')
        for k, v in fields.items():
            setattr(ll, k, v)
        m = self.cls()
        f = getattr(m, NAME[self.gas])
        return f(*self.args) if amu is None else f(*self.args, amu)


def snap(d):
    return {k: (p.value.copy() if isinstance(p.value, np.ndarray) else p.value) for k, p in d.items()}


@harness(cases=[dict(gas=g, model=m) for g in MODELS for m in MODELS[g]])
def nominal(h, gas, model):
    w = World(h, gas, model)
    base = w.run()
    before = snap(w.sp)
    h.eq('nominal dictionary', w.run(w.sp), base)
    h.eq('nominal values', snap(w.sp), before)
    for k in IDLE[gas]:
        v = w.sp[k].value
        w.sp[k].value = v * 0.0 + h.var('idle', 0.1, 9.0)
        h.eq('no effect of ' + k, w.run(w.sp), base)
        w.sp[k].value = v
    h.eq('without dictionary', w.run(), base)
    if w.scaled:
        f = w.scaled
        w.sp['con_Cf_factr'].value, w.sp['con_Cs_factr'].value = a, b = h.var('af', 0.5, 1.5), h.var('bf', 0.5, 1.5)
        h.eq('adjustment factors', w.run(w.sp), w.run(cf=before['con_Cf'] * a, cs=before['con_Cs'] * b))
        if model in ('R16', 'R17') and f == (1.11, 0.79):
            h.finding('turner-factors', 'the unmodified dictionary of a pre-R18 water vapour model scales the continuum by 1.11 and 0.79')
        else:
            w.sp['con_Cf_factr'].value, w.sp['con_Cs_factr'].value = f
            h.eq('unmodified dictionary', w.run(w.sp), base)


@harness(cases=[dict(gas=g, model=m, key=k) for g in MODELS for m in MODELS[g] for k in keys(g, m)])
def one(h, gas, model, key):
    """one parameter replaced: the same as that line list entry replaced, and nothing stays behind."""
    w = World(h, gas, model)
    field, unit = keys(gas, model)[key]
    base = w.run()
    old = w.sp[key].value
    if isinstance(old, np.ndarray):
        new = old.copy()
        for i in range(len(new)):
            if i < 2 or i in (5, 36, 39):
                new[i] = h.var('%snew%d' % (key, i), 0.4, 2.1)
        if key == 'O3_FL':
            new[0] = h.var('fl0', 0.5, 2.0)
    else:
        new = h.var(key + 'new', 0.4, 2.1)
    w.sp[key].value = new
    before = snap(w.sp)
    got = w.run(w.sp)
    part = new
    if (gas, key) in (('o2', 'O2gamma'), ('o2', 'Y300'), ('o2', 'O2_V')) and isinstance(new, np.ndarray) and (key == 'O2gamma' or model in OLD_O2):
        part = new.copy()
        part[34:49] = old[34:49]
    h.eq('replaced', got, w.run(**{field: part * unit}))
    h.eq('dictionary untouched', snap(w.sp), before)
    h.eq('afterwards', w.run(), base)


@harness(cases=[dict(model=m, key=k) for m in O2 for k in (('O2gamma_NL', 'Y300_NL', 'O2_V_NL') if m in OLD_O2 else ('O2gamma_NL',))] +
         [dict(model=m, key=k) for m in O2 for k in (('O2gamma', 'Y300', 'O2_V') if m in OLD_O2 else ('O2gamma',))])
def neglected(h, model, key):
    """parameters of the neglected oxygen lines act on the lines from the 35th only, their namesakes on the first 34."""
    raw = files(h, {'o2': [model]}, 49, (0, 36))
    c = cls(h, 'o2')
    c.model = model
    a = args(h, 'o2')
    sp = h.mod('uncertainty').SpectroscopicParameter.oxygen_parameters(model)
    field, tail = dict(O2gamma='w300', Y300='y300', O2_V='v')[key.replace('_NL', '')], key.endswith('_NL')
    old = sp[key].value
    new = h.array([x for x in old])
    for i in (1, 20, 33, 34, 36, 37, 38, 47, 48):
        new[i] = h.var('n%d' % i, 0.4, 2.1)
    sp[key].value = new
    c.set_ll()
    got = c().o2_absorption(*a, sp)
    c.set_ll()
    part = new.copy()
    own = slice(0, 34) if tail else slice(34, 49)
    part[own] = raw['o2'][model][field][own]
    setattr(c.o2ll, field, part)
    h.eq('replaced', got, c().o2_absorption(*a))


@harness(cases=[dict(model=m, o3=o) for m, o in (('R98', None), ('R17', None), ('R18', 'R18'), ('R20', None), ('R24', None), ('R18', 'R22'))])
def runs(h, model, o3):
    """a simulation with a perturbed dictionary between two without one."""
    o2 = 'R18' if model == 'R24' else model
    want = dict(h2o=[model], o2=[o2])
    if o3:
        want['o3'] = [o3]
    files(h, want, 2, (0,))
    am, sp = h.mod('absorption_model'), h.mod('uncertainty').SpectroscopicParameter
    h.patch(am.H2OAbsModel, 'h2o_continuum', lambda self, frq, vx, nfreq: 1e-9 * frq)
    st = S.Stub.__new__(S.Stub)
    st.h, st.rt = h, h.mod('rt_equation').RTEquation
    for n, f in (('planck', st.planck), ('bright', st.bright)):
        h.patch(st.rt, n, staticmethod(f))
    h.patch(st.rt, 'exponential_integration', staticmethod(st.integrate))
    amu = {**sp.water_parameters(model), **sp.oxygen_parameters(o2)}
    if o3:
        amu.update(sp.ozono_parameters(o3))
    for k in ('gamma_a', 'n_w', 'O2S', 'O2gamma') + (('O3_S1', 'O3_W') if o3 else ()):
        amu[k].value = amu[k].value.copy()
        amu[k].value[0] = h.var('new' + k, 0.4, 2.1)
    before = snap(amu)
    T = h.mod('tb_spectrum').TbCloudRTE
    q = S.up(h, S.profile(h, 2, o3=bool(o3), mild=True))
    f = h.array([h.var('f', 1.0, 1.3) if o3 else h.var('f', 500.0, 700.0)])

    def run(how):
        m = T(q['z'], q['p'], q['t'], q['rh'], f, np.array([90.0]), o3n=q.get('on'), **(dict(amu=amu) if how == 'constructor' else {}))
        m.init_absmdl('R98')
        am.H2OAbsModel.model, am.O2AbsModel.model, am.N2AbsModel.model = model, o2, 'R98'
        if o3:
            am.O3AbsModel.model = o3
        am.H2OAbsModel.set_ll()
        if how == 'set':
            m.set_amu(amu)
        d = m.execute(only_bt=False)[1]
        if how == 'set':
            e = m.execute(only_bt=False)[1]
            h.eq('repeated', [e['awet'], e['adry']], [d['awet'], d['adry']])
        return [d['awet'], d['adry']]
    a = run(None)
    b = run('set')
    h.eq('not used up', run('constructor'), b)
    h.eq('without dictionary again', run(None), a)
    h.eq('dictionary untouched', snap(amu), before)


OTHER = dict(h2o='R19', o2='R18', o3='R23')


@harness(cases=[dict(gas=g, model=m) for g in MODELS for m in MODELS[g]])
def building(h, gas, model):
    """building a dictionary does not change what is computed with the model selected before."""
    other = OTHER[gas] if OTHER[gas] != model else MODELS[gas][0]
    names = [other, model] if other != model else [model]
    files(h, {gas: names}, 2, True)
    c = cls(h, gas)
    am = h.mod('absorption_model')
    rest = {k: getattr(am, k).model for k in ('H2OAbsModel', 'O2AbsModel', 'O3AbsModel', 'N2AbsModel', 'LiqAbsModel') if getattr(am, k) is not c}
    c.model = other
    getattr(h.mod('uncertainty').SpectroscopicParameter, PARAMS[gas])(model)
    now = c.model
    if other != model and now == model:
        h.finding('dictionary-selects-model', 'building the dictionary of a model selects that model for later computations')
    else:
        h.eq('selected model', now, other)
    for k, v in rest.items():
        h.true('model of ' + k, getattr(am, k).model is v)
