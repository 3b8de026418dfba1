"""C27: validation and scope of simulation settings."""
import numpy as np
from symx.harness import harness
from checks import simref as S

BOUNDS = ('1-3 frequencies, symbolic emissivities 0..1, up to three simulations configured in every order before being run; '
          'rejected kinds: int, str, None, list, tuple, dict for emissivity; int, str, None, float, list for the viewing direction')
ASSUMPTIONS = ['gas models, layer integration, radiative transfer and Planck inversion are stood in for by linear functions that use emissivity and viewing direction']


def sim(h, st, tag, nf, nl=2, sat=True):
    u = S.up(h, S.profile(h, nl, tag))
    f = h.array([h.var('%sf%d' % (tag, j), 1.0 + 100.0 * j, 100.0 + 100.0 * j) for j in range(nf)])
    a = h.array([h.var(tag + 'a0', 5.0, 89.0)])
    return st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=sat), u, f, a


@harness(cases=[dict(nf=n) for n in (1, 2, 3)])
def default(h, nf):
    st = S.Stub(h)
    m, u, f, a = sim(h, st, '', nf)
    h.eq('emissivity', m.emissivity, h.array([1.0] * nf))
    h.eq('satellite', m.satellite, True)


@harness(cases=[dict(nf=n) for n in (1, 2, 3)])
def scalar(h, nf):
    """one value is used for every frequency."""
    st = S.Stub(h)
    m, u, f, a = sim(h, st, '', nf)
    e = h.var('e', 0.0, 1.0)
    m.emissivity = e
    h.eq('emissivity', m.emissivity, h.array([e] * nf))
    df = m.execute()
    for j in range(nf):
        h.eq('f%d' % j, df.iloc[j]['tbtotal'], S.compose(h, st, u, f[j], a[0], True, e)['tbtotal'])


@harness(cases=[dict(nf=n) for n in (1, 2, 3)])
def per_frequency(h, nf):
    st = S.Stub(h)
    m, u, f, a = sim(h, st, '', nf)
    e = h.arr('e', nf, 0.0, 1.0)
    m.emissivity = e
    h.eq('emissivity', m.emissivity, e.copy())
    df = m.execute()
    for j in range(nf):
        h.eq('f%d' % j, df.iloc[j]['tbtotal'], S.compose(h, st, u, f[j], a[0], True, e[j])['tbtotal'])


BADE = [1, 0, 'x', '0.5', None, [0.5, 0.6], (0.5, 0.6), {}]
BADS = [1, 0, 'up', 'True', None, 1.0, []]


@harness()
def rejected_emissivity(h):
    st = S.Stub(h)
    m, u, f, a = sim(h, st, '', 2)
    e = h.arr('e', 2, 0.0, 1.0)
    m.emissivity = e
    bad = h.choice('bad', BADE)
    h.raises('rejected', ValueError, setattr, m, 'emissivity', bad)
    h.eq('old value', m.emissivity, e.copy())


@harness(cases=[dict(old=o) for o in (True, False)])
def rejected_direction(h, old):
    st = S.Stub(h)
    m, u, f, a = sim(h, st, '', 1, sat=old)
    bad = h.choice('bad', BADS)
    h.raises('rejected', ValueError, setattr, m, 'satellite', bad)
    h.eq('old value', m.satellite, old)
    df = m.execute()
    h.eq('tb', df.iloc[0]['tbtotal'], S.compose(h, st, u, f[0], a[0], old, 1.0)['tbtotal'])


@harness(cases=[dict(first=a, then=b) for a in (True, False) for b in (True, False)])
def direction(h, first, then):
    st = S.Stub(h)
    m, u, f, a = sim(h, st, '', 2, sat=first)
    m.satellite = then
    h.eq('satellite', m.satellite, then)
    df = m.execute()
    for j in range(2):
        r = S.compose(h, st, u, f[j], a[0], then, 1.0)
        for c in S.COLS:
            h.eq('%s f%d' % (c, j), df.iloc[j][c], r[c])


@harness(cases=[dict(order=o, sats=s) for o in ((0, 1), (1, 0), (0, 1, 0)) for s in ((True, True), (True, False), (False, True), (False, False))])
def interleaved(h, order, sats):
    """settings of several simulations, all configured before any is run."""
    st = S.Stub(h)
    ms = [sim(h, st, t, n, sat=not s) for t, n, s in (('A', 2, sats[0]), ('B', 1, sats[1]))]
    es = [h.arr('ea', 2, 0.0, 1.0), h.var('eb', 0.0, 1.0)]
    for i in (0, 1):
        ms[i][0].satellite = sats[i]
        ms[i][0].emissivity = es[i]
    for k, i in enumerate(order):
        m, u, f, a = ms[i]
        df = m.execute()
        for j in range(len(f)):
            r = S.compose(h, st, u, f[j], a[0], sats[i], es[i][j] if i == 0 else es[i])
            st.rt._emissivity = 0.123
            for c in ('tbtotal', 'tbatm', 'tmr'):
                h.eq('run%d %s f%d' % (k, c, j), df.iloc[j][c], r[c])


SEL = dict(R98=1.0, R17=1.7, R24=2.4)


def by_model(h, st):
    """gas and liquid models whose result depends on the model selected."""
    am = st.am
    h.patch(am.H2OAbsModel, 'h2o_absorption', lambda self, pd, v, e, f, amu=None: (pd * SEL[am.H2OAbsModel.model] * 0.01, e * 0.003))
    h.patch(am.O2AbsModel, 'o2_absorption', lambda self, pd, v, e, f, amu=None: (pd * 0.013, v * SEL[am.O2AbsModel.model] * 0.005))
    h.patch(am.N2AbsModel, 'n2_absorption', staticmethod(lambda t, p, f: t * SEL[am.N2AbsModel.model] * 1e-4))
    h.patch(am.LiqAbsModel, 'liquid_water_absorption', staticmethod(lambda w, f, t: w * SEL[am.LiqAbsModel.model] * 0.05))


def select(st, model):
    for c in ('H2OAbsModel', 'O2AbsModel', 'N2AbsModel', 'LiqAbsModel'):
        getattr(st.am, c).model = model


def cloudy(h, st, tag, how, model):
    u = S.up(h, S.profile(h, 2, tag))
    u['dl'], u['di'] = h.array([h.var(tag + 'dl%d' % i, 0.1, 5.0) for i in (0, 1)]), h.array([0.0, 0.0])
    f, a = h.var(tag + 'f', 1.0, 300.0), h.var(tag + 'a', 5.0, 89.0)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], h.array([f]), h.array([a]), cloudy=how != 'later', **(dict(absmdl=model) if how == 'argument' else {}))
    if how != 'argument':
        m.init_absmdl(model)
    m.cloudy = True
    m.init_cloudy(h.array([[u['z'][0]], [u['z'][1]]]), u['di'], u['dl'])
    return m, u, f, a


@harness(cases=[dict(how=w, one=a, two=b) for w in ('argument', 'method', 'later') for a, b in (('R98', 'R24'), ('R24', 'R17'))])
def selection(h, how, one, two):
    """the model selected for a simulation is used for every gas and for the cloud liquid."""
    st = S.Stub(h)
    by_model(h, st)
    for tag, model in (('A', one), ('B', two)):
        m, u, f, a = cloudy(h, st, tag, how, model)
        row = m.execute().iloc[0]
        select(st, model)
        r = S.compose(h, st, u, f, a, True, 1.0, cloud=[(0, 1)])
        for c in ('tbtotal', 'taudry', 'tauwet', 'tauliq'):
            h.eq('%s %s' % (tag, c), row[c], r[c])


@harness(cases=[dict(how=w) for w in ('argument', 'method')])
def selected_before(h, how):
    """a simulation run after another one was given its model."""
    st = S.Stub(h)
    by_model(h, st)
    m, u, f, a = cloudy(h, st, 'A', how, 'R98')
    cloudy(h, st, 'B', how, 'R24')
    row = m.execute().iloc[0]
    rs = []
    for model in ('R98', 'R24'):
        select(st, model)
        rs.append(S.compose(h, st, u, f, a, True, 1.0, cloud=[(0, 1)]))
    last = h.proves_eq(row['tauwet'], rs[1]['tauwet'])
    if last:
        h.finding('model-of-last', 'a simulation run after another one was configured uses the absorption model selected last')
    for c in ('tbtotal', 'taudry', 'tauwet', 'tauliq'):
        h.eq(c, row[c], rs[1 if last else 0][c])
