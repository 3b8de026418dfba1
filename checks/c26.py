"""C26: composition of a simulation per frequency and angle."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from checks import simref as S

BOUNDS = ('2-3 levels (thorough 4), 1-2 frequencies (thorough 3), 1-2 angles (thorough 3), both viewing directions, per-frequency emissivity, '
          'clear and cloudy (one phase possibly absent), plane-parallel and ray-traced, one or two successive simulations, one simulation before and after any one of its settings is changed; all profile values symbolic; '
          '40 levels, 12 frequencies and 4 angles with the values at 4 levels, 2 frequencies and 2 angles symbolic')
ASSUMPTIONS = ['gas and liquid models, layer integration and ray tracing are stood in for by arbitrary linear functions of their arguments, in most cases radiative transfer and Planck inversion too '
               '(each is decided by its own property); vapour, refractivity and cloud ice absorption are always the real code']


def freqs(h, nf, tag='f'):
    return h.array([h.var('%s%d' % (tag, j), 0.1, 2000.0) for j in range(nf)])


def angles(h, na):
    return h.array([h.var('a%d' % k, 1.0, 179.0) for k in range(na)])


@harness(cases=[dict(nl=nl, nf=nf, na=na, sat=s) for s in (True, False) for nl, nf, na in ((2, 1, 1), (3, 1, 1), (2, 2, 2), (3, 2, 1))] +
         [dict(nl=2, nf=3, na=2, sat=True, _tier='thorough'), dict(nl=4, nf=1, na=3, sat=False, _tier='thorough')])
def clear(h, nl, nf, na, sat):
    st = S.Stub(h)
    q = S.profile(h, nl)
    f, a = freqs(h, nf), angles(h, na)
    em = h.arr('em', nf, 0.1, 1.0)
    u = S.up(h, q)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=sat)
    m.emissivity = em
    df, d = m.execute(only_bt=False)
    h.eq('rows', df.shape[0], nf * na)
    for j in range(nf):
        for k in range(na):
            S.check(h, 'f%d a%d' % (j, k), df, d, j, k, nf, a[k], S.compose(h, st, u, f[j], a[k], sat, em[j]))


@harness(cases=[dict(sat=s, nf=2) for s in (True, False)])
def ozone_and_ray(h, sat, nf):
    st = S.Stub(h, ray=True)
    st.am.O3AbsModel.model = 'R18'
    q = S.profile(h, 2, o3=True)
    f, a = freqs(h, nf), angles(h, 2)
    u = S.up(h, q)
    amu = {'token': 1} if h.choice('amu', [0, 1]) else None
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, o3n=u['on'], amu=amu, absmdl='R98', ray_tracing=True, from_sat=sat)
    df, d = m.execute(only_bt=False)
    h.eq('amu passed on', all(x is amu for _, x in st.log), True)
    for j in range(nf):
        for k in range(2):
            S.check(h, 'f%d a%d' % (j, k), df, d, j, k, nf, a[k], S.compose(h, st, u, f[j], a[k], sat, 1.0, ray=True, amu=amu))


@harness(cases=[dict(nl=3, nf=1, na=1, clouds=((0, 2),)), dict(nl=3, nf=1, na=1, clouds=((0, 1),)), dict(nl=2, nf=2, na=2, clouds=((0, 1),)),
                dict(nl=3, nf=1, na=1, clouds=((0, 2),), dry='dl'), dict(nl=3, nf=1, na=1, clouds=((0, 2),), dry='di'),
                dict(nl=4, nf=1, na=1, clouds=((0, 1), (2, 3)), _tier='thorough')])
def cloudy(h, nl, nf, na, clouds, dry=None):
    st = S.Stub(h)
    q = S.profile(h, nl, cloud=True)
    for k in ('dl', 'di'):
        q[k] = [0.0 if k == dry else x + 1e-3 for x in q[k]]
    f, a = freqs(h, nf), angles(h, na)
    u = S.up(h, q)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R24', from_sat=False, cloudy=True)
    m.init_cloudy(h.array([[q['z'][c[i]] for c in clouds] for i in (0, 1)]), u['di'], u['dl'])
    df, d = m.execute(only_bt=False)
    for j in range(nf):
        for k in range(na):
            S.check(h, 'f%d a%d' % (j, k), df, d, j, k, nf, a[k], S.compose(h, st, u, f[j], a[k], False, 1.0, cloud=clouds))


@harness(cases=[dict(first=a, second=b) for a in (True, False) for b in (True, False)])
def successive(h, first, second):
    """a simulation is not influenced by one executed before, nor by being executed twice."""
    st = S.Stub(h)
    q, q2 = S.profile(h, 2, 'A'), S.profile(h, 3, 'B')
    f, f2 = freqs(h, 1, 'fa'), freqs(h, 1, 'fb')
    a = angles(h, 1)
    u, u2 = S.up(h, q), S.up(h, q2)
    em, em2 = h.var('em1', 0.1, 1.0), h.var('em2', 0.1, 1.0)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=first)
    m2 = st.tb.TbCloudRTE(u2['z'], u2['p'], u2['t'], u2['rh'], f2, a, absmdl='R98', from_sat=second)
    m.emissivity = em
    m2.emissivity = em2
    df, d = m.execute(only_bt=False)
    df2, d2 = m2.execute(only_bt=False)
    df3, d3 = m.execute(only_bt=False)
    r, r2 = S.compose(h, st, u, f[0], a[0], first, em), S.compose(h, st, u2, f2[0], a[0], second, em2)
    S.check(h, 'one', df, d, 0, 0, 1, a[0], r)
    S.check(h, 'two', df2, d2, 0, 0, 1, a[0], r2)
    S.check(h, 'one again', df3, d3, 0, 0, 1, a[0], r)


@harness(cases=[dict(sat=s, ray=r, cloud=c) for s, r, c in ((True, False, False), (False, True, False), (False, False, True))])
def large(h, sat, ray, cloud):
    """many levels, frequencies and angles."""
    st = S.Stub(h, ray=ray)
    nl, nf, na = 40, 12, 4
    q = S.long_profile(h, nl, cloud=cloud)
    f = h.array([h.var('f%d' % j, 0.1, 2000.0) if j in (0, nf - 1) else 20.0 + 10.0 * j for j in range(nf)])
    a = h.array([h.var('a%d' % k, 1.0, 179.0) if k in (0, na - 1) else 20.0 + 15.0 * k for k in range(na)])
    em = h.array([h.var('em%d' % j, 0.0, 1.0) for j in range(nf)])
    amu = {'token': 1}
    u = S.up(h, q)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, amu=amu, absmdl='R24', from_sat=sat, cloudy=cloud, ray_tracing=ray)
    m.emissivity = em
    c = ((0, 5), (12, nl - 1)) if cloud else None
    if cloud:
        m.init_cloudy(h.array([[q['z'][x[i]] for x in c] for i in (0, 1)]), u['di'], u['dl'])
    df, d = m.execute(only_bt=False)
    h.eq('rows', df.shape[0], nf * na)
    h.eq('amu passed on', all(x is amu for _, x in st.log), True)
    for j, k in ((0, 0), (nf - 1, na - 1), (nf - 2, 0), (1, na - 2)):
        S.check(h, 'f%d a%d' % (j, k), df, d, j, k, nf, a[k], S.compose(h, st, u, f[j], a[k], sat, em[j], ray=ray, cloud=c, amu=amu))


CHANGES = ['satellite', 'emissivity', 'ray_tracing', 'ice', 'amu', 'absmdl', 'cloud', 'other cloud', 'no cloud']


@harness(cases=[dict(change=c, sat=s) for c in CHANGES for s in (True, False)])
def changed(h, change, sat):
    """one simulation executed, one of its settings changed, executed again."""
    st = S.Stub(h, ray=True)
    gas = st.am.H2OAbsModel.h2o_absorption
    h.patch(st.am.H2OAbsModel, 'h2o_absorption', lambda self, p, v, e, f, amu=None: tuple(
        x * (1.0 if st.am.H2OAbsModel.model == 'R98' else 1.3) * (amu['factor'] if amu else 1.0) for x in gas(self, p, v, e, f)))
    q = S.profile(h, 3, cloud=True, mild=True)
    for k in ('dl', 'di'):
        q[k] = [x + 1e-3 for x in q[k]]
    u = S.up(h, q)
    f, a = freqs(h, 1), angles(h, 1)
    em, em2 = h.var('em', 0.0, 1.0), h.var('em2', 0.0, 1.0)
    c = ((0, 1),) if change in ('other cloud', 'no cloud') else None
    heights = lambda c: h.array([[q['z'][x[i]] for x in c] for i in (0, 1)])
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=sat, cloudy=c is not None)
    m.emissivity = em
    if c:
        m.init_cloudy(heights(c), u['di'], u['dl'])
    df, d = m.execute(only_bt=False)
    k = dict(em=em, cloud=c)
    model = 'R98'
    first = {x: v.copy() for x, v in d.items()}
    S.check(h, 'before', df, d, 0, 0, 1, a[0], S.compose(h, st, u, f[0], a[0], sat, **k))
    if change == 'satellite':
        m.satellite = sat = not sat
    elif change == 'emissivity':
        m.emissivity = k['em'] = em2
    elif change == 'ray_tracing':
        m.ray_tracing = k['ray'] = True
    elif change == 'ice':
        m.ice = k['ice'] = True
    elif change == 'amu':
        k['amu'] = dict(factor=h.var('factor', 0.5, 2.0))
        m.set_amu(k['amu'])
    elif change == 'absmdl':
        m.init_absmdl('R24')
        model = 'R24'
    elif change == 'no cloud':
        m.cloudy = False
        k['cloud'] = None
    else:
        k['cloud'] = ((1, 2),) if change == 'cloud' else ((1, 2), (0, 1))
        m.cloudy = True
        v = S.up(h, dict(dl=q['dl'][::-1], di=q['di']))
        m.init_cloudy(heights(k['cloud']), v['di'], v['dl'])
        u.update(v)
    df, d2 = m.execute(only_bt=False)
    h.eq('model', st.am.H2OAbsModel.model, model)
    S.check(h, 'after', df, d2, 0, 0, 1, a[0], S.compose(h, st, u, f[0], a[0], sat, **k))
    for x, v in first.items():
        h.eq('first results kept: ' + x, d[x], v)


@harness(cases=[dict(sat=s) for s in (True, False)])
def over_ice(h, sat):
    st = S.Stub(h)
    u = S.up(h, S.profile(h, 2, mild=True))
    f, a = freqs(h, 1), angles(h, 1)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=sat)
    m.ice = True
    df, d = m.execute(only_bt=False)
    S.check(h, 'ice', df, d, 0, 0, 1, a[0], S.compose(h, st, u, f[0], a[0], sat, ice=True))


@harness(cases=[dict(sat=s) for s in (True, False)])
def table_only(h, sat):
    """the table is the same whether or not the dictionary is asked for."""
    st = S.Stub(h)
    u = S.up(h, S.profile(h, 2))
    f, a = freqs(h, 2), angles(h, 2)
    mk = lambda: st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=sat)
    df, (df2, _) = mk().execute(), mk().execute(False)
    h.eq('columns', sorted(df.columns), sorted(S.COLS + ['angle']))
    for c in S.COLS + ['angle']:
        h.eq(c, list(df[c]), list(df2[c]))


@harness(cases=[dict(sat=s) for s in (True, False)])
def real_rte(h, sat):
    """the same composition with the real radiative transfer."""
    st = S.Stub(h, rte=False)
    h.patch(st.rt, 'vapor', staticmethod(lambda t, rh, ice=False: (rh * 0.3, rh * 0.01)))
    h.patch(st.rt, 'bright', staticmethod(st.bright))
    h.patch(st.rt, 'refractivity', staticmethod(lambda p, t, e: (p * 0.1, e * 2.0, p * 1e-4 + 1.0)))
    u = S.up(h, S.profile(h, 2))
    f, a = freqs(h, 1), angles(h, 1)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=sat)
    df, d = m.execute(only_bt=False)
    S.check(h, 'f0 a0', df, d, 0, 0, 1, a[0], S.compose(h, st, u, f[0], a[0], sat))


@harness(cases=[dict(which=w, sat=s) for w in ('z', 'p', 't', 'rh', 'f', 'a', 'em') for s in (True, False)])
def whole_numbers(h, which, sat):
    """a profile, frequencies, angles or emissivities given as integers."""
    st = S.Stub(h, ray=True)
    u = S.up(h, S.profile(h, 3))
    u.update(f=freqs(h, 2), a=angles(h, 2), em=h.arr('em', 2, 0.1, 1.0))
    whole = dict(z=[1, 3, 4], p=[900, 700, 600], t=[280, 270, 265], rh=[0, 1, 1], f=[22, 183], a=[30, 60], em=[1, 0])[which]

    def run(x):
        v = dict(u, **{which: x})
        m = st.tb.TbCloudRTE(v['z'], v['p'], v['t'], v['rh'], v['f'], v['a'], absmdl='R98', ray_tracing=True, from_sat=sat)
        m.emissivity = v['em']
        df, d = m.execute(only_bt=False)
        return [df.iloc[i][c] for c in S.COLS + ['angle'] for i in range(4)] + [d[k] for k in S.LAYER + S.COLUMN]
    same(h, which, run, whole)


@harness(cases=[dict(which=w) for w in ('z', 'limits', 'dl', 'di')])
def whole_numbers_in_clouds(h, which):
    st = S.Stub(h)
    q = S.profile(h, 3, cloud=True)
    q['z'] = [0.5, 1.0, 2.0]
    u = S.up(h, q)
    whole = dict(z=[0, 1, 2], limits=[[1], [2]], dl=[0, 2, 1], di=[1, 3, 0])[which]
    u.update(limits=h.array([[1.0], [2.0]]))

    def run(x):
        v = dict(u, **{which: x})
        m = st.tb.TbCloudRTE(v['z'], v['p'], v['t'], v['rh'], np.array([22.2]), np.array([90.0]), absmdl='R98', from_sat=False, cloudy=True)
        m.init_cloudy(v['limits'], v['di'], v['dl'])
        df, d = m.execute(only_bt=False)
        return [df.iloc[0][c] for c in S.COLS] + [d[k] for k in S.LAYER + S.COLUMN]
    same(h, which, run, whole)
