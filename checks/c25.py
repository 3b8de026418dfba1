"""C25: profile orientation and input preservation."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from checks import simref as S

BOUNDS = ('2-4 levels (and 30 and 60, a few of them symbolic), both orientations, clear/cloudy, with and without ozone, both viewing directions, plane-parallel and ray-traced; '
          'heights (from 0.5 km below sea level), pressures, temperatures, humidities (supersaturated too), ozone and cloud water all symbolic, one phase possibly absent; every ordering pattern of 2-4 arbitrary heights')
ASSUMPTIONS = ['gas and liquid models, layer integration, ray tracing, radiative transfer and Planck inversion are stood in for by linear functions']


def build(h, st, arrs, cloud, ozone, sat, ray, clouds, q):
    f = h.array([h.var('f0', 0.1, 2000.0)])
    a = h.array([h.var('a0', 1.0, 179.0)])
    m = st.tb.TbCloudRTE(arrs['z'], arrs['p'], arrs['t'], arrs['rh'], f, a, o3n=arrs.get('on') if ozone else None, absmdl='R24',
                         from_sat=sat, cloudy=cloud, ray_tracing=ray)
    if cloud:
        m.init_cloudy(h.array([[q['z'][c[i]] for c in clouds] for i in (0, 1)]), arrs['di'], arrs['dl'])
    return m


CASES = [dict(nl=2, cloud=False, ozone=o, sat=s, ray=r) for o in (False, True) for s in (True, False) for r in (False, True)] + \
    [dict(nl=3, cloud=c, ozone=True, sat=s, ray=False) for c in (False, True) for s in (True, False)] + \
    [dict(nl=4, cloud=True, ozone=True, sat=False, ray=True)] + \
    [dict(nl=3, cloud=True, ozone=False, sat=False, ray=False, dry=k) for k in ('dl', 'di', 'both')]


@harness(cases=CASES)
def orientation(h, nl, cloud, ozone, sat, ray, dry=None):
    st = S.Stub(h, ray=ray)
    st.am.O3AbsModel.model = 'R18'
    q = S.profile(h, nl, o3=True, cloud=True)
    for k in ('dl', 'di'):
        q[k] = [0.0 if dry in (k, 'both') else x + 1e-3 for x in q[k]]
    clouds = ((0, nl - 1),) if nl < 4 else ((0, 1), (2, 3))
    u, d = S.up(h, q), S.down(h, q)
    m1 = build(h, st, u, cloud, ozone, sat, ray, clouds, q)
    m2 = build(h, st, d, cloud, ozone, sat, ray, clouds, q)
    df1, r1 = m1.execute(only_bt=False)
    df2, r2 = m2.execute(only_bt=False)
    for c in S.COLS:
        h.eq(c, df2.iloc[0][c], df1.iloc[0][c])
    for c in S.LAYER + S.COLUMN:
        h.eq(c, r2[c], r1[c])
    for m in (m1, m2):
        h.eq('z', m.z, h.array([x - q['z'][0] for x in q['z']]))
        h.eq('z0', m.z0, q['z'][0])
    for k, v in S.up(h, q).items():
        h.eq('caller ' + k, u[k], v)
    for k, v in S.down(h, q).items():
        h.eq('caller (top-down) ' + k, d[k], v)


@harness(cases=[dict(nl=n, sat=s, ray=r) for n, s, r in ((30, True, False), (60, False, True))])
def many_levels(h, nl, sat, ray):
    st = S.Stub(h, ray=ray)
    st.am.O3AbsModel.model = 'R18'
    q = S.long_profile(h, nl, o3=True, cloud=True)
    clouds = ((2, nl // 2),)
    u, d = S.up(h, q), S.down(h, q)
    df1, r1 = build(h, st, u, True, True, sat, ray, clouds, q).execute(only_bt=False)
    df2, r2 = build(h, st, d, True, True, sat, ray, clouds, q).execute(only_bt=False)
    for c in S.COLS:
        h.eq(c, df2.iloc[0][c], df1.iloc[0][c])
    for c in S.LAYER + S.COLUMN:
        h.eq(c, r2[c], r1[c])
    for k, v in S.down(h, q).items():
        h.eq('caller (top-down) ' + k, d[k], v)


@harness(cases=[dict(n=n) for n in (2, 3, 4)])
def ordering(h, n):
    """monotone heights are accepted, any others rejected."""
    tb = h.mod('tb_spectrum')
    z = h.array([h.var('z%d' % i, -1.0, 120.0) for i in range(n)])
    p = h.array([h.var('p%d' % i, 20.0 - i, 20.5 - i) for i in range(n)])
    t = h.array([h.var('t%d' % i, 100.0, 400.0) for i in range(n)])
    rh = h.array([h.var('r%d' % i, 0.0, 3.0) for i in range(n)])
    upw = all(z[i + 1] > z[i] for i in range(n - 1))
    dnw = all(z[i + 1] < z[i] for i in range(n - 1))
    mk = lambda: tb.TbCloudRTE(z, p, t, rh, np.array([22.0]))
    if not (upw or dnw):
        h.raises('rejected', SystemExit, mk)
        return
    ok, m = h.noraise('accepted', mk)
    if not ok:
        return
    order = list(range(n)) if upw else list(range(n))[::-1]
    h.eq('z', m.z, h.array([z[i] - z[order[0]] for i in order]))
    h.eq('p', m.p, h.array([p[i] for i in order]))
    h.eq('t', m.tk, h.array([t[i] for i in order]))
    h.eq('rh', m.rh, h.array([rh[i] for i in order]))


@harness(cases=[dict(sat=s, flip=f) for s in (True, False) for f in (True, False)])
def offset(h, sat, flip):
    """only height differences matter in a plane-parallel atmosphere."""
    st = S.Stub(h)
    q = S.profile(h, 3)
    off = h.var('off', -1.0, 5.0)
    q2 = dict(q, z=[x + off for x in q['z']])
    o = S.down if flip else S.up
    r = []
    for qq in (q, q2):
        u = o(h, qq)
        m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], h.array([h.var('f0', 0.1, 2000.0)]), h.array([h.var('a0', 1.0, 179.0)]), absmdl='R98', from_sat=sat)
        r.append(m.execute(only_bt=False))
    for c in S.COLS:
        h.eq(c, r[1][0].iloc[0][c], r[0][0].iloc[0][c])
    for c in S.LAYER + S.COLUMN:
        h.eq(c, r[1][1][c], r[0][1][c])


@harness(cases=[dict(which=w) for w in ('z', 'p', 't', 'rh')])
def whole_numbers(h, which):
    """a top-down profile of integers."""
    st = S.Stub(h)
    u = S.down(h, S.profile(h, 3))

    def run(x):
        v = dict(u, **{which: x})
        m = st.tb.TbCloudRTE(v['z'], v['p'], v['t'], v['rh'], np.array([22.2]), np.array([60.0]), absmdl='R98', from_sat=False)
        df, d = m.execute(only_bt=False)
        return [m.z, m.p, m.tk, m.rh] + [df.iloc[0][c] for c in S.COLS] + [d[k] for k in S.LAYER + S.COLUMN]
    same(h, which, run, dict(z=[4, 3, 1], p=[600, 700, 900], t=[265, 270, 280], rh=[0, 1, 1])[which])
