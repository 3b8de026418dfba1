"""C05: plane-parallel slant paths."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks import simref as S

BOUNDS = ('2-4 levels (thorough 5), 1-3 angles each anywhere in 1..179 degrees, 1-2 frequencies, both viewing directions, clear and cloudy; '
          'every use of a slant path in a simulation is observed (columns, opacities)')
ASSUMPTIONS = ['the layer integration is stood in for by a linear function of its arguments']


def observed(h, st, q, u, d, k, nf, csc):
    """every quantity integrated along the path of angle k is the one obtained along height differences times csc."""
    want = h.array([0.0] + [(q['z'][i] - q['z'][i - 1]) * csc for i in range(1, len(q['z']))])
    e, rho = st.rt.vapor(u['t'], u['rh'], False)
    dry, wet, _ = st.rt.refractivity(u['p'], u['t'], e)
    for key, x in (('srho', rho), ('swet', wet), ('sdry', dry)):
        h.eq('%s a%d' % (key, k), d[key][0, k], st.integrate(True, x, want, 0, len(x), 0.1)[0])
    for j in range(nf):
        for key, x in (('taulaywet', 'awet'), ('taulaydry', 'adry')):
            h.eq('%s f%d a%d' % (key, j, k), d[key][j, k], st.integrate(True, d[x][j, k], want, 1, len(rho), 1)[1])


@harness(cases=[dict(nl=nl, na=na, nf=nf, sat=s) for s in (True, False) for nl, na, nf in ((2, 1, 1), (3, 2, 1), (4, 1, 2), (2, 3, 1))] +
         [dict(nl=5, na=3, nf=2, sat=False, _tier='thorough')])
def paths(h, nl, na, nf, sat):
    st = S.Stub(h)
    q = S.profile(h, nl)
    u = S.up(h, q)
    f = h.array([h.var('f%d' % j, 1.0 + 200.0 * j, 200.0 + 200.0 * j) for j in range(nf)])
    a = h.array([h.var('a%d' % k, 1.0, 179.0) for k in range(na)])
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R98', from_sat=sat)
    _, d = m.execute(only_bt=False)
    for k in range(na):
        observed(h, st, q, u, d, k, nf, 1.0 / fn.sin(a[k] * np.pi / 180.0))


@harness(cases=[dict(nl=3, clouds=((0, 2),)), dict(nl=4, clouds=((0, 1), (2, 3)))])
def cloud_columns(h, nl, clouds):
    """cloud water is integrated along the same slant path."""
    st = S.Stub(h)
    q = S.profile(h, nl, cloud=True)
    for k in ('dl', 'di'):
        q[k] = [x + 1e-3 for x in q[k]]
    u = S.up(h, q)
    f = h.array([h.var('f0', 1.0, 200.0)])
    a = h.array([h.var('a%d' % k, 1.0, 179.0) for k in range(2)])
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], f, a, absmdl='R24', from_sat=False, cloudy=True)
    m.init_cloudy(h.array([[q['z'][c[i]] for c in clouds] for i in (0, 1)]), u['di'], u['dl'])
    _, d = m.execute(only_bt=False)
    for k in range(2):
        s = fn.sin(a[k] * np.pi / 180.0)
        for key, den in (('sliq', q['dl']), ('sice', q['di'])):
            ref = 0.0
            for b, t in clouds:
                for j in range(b + 1, t + 1):
                    ref = ref + (q['z'][j] - q['z'][j - 1]) / s * 0.5 * (den[j] + den[j - 1])
            h.eq('%s a%d' % (key, k), d[key][0, k], ref * 0.1)


@harness(cases=[dict(sat=s) for s in (True, False)])
def zenith(h, sat):
    """at 90 degrees the path is the height difference; at 30 and 150 degrees it is twice that."""
    st = S.Stub(h)
    q = S.profile(h, 3)
    u = S.up(h, q)
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], np.array([22.0]), np.array([90.0, 30.0, 150.0]), absmdl='R98', from_sat=sat)
    _, d = m.execute(only_bt=False)
    for k, c in enumerate((1.0, 2.0, 2.0)):
        observed(h, st, q, u, d, k, 1, c)


@harness(cases=[dict(sat=s) for s in (True, False)])
def secant_law(h, sat):
    """columns at any two angles stand in the ratio of the cosecants."""
    st = S.Stub(h)
    u = S.up(h, S.profile(h, 3))
    a = h.array([h.var('a%d' % k, 1.0, 179.0) for k in range(2)])
    m = st.tb.TbCloudRTE(u['z'], u['p'], u['t'], u['rh'], np.array([22.0]), a, absmdl='R98', from_sat=sat)
    _, d = m.execute(only_bt=False)
    s = [fn.sin(a[k] * np.pi / 180.0) for k in range(2)]
    for key in ('srho', 'swet', 'sdry'):
        h.eq(key, d[key][0, 0] * s[0], d[key][0, 1] * s[1])


@harness(cases=[dict(which=w, sat=s) for w in ('z', 'a', 'f') for s in (True, False)])
def whole_numbers(h, which, sat):
    st = S.Stub(h)
    u = S.up(h, S.profile(h, 3))
    u.update(f=h.array([22.5]), a=h.array([h.var('a0', 1.0, 179.0), 90.0]))

    def run(x):
        v = dict(u, **{which: x})
        m = st.tb.TbCloudRTE(v['z'], v['p'], v['t'], v['rh'], v['f'], v['a'], absmdl='R98', from_sat=sat)
        _, d = m.execute(only_bt=False)
        return [d[k] for k in ('srho', 'swet', 'sdry', 'taulaywet', 'taulaydry')]
    same(h, which, run, dict(z=[1, 3, 4], a=[30, 77], f=[22])[which])
