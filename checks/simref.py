"""Stand-ins and reference composition for whole-simulation harnesses (C05, C25-C27)."""
import numpy as np
from checks.stubs import stub


def profile(h, n, tag='', o3=False, cloud=False, mild=False):
    """bottom-up lists of level values (mild: of an ordinary atmosphere)."""
    z = [h.var(tag + 'z0', -0.5, 9.0)]
    for i in range(1, n):
        z.append(z[-1] + h.var(tag + 'dz%d' % i, *((0.01, 20.0) if mild else (0.001, 60.0))))
    q = dict(z=z)
    q['p'] = [h.var(tag + 'pv%d' % i, 0.1 if i == n - 1 else 10.0 + 200.0 * (n - 2 - i), 9.0 if i == n - 1 else 200.0 + 200.0 * (n - 2 - i)) for i in range(n)]
    for k, lo, hi in ((('t', 200.0, 320.0), ('rh', 0.0, 1.0)) if mild else (('t', 100.0, 400.0), ('rh', 0.0, 3.0))) + \
            ((('on', 0.0, 10.0),) if o3 else ()) + ((('dl', 0.0, 50.0), ('di', 0.0, 50.0)) if cloud else ()):
        q[k] = [h.var(tag + k + 'v%d' % i, lo, hi) for i in range(n)]
    return q


def long_profile(h, n, tag='', o3=False, cloud=False, free=None):
    """bottom-up lists of many level values, those of a few levels symbolic."""
    free = (0, 1, n // 2, n - 1) if free is None else free
    q = dict(z=[], p=[], t=[], rh=[])
    for i in range(n):
        x = i / (n - 1.0)
        q['z'].append(0.25 + 80.0 * x * x + (h.var('%sz%d' % (tag, i), -0.1, 0.1) * (0.1 + x) / n if i in free else 0.0))
        q['p'].append(1000.0 * 0.9 ** (100.0 * x) * (h.var('%sp%d' % (tag, i), 0.97, 1.03) if i in free else 1.0))
        q['t'].append(h.var('%st%d' % (tag, i), 150.0, 350.0) if i in free else 210.0 + 80.0 * (1 - x) ** 2)
        q['rh'].append(h.var('%srh%d' % (tag, i), 0.0, 1.5) if i in free else 0.7 * (1 - x) + 0.01)
        for k, on, hi in (('on', o3, 10.0), ('dl', cloud, 5.0), ('di', cloud, 5.0)):
            if on:
                q.setdefault(k, []).append(h.var('%s%s%d' % (tag, k, i), 0.01, hi) if i in free else 0.5 + 0.1 * (i % 3))
    return q


def down(h, q):
    return {k: h.array(v[::-1]) for k, v in q.items()}


def up(h, q):
    return {k: h.array(list(v)) for k, v in q.items()}


class Stub:
    """arbitrary simple functions for the gas models and for the layer integration."""

    def __init__(self, h, integ=True, ray=False, rte=True):
        self.h = h
        self.am = h.mod('absorption_model')
        self.rt = h.mod('rt_equation').RTEquation
        self.tb = h.mod('tb_spectrum')
        self.log = []
        stub(h, self.am, self.log, 1.0 if rte else 1e-7)
        self.am.N2AbsModel.model = 'R98'
        h.patch(self.am.LiqAbsModel, 'liquid_water_absorption',
                staticmethod(lambda water, freq, temp: water * (0.003 * freq + 0.0007 * temp + 0.011)))
        if rte:
            h.patch(self.rt, 'planck', staticmethod(self.planck))
            h.patch(self.rt, 'bright', staticmethod(self.bright))
            h.patch(self.rt, 'cloud_radiating_temperature', staticmethod(self.cloud_tmr))
        if integ:
            h.patch(self.rt, 'exponential_integration', staticmethod(self.integrate))
        if ray:
            h.patch(self.rt, 'ray_tracing', staticmethod(self.trace))

    def integrate(self, zeroflg, x, ds, ibeg, iend, factor):
        c = 0.37 if zeroflg else 0.41
        lay = [0.0] * len(x)
        tot = 0.0
        for i in range(ibeg, iend):
            lay[i] = (c * x[i] + 0.5 * x[i - 1]) * ds[i] * 1e-3
            tot = tot + lay[i]
        return tot * factor, self.h.array(lay)

    def planck(self, frq, t, taulay):
        rt, n = self.rt, len(t)
        sat, em = rt._from_sat, rt._emissivity
        s = 0.0
        for i in range(n):
            s = s + (i + 1.0) * t[i] + (2.0 * i + 3.0) * taulay[i]
        atm = self.h.array([t[i] * 0.1 + taulay[i] * (0.2 if sat else 0.3) + i for i in range(n)])
        prof = self.h.array([taulay[i] * 0.7 + i for i in range(n)])
        boft = self.h.array([t[i] * 0.9 for i in range(n)])
        return (s + frq * 0.1 + (em * 7.0 if sat else 5.0), atm, s * 0.3 + frq, prof, frq * 0.048, boft, s * 0.01)

    def bright(self, hvk, boft):
        return 0.3 * hvk + 2.0 * boft

    def cloud_tmr(self, ibase, itop, hvk, tauprof, boftatm):
        b, t = int(ibase), int(itop)
        return hvk * 0.5 + (tauprof[t] - 0.4 * tauprof[b]) + (boftatm[t] - 0.6 * boftatm[b])

    def trace(self, z, refindx, angle, z0):
        ds = [0.0]
        for i in range(1, len(z)):
            ds.append((z[i] - z[i - 1]) * (1.0 + 0.01 * angle) + refindx[i] * 0.2 + z0 * 0.01 + z[i] * 0.003)
        return self.h.array(ds)


def slant(h, z, angle, ray=None, refindx=None):
    from symx import fn
    if ray:
        zz = h.array([x - z[0] for x in z])
        return ray(zz, refindx, angle, z[0])
    s = fn.sin(angle * np.pi / 180.0)
    return h.array([0.0] + [(z[i] - z[i - 1]) / s for i in range(1, len(z))])


def compose(h, st, q, f, angle, sat, em=1.0, ray=False, cloud=None, amu=None, ice=False):
    """one frequency and one angle, from the parts; q holds bottom-up arrays, cloud the (base, top) levels."""
    rt = st.rt
    n = len(q['z'])
    integ = rt.exponential_integration
    e, rho = rt.vapor(q['t'], q['rh'], ice)
    dry, wet, ref = rt.refractivity(q['p'], q['t'], e)
    ds = slant(h, q['z'], angle, rt.ray_tracing if ray else None, ref)
    r = {}
    for k, x in (('srho', rho), ('swet', wet), ('sdry', dry)):
        r[k] = integ(True, x, ds, 0, n, 0.1)[0]
    aw, ad = rt.clearsky_absorption(q['p'], q['t'], e, f, q.get('on'), amu)
    r['awet'], r['adry'] = aw, ad
    r['tauwet'], r['taulaywet'] = integ(True, aw, ds, 1, n, 1)
    r['taudry'], r['taulaydry'] = integ(True, ad, ds, 1, n, 1)
    lay = r['taulaywet'] + r['taulaydry']
    r['tauliq'] = r['tauice'] = r['tmrcld'] = 0.0
    if cloud:
        al, ai = rt.cloudy_absorption(q['t'], q['dl'], q['di'], f)
        r['tauliq'], r['taulayliq'] = integ(False, al, ds, 1, n, 1)
        r['tauice'], r['taulayice'] = integ(False, ai, ds, 1, n, 1)
        lay = lay + r['taulayliq'] + r['taulayice']
        b, t = [np.array([float(c[k]) for c in cloud]) for k in (0, 1)]
        r['sliq'] = rt.cloud_integrated_density(q['dl'], ds, b, t)
        r['sice'] = rt.cloud_integrated_density(q['di'], ds, b, t)
    else:
        zero = h.array([0.0] * n)
        r['taulayliq'] = r['taulayice'] = zero
        r['sliq'] = r['sice'] = 0.0
    rt._from_sat, rt._emissivity = sat, em
    tot, atm, mr, prof, hvk, _, _ = rt.planck(f, q['t'], lay)
    if cloud:
        r['tmrcld'] = rt.cloud_radiating_temperature(cloud[0][0], cloud[0][1], hvk, prof, atm)
    r['tbtotal'] = rt.bright(hvk, tot)
    r['tbatm'] = rt.bright(hvk, atm[0 if sat else n - 1])
    r['tmr'] = rt.bright(hvk, mr)
    return r


COLS = ['tbtotal', 'tbatm', 'tmr', 'tmrcld', 'tauwet', 'taudry', 'tauliq', 'tauice']
LAYER = ['taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry']
COLUMN = ['srho', 'swet', 'sdry', 'sliq', 'sice']


def check(h, label, df, d, j, k, nf, angle, ref):
    """row (angle k, frequency j) of the table and the matching slots of the dictionary."""
    row = df.iloc[k * nf + j]
    for c in COLS:
        h.eq('%s %s' % (label, c), row[c], ref[c])
    h.eq(label + ' angle', row['angle'], angle)
    if d is not None:
        for c in LAYER:
            h.eq('%s %s' % (label, c), d[c][j, k], ref[c])
        for c in COLUMN:
            h.eq('%s %s' % (label, c), d[c][0, k], ref[c])
