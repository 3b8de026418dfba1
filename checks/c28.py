"""C28: weighting functions."""
import numpy as np
from checks import simref as S
from checks.plots import Recorder
from symx import fn
from symx.harness import harness
from checks.whole import same

BOUNDS = ('ascending height profiles of 3-4 levels whose inner heights are symbolic and whose top is one of several values on and off the grid, grid steps of 0.5-40 km; '
          'all values symbolic; 1-3 frequencies, 2-5 grid levels (and 60 and 140, a few of them symbolic); both viewing directions; plots with and without normalisation')
ASSUMPTIONS = ['gas models, layer integration and ray tracing are stood in for by arbitrary linear functions (each is decided by its own property); matplotlib by a recorder of the curves',
               'the opacity from a level to a satellite is the discrete one the package uses: all layers from the one that ends at that level up to the top']


def interp(z, v, x):
    if x <= z[0]:
        return v[0]
    for i in range(len(z) - 1):
        if x < z[i + 1]:
            return v[i] + (v[i + 1] - v[i]) * (x - z[i]) / (z[i + 1] - z[i])
    return v[-1]


def heights(h, top, n=3, bottom=None):
    z = [h.var('zb', 0.05, 0.2) if bottom is None else bottom]
    step = (top - 0.4) / (n - 2)
    for i in range(n - 2):
        z.append(h.var('z%d' % i, 0.3 + i * step, 0.25 + (i + 1) * step))
    return z + [top]


@harness(cases=[dict(top=t, step=s, n=n, bottom=b) for t, s, n, b in
                ((2.0, 1, 3, None), (2.3, 1, 3, None), (2.0, 0.5, 3, 0.0), (1.2, 0.5, 3, None), (4.0, 1, 4, None), (7.0, 3, 3, 0.0), (5.5, 2.0, 4, 0.0), (0.9, 1, 3, None), (110.0, 40, 4, 0.0), (85.0, 20.0, 5, None))])
def grid(h, top, step, n, bottom):
    W = h.mod('weighting_functions').WeightingFunctions
    z = heights(h, top, n, bottom)
    p, t, r = h.arr('p', n, 1.0, 1000.0), h.arr('t', n, 100.0, 400.0), h.arr('r', n, 0.0, 3.0)
    w = W(h.array(z), p, t, r) if step == 1 else W(h.array(z), p, t, r, step)
    m = 0
    while (m + 1e-9) * step < top:
        m += 1
    h.eq('grid', list(w.zinterp), [step * i for i in range(m + 1)])
    for k, v in (('pinterp', p), ('tinterp', t), ('rhinterp', r)):
        h.eq(k, getattr(w, k), h.array([interp(z, v, step * i) for i in range(m + 1)]))


@harness(cases=[dict(sat=s, nf=nf, nl=nl) for s in (True, False) for nf, nl in ((1, 2), (1, 4), (2, 3), (3, 2), (2, 5))])
def formula(h, sat, nf, nl):
    W = h.mod('weighting_functions').WeightingFunctions
    w = W(np.arange(nl, dtype=float), h.arr('p', nl, 1.0, 1000.0), h.arr('t', nl, 100.0, 400.0), h.arr('r', nl, 0.0, 3.0))
    w.satellite = sat
    w.frequencies = h.arr('f', nf, 1.0, 200.0)
    d = {k: h.arr(k, (nf, 1, nl), 0.0, 2.0) for k in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry')}
    h.patch(w, '_perform_calculation', lambda: d)
    g = w.generate_wf()
    h.eq('shape', str(g.shape), str((nf, nl)))
    for j in range(nf):
        for i in range(nl):
            tau = 0.0
            for k in range(i, nl) if sat else range(0, i + 1):
                tau = tau + d['taulaywet'][j, 0, k] + d['taulaydry'][j, 0, k] + d['taulayliq'][j, 0, k] + d['taulayice'][j, 0, k]
            h.eq('wf', g[j, i], (d['awet'][j, 0, i] + d['adry'][j, 0, i]) * fn.exp(-tau))


@harness(cases=[dict(sat=s, nl=nl) for s in (True, False) for nl in (60, 140)])
def many_levels(h, sat, nl):
    W = h.mod('weighting_functions').WeightingFunctions
    w = W(np.arange(nl, dtype=float), np.arange(nl, 0.0, -1.0), np.full(nl, 250.0), np.zeros(nl))
    w.satellite = sat
    w.frequencies = h.arr('f', 1, 1.0, 200.0)
    free = (0, 1, nl // 2, nl - 2, nl - 1)
    d = {k: h.array([[[h.var('%s%d' % (k, i), 0.0, 2.0) if i in free else 0.01 + 0.001 * (i % 5) for i in range(nl)]]])
         for k in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice', 'awet', 'adry')}
    h.patch(w, '_perform_calculation', lambda: d)
    g = w.generate_wf()
    h.eq('shape', str(g.shape), str((1, nl)))
    tau = 0.0
    for i in range(nl - 1, -1, -1) if sat else range(nl):
        tau = tau + sum(d[k][0, 0, i] for k in ('taulaywet', 'taulaydry', 'taulayliq', 'taulayice'))
        h.eq('wf', g[0, i], (d['awet'][0, 0, i] + d['adry'][0, 0, i]) * fn.exp(-tau))


@harness(cases=[dict(sat=s, nf=nf, model=m) for s in (True, False) for nf, m in ((1, None), (2, 'R17'))])
def simulation(h, sat, nf, model):
    """absorption and opacity are those of the simulation of the interpolated profile."""
    st = S.Stub(h, ray=True)
    W = h.mod('weighting_functions').WeightingFunctions
    zz = heights(h, 2.0, 3, 0.0)
    v = {k: h.arr(k, 3, lo, hi) for k, lo, hi in (('p', 1.0, 1000.0), ('t', 100.0, 400.0), ('r', 0.0, 3.0))}
    w = W(h.array(zz), v['p'], v['t'], v['r'])
    w.satellite = sat
    w.frequencies = f = h.array([h.var('f%d' % j, 1.0 + 200.0 * j, 200.0 + 200.0 * j) for j in range(nf)])
    if model:
        w.model = model
        w.angle = h.var('angle', 10.0, 90.0)
    d = w._perform_calculation()
    h.eq('water model', st.am.H2OAbsModel.model, model or 'R24')
    h.eq('nitrogen model', st.am.N2AbsModel.model, model or 'R24')
    q = dict(z=h.array([0.0, 1.0, 2.0]), **{a: h.array([interp(zz, v[b], float(i)) for i in range(3)]) for a, b in (('p', 'p'), ('t', 't'), ('rh', 'r'))})
    for j in range(nf):
        r = S.compose(h, st, q, f[j], w.angle, sat, 1.0, ray=True)
        for k in ('awet', 'adry', 'taulaywet', 'taulaydry'):
            h.eq(k, d[k][j, 0], r[k])


@harness(cases=[dict(change=c, sat=s) for c in ('satellite', 'angle', 'frequencies', 'model', 'emissivity') for s in (True, False)])
def changed(h, change, sat):
    """a setting changed after the weighting functions were computed once applies to the next ones."""
    st = S.Stub(h, ray=True)
    gas = st.am.H2OAbsModel.h2o_absorption
    h.patch(st.am.H2OAbsModel, 'h2o_absorption', lambda self, p, v, e, f, amu=None: tuple(
        x * (1.0 if st.am.H2OAbsModel.model == 'R98' else 1.3) for x in gas(self, p, v, e, f)))
    W = h.mod('weighting_functions').WeightingFunctions
    v = [h.arr(k, 3, lo, hi) for k, lo, hi in (('p', 1.0, 1000.0), ('t', 200.0, 320.0), ('r', 0.0, 1.0))]
    f = [h.array([h.var('%s%d' % (n, j), 1.0 + 100.0 * j, 90.0 + 100.0 * j) for j in range(k)]) for n, k in (('f', 1), ('g', 2))]
    old = dict(satellite=sat, angle=h.var('angle', 10.0, 90.0), frequencies=f[0], model='R98', emissivity=1.0)
    new = dict(old, **{change: dict(satellite=not sat, angle=h.var('angle2', 10.0, 90.0), frequencies=f[1], model='R24', emissivity=0.5)[change]})
    put = lambda w, s: [setattr(w, k, x) for k, x in s.items()]
    w, w2 = [W(np.array([0.0, 1.0, 2.0]), *v) for _ in (0, 1)]
    put(w, old)
    first = w.generate_wf()
    keep = first.copy()
    setattr(w, change, new[change])
    put(w2, new)
    a, b = w.generate_wf(), w2.generate_wf()
    h.eq('as if set from the start', a, b)
    h.eq('first result kept', first, keep)
    put(w, old)
    h.eq('changed back', w.generate_wf(), keep)


@harness(cases=[dict(sat=s, norm=n, nf=nf, nl=nl) for s in (True, False) for n in (True, False) for nf, nl in ((1, 3), (2, 3), (3, 3), (4, 2))])
def plotted(h, sat, norm, nf, nl):
    M = h.mod('weighting_functions')
    rec = Recorder()
    h.patch(M, 'plt', rec)
    w = M.WeightingFunctions(np.arange(nl, dtype=float), np.arange(nl, 0.0, -1.0), np.arange(nl, dtype=float), np.arange(nl, dtype=float))
    w.satellite = sat
    f = w.frequencies = h.arr('f', nf, 1.0, 200.0)
    g = h.arr('g', (nf, nl), 0.01, 2.0)
    keep = g.copy()
    if h.choice('repeated', [0, 1]):
        w.plot_wf(g, normalized=not norm)
        rec.curves.clear()
        rec.titles.clear()
    w.legend_labels = h.choice('labels', [None, ['curve %d' % j for j in range(nf)]])
    w.plot_wf(g, normalized=norm, title='a title')
    h.eq('curves', len(rec.curves), nf)
    for j, (x, y, k) in enumerate(rec.curves):
        top = 1.0
        if norm:
            top = g[j, 0]
            for i in range(1, nl):
                top = fn.maximum(top, g[j, i])
        h.eq('curve', x, h.array([g[j, i] / top for i in range(1 if sat else 0, nl)]))
        h.eq('heights', list(y), [float(i) for i in range(nl - 1 if sat else nl)])
        h.printed('label', k['label'], f[j], 2)
        if sat:
            m = 1
            for i in range(2, nl):
                if g[j, i] > g[j, m]:
                    m = i
            h.eq('peak', k['label'].split('GHz')[-1].strip(), '%d km' % (m - 1))
    h.eq('labels', rec.labels, [w.legend_labels] if w.legend_labels else [])
    h.eq('titles', rec.titles, ['a title'])
    h.eq('weighting functions kept', g, keep)


@harness(cases=[dict(sat=s, grouped=g) for s, g in ((True, 0), (False, 0), (True, 1))])
def axes(h, sat, grouped):
    """height limits and the pressures of the profile at them."""
    M = h.mod('weighting_functions')
    rec = Recorder()
    h.patch(M, 'plt', rec)
    nl = 5
    w = M.WeightingFunctions(np.arange(nl, dtype=float), np.arange(nl, 0.0, -1.0), np.arange(nl, dtype=float), np.arange(nl, dtype=float))
    p = w.pinterp = h.array([h.var('p%d' % i, 1000.0 - 200.0 * i, 1100.0 - 200.0 * i) for i in range(nl)])
    w.satellite = sat
    w.frequencies = h.arr('f', 1, 1.0, 200.0)
    g = h.array([[0.3, 0.4, 0.2, 0.1, 0.05]])
    limits = h.choice('limits', [None, (0, 4), (1, 3), [0.0, 2.5], (0.25, 3.75), 'symbolic'])
    if limits == 'symbolic':
        limits = h.var('low', 0.0, 1.9), h.var('high', 2.0, 4.0)
    x = None if grouped else h.choice('x', [None, (0.1, 0.2)])
    if grouped:
        w.plot_wf_grouped(g, ylim=limits, grouped_frequencies=[1], grouped_labels=['a'])
    else:
        w.plot_wf(g, ylim=limits, xlim=x)
    z = [float(i) for i in range(nl)]
    if limits:
        h.eq('heights', rec.limits['y'], list(limits))
    h.eq('pressures', rec.twin.limits['y'], [interp(z, p, a) for a in (limits or (0.0, 4.0))])
    if x:
        h.eq('values', rec.limits['x'], list(x))


@harness()
def settings(h):
    W = h.mod('weighting_functions').WeightingFunctions
    w = W(np.arange(2.0), np.arange(2.0), np.arange(2.0), np.arange(2.0))
    for bad in (None, 1, 'yes', 0.0):
        def put():
            w.satellite = bad
        h.raises('satellite %r' % (bad,), ValueError, put)
    for bad in (None, 22.0, [22.0], 'f'):
        def put():
            w.frequencies = bad
        h.raises('frequencies %r' % (bad,), ValueError, put)
    h.eq('kept', w.satellite, True)


@harness(cases=[dict(which=w) for w in 'zptr'])
def whole_numbers(h, which):
    W = h.mod('weighting_functions').WeightingFunctions
    v = dict(z=np.array([0.0, 1.0, 3.0]), p=h.arr('p', 3, 1.0, 1000.0), t=h.arr('t', 3, 100.0, 400.0), r=h.arr('r', 3, 0.0, 1.0))

    def run(x):
        a = dict(v, **{which: x})
        w = W(a['z'], a['p'], a['t'], a['r'], 0.5)
        return [w.zinterp, w.pinterp, w.tinterp, w.rhinterp]
    same(h, which, run, dict(z=[0, 2, 3], p=[1000, 800, 715], t=[290, 270, 255], r=[1, 0, 1])[which])


@harness(cases=[dict(sat=s) for s in (True, False)])
def whole_frequencies(h, sat):
    st = S.Stub(h, ray=True)
    W = h.mod('weighting_functions').WeightingFunctions
    v = [h.arr(k, 3, lo, hi) for k, lo, hi in (('p', 1.0, 1000.0), ('t', 100.0, 400.0), ('r', 0.0, 3.0))]

    def run(f):
        w = W(np.array([0.0, 1.0, 2.0]), *v)
        w.satellite, w.frequencies, w.angle = sat, f, 90.0
        return w.generate_wf()
    same(h, 'weighting functions', run, [22, 60])
