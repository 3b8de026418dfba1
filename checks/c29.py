"""C29: channel averages."""
import functools
import operator
import numpy as np
from checks.plots import Recorder
from symx.harness import harness
from checks.whole import same

BOUNDS = 'every list of channel sizes 1-4 with up to 6 frequencies in all (thorough 8), some with channels of up to 70 frequencies or with up to 22 channels, 1-3 levels; all weighting functions and frequencies symbolic'


def compositions(n, k=4):
    if n == 0:
        return [()]
    return [(i,) + r for i in range(1, min(n, k) + 1) for r in compositions(n - i, k)]


def average(h, a, sizes, nl):
    out, c = [], 0
    for s in sizes:
        out.append([sum(a[c + i, j] for i in range(s)) / s for j in range(nl)])
        c += s
    return h.array(out)


@harness(cases=[dict(n=n, nl=nl) for n, nl in ((1, 1), (2, 2), (3, 3), (4, 2), (5, 1), (6, 1))] + [dict(n=n, nl=nl, _tier='thorough') for n, nl in ((6, 3), (7, 2), (8, 1))])
def means(h, n, nl):
    W = h.mod('weighting_functions').WeightingFunctions
    w = W(np.arange(2.0), np.arange(2.0), np.arange(2.0), np.arange(2.0))
    sizes = h.choice('sizes', compositions(n))
    a = h.arr('a', (n, nl), 0.0, 3.0)
    b = a.copy()
    h.eq('means', w._mean_channel(a, h.choice('type', [list, np.array])(sizes)), average(h, a, sizes, nl))
    h.eq('input', a, b)


@harness(cases=[dict(sizes=s) for s in ((25, 3, 40), (1, 70), (12, 11, 13, 10, 14), (1, 2) * 6 + (3,), (2,) * 22)])
def large_channels(h, sizes):
    W = h.mod('weighting_functions').WeightingFunctions
    w = W(np.arange(2.0), np.arange(2.0), np.arange(2.0), np.arange(2.0))
    a = h.arr('a', (sum(sizes), 1), 0.0, 3.0)
    h.eq('means', w._mean_channel(a, list(sizes)), average(h, a, sizes, 1))


@harness(cases=[dict(n=n, sat=s) for n in (2, 3, 4) for s in (True, False)] + [dict(n=6, sat=True, _tier='thorough')], max_paths=2000)
def plotted(h, n, sat):
    """a band-averaged plot shows one curve per channel, labelled with the channel's mean frequency, each time it is drawn."""
    M = h.mod('weighting_functions')
    rec = Recorder()
    h.patch(M, 'plt', rec)
    nl = 2
    w = M.WeightingFunctions(np.arange(nl, dtype=float), np.arange(nl, 0.0, -1.0), np.arange(nl, dtype=float), np.arange(nl, dtype=float))
    w.satellite = sat
    sizes = h.choice('sizes', compositions(n))
    f = w.frequencies = h.arr('f', n, 20.0, 200.0)
    w.bandpass = np.array(sizes)
    g = h.arr('g', (n, nl), 0.01, 2.0)
    if h.choice('repeated', [0, 1]):
        w.plot_wf(g)
        rec.curves.clear()
    w.plot_wf(g)
    m = average(h, g, sizes, nl)
    mf = average(h, f.reshape((n, 1)), sizes, 1)
    h.eq('curves', len(rec.curves), len(sizes))
    for k, (x, y, o) in enumerate(rec.curves):
        h.eq('curve', x, m[k, 1 if sat else 0:])
        h.printed('label', o['label'], mf[k, 0], 2)
    h.eq('frequencies kept', w.frequencies, f)


@harness(cases=[dict(n=n) for n in (1, 2, 3)] + [dict(n=n, _tier='thorough') for n in (4, 5)], max_paths=3000)
def grouped(h, n):
    """a grouped plot shows every curve, shifted by the offset of its own group, and every group's label once."""
    M = h.mod('weighting_functions')
    rec = Recorder()
    h.patch(M, 'plt', rec)
    nl = 3
    w = M.WeightingFunctions(np.arange(nl, dtype=float), np.arange(nl, 0.0, -1.0), np.arange(nl, dtype=float), np.arange(nl, dtype=float))
    w.satellite = True
    z = np.arange(nl, dtype=float)
    w.zinterp, w.pinterp = z, np.array([1000.0, 900.0, 800.0])
    sizes = list(h.choice('sizes', compositions(n)))
    f = w.frequencies = h.arr('f', n, 20.0, 200.0)
    g = h.arr('g', (n, nl), 0.01, 2.0)
    labels = ['group %d' % k for k in range(len(sizes))]
    kw = dict(ylim=(0.0, 2.0)) if h.choice('limits', [0, 1]) else {}
    w.plot_wf_grouped(g, grouped_frequencies=sizes, grouped_labels=labels, **kw)
    h.eq('curves', len(rec.curves), n)
    h.eq('labels', [t[2] for t in rec.texts], labels)
    i, last = 0, None
    for k, s in enumerate(sizes):
        shift = rec.curves[i][0][0] - g[i, 1] if i < len(rec.curves) else 0.0
        for x, y, o in rec.curves[i:i + s]:
            h.eq('curve', h.array(list(x)), h.array([v + shift for v in g[i, 1:]]))
            h.eq('heights', list(y), list(z[:-1]))
            i += 1
        if k:
            h.lt('groups side by side', last, shift)
        else:
            h.eq('first group in place', shift, 0.0, atol=1e-9)
        last = shift
        if k < len(rec.texts):
            own = [v + shift for j in range(i - s, i) for v in g[j, 1:]]
            x = rec.texts[k][0]
            h.true('label not left of its group', functools.reduce(operator.or_, [x > v - 0.1 for v in own]))
            h.true('label not right of its group', functools.reduce(operator.or_, [x < v + 0.1 for v in own]))
    h.eq('frequencies kept', w.frequencies, f)


@harness(cases=[dict()])
def grouped_ground(h):
    """a ground-based sensor has no grouped plot."""
    M = h.mod('weighting_functions')
    h.patch(M, 'plt', Recorder())
    w = M.WeightingFunctions(np.arange(3.0), np.arange(3.0), np.arange(3.0), np.arange(3.0))
    w.satellite = False
    h.raises('ground', ValueError, w.plot_wf_grouped, h.arr('g', (1, 3), 0.01, 2.0), grouped_frequencies=[1], grouped_labels=['a'])


@harness(cases=[dict(sizes=s) for s in ((2, 1), (3,), (1, 2))])
def whole_numbers(h, sizes):
    W = h.mod('weighting_functions').WeightingFunctions
    w = W(np.arange(2.0), np.arange(2.0), np.arange(2.0), np.arange(2.0))
    for v in ([[1], [2], [4]], [[0], [1], [1]]):
        same(h, 'values', lambda a: w._mean_channel(a, list(sizes)), v)
