"""C13: cloud layers."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import B

BOUNDS = ('3-6 levels; one and two clouds with every base/top pair; densities 0..200 g/m3, thickness 0..100 km; '
          'opacity steps from 1e-6 Np up to 200 Np each, 0.1-3000 GHz, both viewing directions; both profile orientations')


@harness(cases=[dict(n=4, base=b, top=t) for b in range(4) for t in range(b, 4)])
def column(h, n, base, top):
    rt = h.mod('rt_equation').RTEquation
    d = h.arr('d', n, 0.0, 200.0)
    ds = h.arr('ds', n, 0.0, 100.0)
    ref = 0.0
    for j in range(base + 1, top + 1):
        ref = ref + ds[j] * 0.5 * (d[j] + d[j - 1])
    h.eq('column', rt.cloud_integrated_density(d, ds, np.array([float(base)]), np.array([float(top)])), ref * 0.1)


@harness(cases=[dict(n=6, c=c) for c in (((0, 1), (3, 5)), ((1, 2), (2, 4)), ((4, 5), (0, 3)), ((1, 1), (2, 3)))])
def two_clouds(h, n, c):
    rt = h.mod('rt_equation').RTEquation
    d = h.arr('d', n, 0.0, 200.0)
    ds = h.arr('ds', n, 0.0, 100.0)
    ref = 0.0
    for b, t in c:
        for j in range(b + 1, t + 1):
            ref = ref + ds[j] * 0.5 * (d[j] + d[j - 1])
    out = rt.cloud_integrated_density(d, ds, np.array([float(x[0]) for x in c]), np.array([float(x[1]) for x in c]))
    h.eq('column', out, ref * 0.1)


@harness(cases=[dict(base=b, top=t, sat=s) for s in (False, True) for b, t in ((0, 2), (1, 2), (1, 3))])
def radiating(h, base, top, sat):
    """the emission between base and top, divided by the cloud's emissivity and referred to its base."""
    rt = h.mod('rt_equation').RTEquation
    f = h.var('f', 0.1, 3000.0)
    hvk = f * 1e9 * 6.6260755e-34 / 1.380658e-23
    tau = [0.0]
    for i in range(1, 4):
        tau.append(tau[-1] + h.var('dt%d' % i, 1e-6, 200.0))
    if sat:                                    # seen from above, opacity and emission accumulate downwards
        tau = tau[::-1]
    sign = -1.0 if sat else 1.0
    bo, thin = [0.0] * 4, fn.exp(-fn.minimum(tau[base], 130.0))     # emission of the order of what is left of it
    for i in range(base + 1, 4):
        bo[i] = bo[i - 1] + sign * h.var('db%d' % i, 1e-6, 50.0) * thin
    for i in range(base - 1, -1, -1):
        bo[i] = bo[i + 1] - sign * h.var('db%d' % i, 1e-6, 50.0) * thin
    tau, bo = h.array(tau), h.array(bo)
    r = rt.cloud_radiating_temperature(base, top, hvk, tau, bo)
    if tau[base] > 125.0:
        h.eq('no result', r, None)
        h.eq('warned', len(h.warned()) >= 1, True)
        return
    tc = tau[top] - tau[base]
    rad = (bo[top] - bo[base]) * fn.exp(tau[base])
    if not tc > 125.0:
        rad = rad / (1.0 - fn.exp(-tc))
    h.eq('tmr', r, hvk / fn.log(1.0 + 1.0 / rad))


@harness(cases=[dict(flip=f, clouds=c) for f in (False, True) for c in (((0, 2),), ((1, 3),), ((0, 1), (2, 3)))])
def locate(h, flip, clouds):
    tb = h.mod('tb_spectrum')
    n = 4
    z = [h.var('z0', -0.5, 9.0)]
    for i in range(1, n):
        z.append(z[-1] + h.var('dz%d' % i, 0.001, 40.0))
    p = [h.var('p%d' % i, 1.0, 1000.0) for i in range(n)]
    t = [h.var('t%d' % i, 200.0, 310.0) for i in range(n)]
    rh = [h.var('rh%d' % i, 0.0, 1.0) for i in range(n)]
    dl = [h.var('dl%d' % i, 0.0, 100.0) for i in range(n)]
    di = [h.var('di%d' % i, 0.0, 100.0) for i in range(n)]
    arr = lambda x: h.array(x[::-1] if flip else x)
    m = tb.TbCloudRTE(arr(z), arr(p), arr(t), arr(rh), np.array([22.0, 31.0]), cloudy=True)
    cldh = np.array([[z[b] for b, _ in clouds], [z[t_] for _, t_ in clouds]])
    keep_l, keep_i = arr(dl), arr(di)
    a_l, a_i = arr(dl), arr(di)
    m.init_cloudy(cldh, a_i, a_l)
    h.eq('base', [int(x) for x in m.beglev], [b for b, _ in clouds])
    h.eq('top', [int(x) for x in m.endlev], [t_ for _, t_ in clouds])
    h.eq('liquid', m.denliq, h.array(dl))
    h.eq('ice', m.denice, h.array(di))
    h.eq('liquid kept', a_l, keep_l)
    h.eq('ice kept', a_i, keep_i)


@harness()
def whole_numbers(h):
    rt = h.mod('rt_equation').RTEquation
    d, ds, b = h.arr('d', 4, 0.1, 5.0), h.arr('ds', 4, 0.01, 5.0), h.arr('b', 4, 0.1, 5.0)
    tau = h.array([0.0, h.var('t1', 0.1, 0.2), h.var('t2', 0.3, 0.4), h.var('t3', 0.5, 0.6)])
    same(h, 'densities', rt.cloud_integrated_density, [0, 1, 2, 1], ds, np.array([1.0]), np.array([3.0]))
    same(h, 'thicknesses', rt.cloud_integrated_density, d, [0, 1, 2, 1], np.array([1.0]), np.array([3.0]))
    same(h, 'levels', rt.cloud_integrated_density, d, ds, [1, 0], [3, 1])
    same(h, 'cloud', rt.cloud_radiating_temperature, 1, 3, 2.0, tau, b)
    same(h, 'opacities', rt.cloud_radiating_temperature, 1.0, 3.0, 2.0, [0, 1, 2, 3], b)
