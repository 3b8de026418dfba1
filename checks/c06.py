"""C06: ray tracing (Dutton/Thayer/Westwater construction)."""
import numpy as np
from symx.harness import harness
from checks.whole import same
from symx import fn

BOUNDS = ('2-3 levels (thorough: 4), and 20 and 60 levels of which one is symbolic at some elevations, heights 0-30 km above the antenna (first level at the antenna), antenna height 0-5 km, '
          'refractive index 0.9..1.0005, elevation 0.1-88.9 degrees (and 89-91 for the zenith rule)')
RE = 6370.949


@harness(cases=[dict(n=n) for n in (2, 3, 4)])
def zenith(h, n):
    rt = h.mod('rt_equation').RTEquation
    z = h.arr('z', n, 0.0, 80.0)
    m = h.arr('m', n, 1.0, 1.0005)
    a = h.choice('quadrant', [1, -1]) * h.var('a', 89.0, 91.0)
    z0 = h.var('hobs', 0.0, 5.0)
    ds = rt.ray_tracing(z, m, a, z0)
    h.eq('ds', ds, h.array([0.0] + [z[i] - z[i - 1] for i in range(1, n)]))


@harness(cases=[dict(n=n, k=k) for n in (2, 3) for k in range(3) if k < n])
def subunit(h, n, k):
    rt = h.mod('rt_equation').RTEquation
    z = h.arr('z', n, 0.0, 80.0)
    m = h.arr('m', n, 1.0, 1.0005)
    m[k] = h.var('bad', 0.9, 0.9999999)
    ds = rt.ray_tracing(z, m, h.var('a', 5.0, 175.0), h.var('hobs', 0.0, 5.0))
    h.eq('no result', ds, None)
    h.true('warned', len(h.warned()) >= 1)


def construction(h, z, m, angle, z0, nl, wrong):
    """slant paths; None in place of a path that ducting leaves at zero. wrong: the known sqrt(r*argth) variant."""
    th0 = angle * (fn.pi / 180)
    rs = RE + z[0] + z0
    c0, sina = fn.cos(th0), fn.sin(th0 * 0.5)
    a0 = 2.0 * sina ** 2
    ds = [0.0] * nl
    phil, tanl, rl, tau = 0.0, fn.tan(th0), rs, 0.0
    duct = False
    for i in range(1, nl):
        r = RE + z[i] + z0
        if m[i] == m[i - 1] or m[i] == 1.0 or m[i - 1] == 1.0:
            bar = 0.5 * (m[i] + m[i - 1])
        else:
            bar = 1.0 + (m[i - 1] - m[i]) / fn.log((m[i - 1] - 1.0) / (m[i] - 1.0))
        argd = z[i] / rs - (m[0] - m[i]) * c0 / m[i]
        arg = 0.5 * (a0 + argd) / r
        if arg <= 0:
            duct = True
            break
        sint = fn.sqrt((r if wrong else rs) * arg)
        theta = 2.0 * fn.arcsin(sint)
        if theta - 2.0 * th0 <= 0.0:
            den = 2.0 * (sint + sina) * fn.cos((theta + th0) * 0.25)
            dth = 4.0 * fn.arcsin((0.5 * argd - z[i] * arg) / den)
            theta = th0 + dth
        else:
            dth = theta - th0
        tan = fn.tan(theta)
        dtau = 0.5 * (1.0 / tan + 1.0 / tanl) * (m[i - 1] - m[i]) / bar
        tau = tau + dtau
        phi = dth + tau
        d = fn.sqrt((z[i] - z[i - 1]) ** 2 + 4.0 * r * rl * fn.sin((phi - phil) * 0.5) ** 2)
        if dtau != 0.0:
            d = d * abs(dtau) / (2.0 * fn.sin(abs(dtau) * 0.5))
        ds[i] = d
        phil, tanl, rl = phi, tan, r
    return ds, duct


@harness(cases=[dict(n=2), dict(n=3), dict(n=4, _tier='thorough')], max_paths=400, defined=False)
def bending(h, n):
    rt = h.mod('rt_equation').RTEquation
    z = h.arr('z', n, 0.0, 30.0)
    z[0] = 0.0
    for i in range(1, n):
        h.assume(z[i] >= z[i - 1] + 0.001)
    m = h.arr('m', n, 1.0, 1.0005)
    a = h.var('a', 0.1, 88.9)
    z0 = h.var('hobs', 0.0, 5.0)
    ds = rt.ray_tracing(z, m, a, z0)
    h.true('result', ds is not None)
    ref, duct = construction(h, z, m, a, z0, n, True)
    if all(h.proves_eq(ds[i], ref[i]) for i in range(n)):
        h.finding('ray-sint', 'the refracted elevation uses the level radius instead of the antenna radius in the half-angle sine '
                  '(pinned by test_pyrtlib_sat_no_raytracing)')
    else:
        good, duct = construction(h, z, m, a, z0, n, False)
        # if the paths are those of neither variant, look for inputs where they are far from the known one
        h.eq('ds', ds, h.array(good if all(h.proves_eq(ds[i], good[i]) for i in range(n)) else ref))
    h.eq('ducting warned', len(h.warned()) >= 1, duct)


@harness(cases=[dict(a=a) for a in (30, 90)])
def whole_numbers(h, a):
    rt = h.mod('rt_equation').RTEquation
    m = h.array([1.0003, 1.0002, 1.0001])
    same(h, 'heights', rt.ray_tracing, [0, 1, 3], m, h.var('a', 29.0, 31.0) if a == 30 else 90.0, 0.5)
    same(h, 'angle', rt.ray_tracing, np.array([0.0, 1.5, 3.0]), m, a, h.var('z0', 0.0, 5.0))
    same(h, 'antenna height', rt.ray_tracing, np.array([0.0, 1.5, 3.0]), m, a * 1.0, 2)


@harness(cases=[dict(n=n) for n in (20, 60)], defined=False)
def many_levels(h, n):
    rt = h.mod('rt_equation').RTEquation
    x = [i / (n - 1.0) for i in range(n)]
    z = h.array([60.0 * v ** 1.5 + (h.var('dz', -0.05, 0.05) if i == n // 2 else 0.0) for i, v in enumerate(x)])
    m = h.array([1.0 + 3e-4 * 0.9 ** (70 * v) + 2e-5 * (1 - v) ** 2 + (h.var('dm', -1e-6, 1e-6) if i == 1 else 0.0) for i, v in enumerate(x)])
    a, z0 = h.choice('a', [3.0, 20.0, 60.0, 88.0]), h.choice('hobs', [0.0, 2.0])
    ds = rt.ray_tracing(z, m, a, z0)
    h.true('result', ds is not None)
    ref = construction(h, z, m, a, z0, n, True)[0]
    if not all(h.proves_eq(ds[i], ref[i]) for i in range(n)):
        good = construction(h, z, m, a, z0, n, False)[0]
        ref = good if all(h.proves_eq(ds[i], good[i]) for i in range(n)) else ref
    h.eq('ds', ds, h.array(ref))
