"""C01: layered radiative transfer (planck)."""
from symx.harness import harness
from checks.whole import same
from symx import fn
from checks.ref import H, K, TC, B, long

EXPMAX = 125.0
BOUNDS = ('2-5 levels (thorough: 6), and 30 and 60 levels of which a few are symbolic; temperatures 50-500 K; layer opacity 1e-9..100 Np; 0.1-3000 GHz; emissivity 0..1; '
          'the reflected downwelling contribution for emissivity below one is outside the statement')


def setup(h, nl, sat):
    rt = h.mod('rt_equation').RTEquation
    rt._from_sat = sat
    f = h.var('f', 0.1, 3000.0)
    t = h.arr('t', nl, 50.0, 500.0)
    tau = h.arr('tau', nl, 1e-9, 100.0)
    return rt, f, t, tau, f * 1e9 * H / K


@harness(cases=[dict(nl=2), dict(nl=3), dict(nl=4), dict(nl=5), dict(nl=6, _tier='thorough')])
def downwelling(h, nl):
    rt, f, t, tau, hv = setup(h, nl, False)
    boftotl, boftatm, boftmr, tauprof, hvk, boft, bak = rt.planck(f, t, tau)
    h.eq('hvk', hvk, hv)
    b = [B(hv, t[i]) for i in range(nl)]
    h.eq('boft', boft, h.array(b))
    tp, atm = [0.0], [0.0]
    for i in range(1, nl):
        e = fn.exp(-tau[i])
        lay = (b[i - 1] + b[i] * e) / (1.0 + e)
        atm.append(atm[-1] + lay * fn.exp(-tp[-1]) * (1.0 - e))
        tp.append(tp[-1] + tau[i])
    h.eq('tauprof', tauprof, h.array(tp))
    h.eq('boftatm', boftatm, h.array(atm))
    if tp[-1] < EXPMAX:
        bg = B(hv, TC) * fn.exp(-tp[-1])
        h.eq('bak', bak, bg)
        h.eq('total', boftotl, bg + atm[-1])
        h.eq('mr', boftmr, atm[-1] / (1.0 - fn.exp(-tp[-1])))
    else:
        h.eq('bak', bak, 0.0)
        h.eq('total', boftotl, atm[-1])
        h.eq('mr', boftmr, atm[-1])


@harness(cases=[dict(nl=2), dict(nl=3), dict(nl=4), dict(nl=5), dict(nl=6, _tier='thorough')])
def upwelling(h, nl):
    rt, f, t, tau, hv = setup(h, nl, True)
    em = h.var('em', 0.0, 1.0)
    rt._emissivity = em
    boftotl, boftatm, boftmr, tauprof, hvk, boft, bak = rt.planck(f, t, tau)
    h.eq('hvk', hvk, hv)
    b = [B(hv, t[i]) for i in range(nl)]
    h.eq('boft', boft, h.array(b))
    tp, atm = [0.0] * nl, [0.0] * nl
    for i in range(nl - 2, -1, -1):
        e = fn.exp(-tau[i + 1])
        lay = (b[i + 1] + b[i] * e) / (1.0 + e)
        atm[i] = atm[i + 1] + lay * fn.exp(-tp[i + 1]) * (1.0 - e)
        tp[i] = tp[i + 1] + tau[i + 1]
    h.eq('tauprof', tauprof, h.array(tp))
    h.eq('boftatm', boftatm, h.array(atm))
    if tp[0] < EXPMAX:
        bg = em * b[0] * fn.exp(-tp[0])
        h.eq('bak', bak, bg)
        h.eq('total', boftotl, bg + atm[0])
        h.eq('mr', boftmr, atm[0] / (1.0 - fn.exp(-tp[0])))
    else:
        h.eq('bak', bak, 0.0)
        h.eq('total', boftotl, atm[0])
        h.eq('mr', boftmr, atm[0])


@harness(cases=[dict(sat=s) for s in (True, False)])
def whole_numbers(h, sat):
    """temperatures, opacities and frequencies may be integer arrays."""
    rt = h.mod('rt_equation').RTEquation
    rt._from_sat, rt._emissivity = sat, h.var('em', 0.1, 1.0)
    f, t, tau = h.var('f', 0.1, 3000.0), h.arr('t', 3, 150.0, 350.0), h.arr('tau', 3, 0.1, 10.0)
    same(h, 'temperatures', rt.planck, f, [300, 280, 221], tau)
    same(h, 'opacities', rt.planck, f, t, [0, 1, 2])
    same(h, 'frequency', rt.planck, 23, t, tau)


@harness(cases=[dict(nl=n, sat=s) for n in (30, 60) for s in (False, True)])
def many_levels(h, nl, sat):
    rt = h.mod('rt_equation').RTEquation
    rt._from_sat = sat
    rt._emissivity = em = h.var('em', 0.0, 1.0) if sat else 1.0
    f = h.var('f', 0.1, 3000.0)
    t, tau = long(h, 't', nl, 150.0, 350.0), long(h, 'tau', nl, 1e-6, 3.0)
    boftotl, boftatm, boftmr, tauprof, hvk, boft, bak = rt.planck(f, t, tau)
    hv = f * 1e9 * H / K
    b = [B(hv, t[i]) for i in range(nl)]
    tp, atm = [0.0] * nl, [0.0] * nl
    order = list(range(nl))[::-1] if sat else list(range(nl))
    for i, j in zip(order, order[1:]):
        x = tau[max(i, j)]
        e = fn.exp(-x)
        lay = (b[i] + b[j] * e) / (1.0 + e)
        atm[j] = atm[i] + lay * fn.exp(-tp[i]) * (1.0 - e)
        tp[j] = tp[i] + x
    end = order[-1]
    h.eq('boft', boft, h.array(b))
    h.eq('tauprof', tauprof, h.array(tp))
    h.eq('boftatm', boftatm, h.array(atm))
    bg = 0.0
    if tp[end] < EXPMAX:
        bg = (em * b[0] if sat else B(hv, TC)) * fn.exp(-tp[end])
    h.eq('total', boftotl, bg + atm[end])
