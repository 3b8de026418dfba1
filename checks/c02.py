"""C02: radiance bounded by the coldest and warmest emitter; monotone profiles; isothermal exactness."""
from symx.harness import harness
from symx import fn
from checks.ref import H, K, TC, B

BOUNDS = '2-4 levels; temperatures 50-500 K; layer opacity 1e-9..20 Np; 0.1-3000 GHz; emissivity 0..1'


@harness(cases=[dict(nl=n, sat=s) for n in (2, 3, 4, 5) for s in (False, True)] +
               [dict(nl=n, sat=True, black=True) for n in (2, 3, 4, 5)])
def bounded(h, nl, sat, black=False):
    rt = h.mod('rt_equation').RTEquation
    rt._from_sat = sat
    f = h.var('f', 0.1, 3000.0)
    t = h.arr('t', nl, 50.0, 500.0)
    tau = h.arr('tau', nl, 1e-9, 20.0)
    lo, hi = h.var('tlo', 50.0, 500.0), h.var('thi', 50.0, 500.0)
    for i in range(nl):
        h.assume(lo <= t[i])
        h.assume(t[i] <= hi)
    hv = f * 1e9 * H / K
    em = 1.0 if black else h.var('em', 0.0, 1.0)
    rt._emissivity = em
    total, atm, mr, tp, hvk, boft, bak = rt.planck(f, t, tau)
    bhi, blo, bc = B(hv, hi), B(hv, lo), B(hv, TC)
    for i in range(nl):
        h.lemma('level <= hottest', boft[i], bhi)
        h.lemma('level >= coldest', blo, boft[i])
    h.lemma('positive', 0.0, blo)
    order = list(range(nl - 1, 0, -1) if sat else range(0, nl - 1))
    for i in order:
        j = i - 1 if sat else i + 1
        d = fn.exp(-tp[i]) - fn.exp(-tp[j])
        h.lemma('layer <= hottest', atm[j] - atm[i], bhi * d)
        h.lemma('layer >= coldest', blo * d, atm[j] - atm[i])
    T = tp[0] if sat else tp[nl - 1]
    A = atm[0] if sat else atm[nl - 1]
    tr = fn.exp(-T)
    h.le('atm<=hottest', A, bhi * (1.0 - tr))
    h.ge('atm>=coldest', A, blo * (1.0 - tr))
    h.lemma('background <= hottest', bak, bhi * tr)
    h.lemma('background >= cold', (bc * tr) if not sat else (blo * tr) if black else 0.0, bak)
    if not sat:
        h.lemma('cold <= coldest', bc * (1.0 - tr), blo * (1.0 - tr))
    h.le('total<=hottest', total, bhi)
    h.ge('total>=cold', total, bc if not sat else blo if black else 0.0)
    for i in order:
        j = i - 1 if sat else i + 1
        h.le('opacity monotone', tp[i], tp[j])
        h.le('radiance monotone', atm[i], atm[j])


@harness(cases=[dict(nl=n) for n in (2, 3, 4, 5)])
def isothermal_up(h, nl):
    rt = h.mod('rt_equation').RTEquation
    rt._from_sat = True
    rt._emissivity = 1.0
    f = h.var('f', 0.1, 3000.0)
    t0 = h.var('t0', 50.0, 500.0)
    tau = h.arr('tau', nl, 1e-9, 20.0)
    t = h.array([t0] * nl)
    total, atm, mr, tp, hvk, boft, bak = rt.planck(f, t, tau)
    h.eq('total', total, B(f * 1e9 * H / K, t0))
    h.eq('mr', mr, B(f * 1e9 * H / K, t0))
    h.eq('Tb', rt.bright(hvk, total), t0)


@harness(cases=[dict(nl=n) for n in (2, 3, 4, 5)])
def isothermal_down(h, nl):
    rt = h.mod('rt_equation').RTEquation
    rt._from_sat = False
    f = h.var('f', 0.1, 3000.0)
    t0 = h.var('t0', 50.0, 500.0)
    tau = h.arr('tau', nl, 1e-9, 20.0)
    t = h.array([t0] * nl)
    total, atm, mr, tp, hvk, boft, bak = rt.planck(f, t, tau)
    hv = f * 1e9 * H / K
    tr = fn.exp(-tp[nl - 1])
    h.eq('total', total, B(hv, t0) * (1.0 - tr) + B(hv, TC) * tr)
    h.eq('mr', mr, B(hv, t0))
