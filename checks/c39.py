"""C39: built-in climatological profiles."""
import os
import numpy as np
from symx.harness import harness

BOUNDS = ('every built-in atmosphere, every minor and trace gas constant; tables of 2 levels whose every entry is symbolic, '
          'told apart by the file they are read from; the shipped tables themselves at their 50 levels')
ASSUMPTIONS = ['the table readers of numpy are stood in for by one returning a symbolic table per file name']

ATM = dict(TROPICAL='tropical', MIDLATITUDE_SUMMER='midlatitude_summer', MIDLATITUDE_WINTER='midlatitude_winter',
           SUBARCTIC_SUMMER='subarctic_summer', SUBARCTIC_WINTER='subarctic_winter', US_STANDARD='us_standard')
TITLES = dict(TROPICAL='Tropical', MIDLATITUDE_SUMMER='Midlatitude Summer', MIDLATITUDE_WINTER='Midlatitude Winter',
              SUBARCTIC_SUMMER='Subarctic Summer', SUBARCTIC_WINTER='Subarctic Winter', US_STANDARD='US Standard')
MAJOR = ['H2O', 'CO2', 'O3', 'N2O', 'CO', 'CH4', 'O2']
MINOR = ['NO', 'SO2', 'NO2', 'NH3', 'HNO3', 'OH', 'HF', 'HCL', 'HBR', 'HI', 'CLO', 'OCS', 'H2CO', 'HOCL', 'N2', 'HCN', 'CH3CL', 'H2O2', 'C2H2', 'C2H6', 'PH3']
TRACE = ['COF2', 'SF6', 'H2S', 'CCL3F', 'CCL2F2', 'CCLF3', 'CF4', 'CHCl2F', 'CHCLF2', 'C2CL3F3', 'C2CL2F4', 'C2CLF5', 'CCL4', 'CLONO2', 'N2O5', 'HNO4']
COLS = dict({v: 11 for v in ATM.values()}, gas_minor=21, gas_trace=16)


def module(h):
    return h.mod('climatology.atmospheric_profiles')


def tables(h, m, stem):
    """the symbolic tables the readers return; -> function giving the table in force (the shipped one when no reader of numpy was used)."""
    t = {n: h.arr(n, (2, c), 0.0, 1e6) for n, c in COLS.items()}
    shipped = np.loadtxt(os.path.join(os.path.dirname(m.__file__), stem + '.dat'))
    used = []

    def read(f, *a, **k):
        used.append(f)
        r = t[os.path.splitext(os.path.basename(str(getattr(f, 'name', f))))[0]].copy()
        cols = k.get('usecols')
        if cols is not None:
            r = r[:, cols]
        return r.T if k.get('unpack') else r
    h.patch(np, 'loadtxt', read)
    h.patch(np, 'genfromtxt', read)
    return lambda: t[stem] if used else shipped


def spoil(arrays):
    """what a caller may do to the profiles it was given."""
    for x in arrays:
        try:
            x[...] = x + 1.0
        except ValueError:
            pass    # handed out read-only


@harness(cases=[dict(atm=a) for a in ATM])
def atmosphere(h, atm):
    m = module(h)
    A = m.AtmosphericProfiles
    table = tables(h, m, ATM[atm])
    for again in (0, 1):
        if again:
            spoil(A.gl_atm(getattr(A, 'TROPICAL' if atm != 'TROPICAL' else 'US_STANDARD')))
            spoil((a, p, d, k, md))
        a, p, d, k, md = A.gl_atm(getattr(A, atm))
        t = table()
        h.eq('altitude', a, t[:, 0])
        h.eq('pressure', p, t[:, 1])
        h.eq('density', d, t[:, 2])
        h.eq('temperature', k, t[:, 3])
        h.eq('gases', md.shape, (len(t), 7))
        for i, g in enumerate(MAJOR):
            h.eq(g, md[:, getattr(A, g)], t[:, 4 + i])


@harness(cases=[dict(gas=g) for g in MINOR])
def minor(h, gas):
    m = module(h)
    A = m.AtmosphericProfiles
    table = tables(h, m, 'gas_minor')
    for again in (0, 1):
        if again:
            spoil([got, A.gl_atm_minor(getattr(A, MINOR[MINOR.index(gas) - 1]))])
        got = A.gl_atm_minor(getattr(A, gas))
        h.eq(gas, got, table()[:, MINOR.index(gas)])


@harness(cases=[dict(gas=g) for g in TRACE])
def trace(h, gas):
    m = module(h)
    A = m.AtmosphericProfiles
    table = tables(h, m, 'gas_trace')
    for again in (0, 1):
        if again:
            spoil([got, A.gl_atm_trace(getattr(A, TRACE[TRACE.index(gas) - 1]))])
        got = A.gl_atm_trace(getattr(A, gas))
        h.eq(gas, got, table()[:, TRACE.index(gas)])


@harness()
def names(h):
    A = module(h).AtmosphericProfiles
    h.eq('names', A.atm_profiles(), {getattr(A, k): v for k, v in TITLES.items()})


BOLTZMANN = 1.380649e-23


@harness(cases=[dict(atm=a) for a in ATM])
def shipped(h, atm):
    """the shipped columns are altitude, pressure, density, temperature and gases of one atmosphere."""
    A = module(h).AtmosphericProfiles
    a, p, d, t, md = A.gl_atm(getattr(A, atm))
    h.eq('levels', [len(a), len(p), len(d), len(t), len(md)], [50] * 5)
    for i in range(50):
        h.eq('ideal gas law, level %d' % i, d[i] * 1e6 * BOLTZMANN * t[i] / 100.0, p[i], rtol=0.02)
        h.true('gases, level %d' % i, 0.0 <= min(md[i]) and sum(md[i]) <= 1e6)
        if i:
            h.lt('altitude %d' % i, a[i - 1], a[i])
            h.lt('pressure %d' % i, p[i], p[i - 1])
