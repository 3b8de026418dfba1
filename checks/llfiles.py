"""Symbolic spectroscopy files in the layout of the shipped ones."""
import netCDF4
import numpy as np

H2O = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
O2 = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24']
O3 = ['R18', 'R22', 'R23']
GAS = dict(h2o=('H2OAbsModel', H2O), o2=('O2AbsModel', O2), o3=('O3AbsModel', O3))
OLD_H2O = ('R98', 'R03', 'R16', 'R17')
OLD_O2 = ('R98', 'R03', 'R17', 'R18', 'R19', 'R19SD')


class Masked:
    """what a netCDF variable slice offers, over plain or symbolic values."""

    def __init__(self, a):
        self.a = a
        self.data = a
        self.shape = a.shape
        self.ndim = a.ndim

    def filled(self, *_):
        return self.a

    def item(self):
        return self.a.item()

    def __getitem__(self, k):
        return self.a[k]

    def __array__(self, dtype=None, copy=None):
        return self.a

    def __truediv__(self, o):
        return self.a / o

    def __float__(self):
        return self.a.item()


class Variable(Masked):
    def __getitem__(self, k):
        return Masked((self.a[k] if self.a.ndim else self.a).copy())


class Group:
    def __init__(self, variables):
        self.variables = variables

    def __getitem__(self, k):
        return self.variables[k]


def columns(gas, model, rows):
    if gas == 'h2o':
        n = 8 if model == 'R98' else 9 if model in OLD_H2O else 12 if model == 'R18' else 14 if model in ('R19', 'R20') else 16 if model in ('R19SD', 'R20SD') else 20
        v = dict(mtx=(rows, n), ctr=(5,), reftline=())
        if model == 'R20SD':
            v.update(d2air=(), d2self=())
        return v
    if gas == 'o3':
        return dict(mtx=(rows, 7), reftline=())
    v = {k: (rows,) for k in ('f', 's300', 'be', 'w300')}
    v.update(x=(), wb300=())
    if model in OLD_O2:
        v.update(y300=(rows,), v=(rows,))
    else:
        v.update({k: (rows,) for k in ('y1', 'g0', 'g1', 'dnu0', 'dnu1')})
        v['y300' if model in ('R23', 'R24') else 'y0'] = (rows,)
    return v


def fill(h, tag, shape, symbolic):
    a = h.array([1.0 + 0.01 * i for i in range(int(np.prod(shape)) if shape else 1)]).reshape(shape)
    for i, idx in enumerate(np.ndindex(shape)):
        if symbolic and (not idx or symbolic is True or idx[0] in symbolic):
            a[idx] = h.var('%s_%d' % (tag, i), 0.5, 2.0)
    return a


def files(h, want, rows=2, symbolic=True):
    """symbolic spectroscopy of `want` = {gas: [models]}, constants for the others; symbolic: True or the symbolic line numbers.

    returns {gas: {model: {variable: array}}}."""
    raw = {}
    groups = {}
    for gas, (_, models) in GAS.items():
        raw[gas], groups[gas] = {}, {}
        for m in models:
            on = m in want.get(gas, ())
            d = {k: fill(h, '%s_%s' % (m, k) if len(want) == 1 else '%s_%s_%s' % (gas, m, k), s, symbolic if on else False) for k, s in columns(gas, m, rows if on else 2).items()}
            raw[gas][m] = d
            groups[gas][m] = Group({k: Variable(a) for k, a in d.items()})

    class File(Group):
        def __init__(self, path, mode='r', **kw):
            self.groups = groups[str(path).replace('\\', '/').split('/')[-1].split('_')[0]]
            self.variables = {}

        def __getitem__(self, k):
            return self.groups[k]

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    am = h.mod('absorption_model')
    h.patch(netCDF4, 'Dataset', File)
    h.patch(am, 'Dataset', File)
    return raw


def cls(h, gas):
    return getattr(h.mod('absorption_model'), GAS[gas][0])


NAME = dict(h2o='h2o_absorption', o2='o2_absorption', o3='o3_absorption')


def args(h, gas):
    """arguments for which no line is close to the frequency (water, oxygen) or every line is within 1 GHz (ozone)."""
    if gas == 'o3':
        return (h.var('t', 180.0, 330.0), h.var('p', 1.0, 500.0), h.var('f', 1.0, 1.4), h.var('o', 1e15, 1e18))
    return (h.var('pd', 10.0, 110.0), h.var('vx', 0.9, 1.8), h.var('e', 1e-3, 5.0), h.var('f', 500.0, 700.0))
