"""C21: loading a model's spectroscopy."""
import importlib
from checks.llfiles import GAS, NAME, files, args as arguments, cls as cls_of
from symx.harness import harness

BOUNDS = ('every supported model name; spectroscopy files with the layout of the shipped ones and 2 lines (oxygen, ozone, water) '
          'whose every entry is symbolic; histories of one and two selections, with and without an unsupported name in between')

def expected(gas, model, d):
    e = {}
    if gas == 'o2':
        e = {k: d[k] for k in d}
        return e
    c = lambda i: d['mtx'][:, i]
    e['reftline'] = d['reftline']
    if gas == 'o3':
        e.update(fl=c(1), s1=c(2), b=c(3), w=c(4) / 1000.0, x=c(5), sr=c(6))
        return e
    for i, k in enumerate(('reftcon', 'cf', 'xcf', 'cs', 'xcs')):
        e[k] = d['ctr'][i]
    e.update(fl=c(1), s1=c(2), b2=c(3), w0=c(4) / 1000.0, x=c(5))
    if model == 'R98':
        e.update(w0s=c(6) / 1000.0, xs=c(7))
    elif model in ('R03', 'R16', 'R17'):
        e.update(sr=c(6), w0s=c(7) / 1000.0, xs=c(8))
    else:
        e.update(w0s=c(6) / 1000.0, xs=c(7), sh=c(8) / 1000.0, xh=c(9), shs=c(10) / 1000.0, xhs=c(11))
        if model != 'R18':
            e.update(aair=c(12), aself=c(13))
        if model in ('R19SD', 'R20SD'):
            e.update(w2=c(14) / 1000.0, w2s=c(15) / 1000.0)
        if model in ('R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24'):
            e.update(w2=c(14) / 1000.0, xw2=c(15), w2s=c(16) / 1000.0, xw2s=c(17), d2=c(18) / 1000.0, d2s=c(19) / 1000.0)
        if model == 'R20SD':
            e.update(d2air=d['d2air'], d2self=d['d2self'])
    return e


def compare(h, gas, model, cls, raw):
    ll = getattr(cls, gas + 'll')
    for k, v in expected(gas, model, raw[model]).items():
        got = getattr(ll, k)
        h.eq(k, scalar(got) if v.ndim == 0 else got, scalar(v))


def scalar(v):
    return v.reshape(-1)[0] if hasattr(v, 'reshape') and v.ndim == 0 else v


@harness(cases=[dict(gas=g, model=m) for g in GAS for m in GAS[g][1]])
def fields(h, gas, model):
    cls, raw = cls_of(h, gas), files(h, {gas: [model]})[gas]
    cls.model = model
    cls.set_ll()
    compare(h, gas, model, cls, raw)


PAIRS = [(g, a, b) for g in GAS for i, a in enumerate(GAS[g][1]) for b in (GAS[g][1][(i + 1) % len(GAS[g][1])], GAS[g][1][(i * 5 + 3) % len(GAS[g][1])], GAS[g][1][0]) if a != b]


@harness(cases=[dict(gas=g, first=a, model=b) for g, a, b in dict.fromkeys(PAIRS)] +
         [dict(gas=g, first=a, model=b, _tier='thorough') for g in GAS for a in GAS[g][1] for b in GAS[g][1] if a != b and (g, a, b) not in PAIRS])
def history(h, gas, first, model):
    """a selection after another one (and a rejected one) loads the same values as on its own."""
    cls, raw = cls_of(h, gas), files(h, {gas: [first, model]})[gas]
    am = h.mod('absorption_model')
    cls.model = first
    cls.set_ll()
    if h.choice('bad', [0, 1]):
        cls.model = 'R99'
        h.raises('rejected', am.AbsModelError, cls.set_ll)
    cls.model = model
    cls.set_ll()
    compare(h, gas, model, cls, raw)


@harness(cases=[dict(gas=g, first=a, model=b) for g, a, b in dict.fromkeys(PAIRS) if (g, b) not in (('o2', 'R23'), ('o2', 'R24'))])
def absorption(h, gas, first, model):
    """absorption after a history of selections equals that of the model loaded on its own."""
    cls, raw = cls_of(h, gas), files(h, {gas: [first, model]})[gas]
    args = arguments(h, gas)
    am = h.mod('absorption_model')
    h.patch(am.H2OAbsModel, 'h2o_continuum', lambda self, frq, vx, nfreq: 1e-9 * frq)
    cls.model = first
    cls.set_ll()
    if (gas, first) not in (('o2', 'R23'), ('o2', 'R24')):
        getattr(cls(), NAME[gas])(*args)
    cls.model = model
    cls.set_ll()
    a = getattr(cls(), NAME[gas])(*args)
    mod = importlib.import_module('pyrtlib._lineshape.' + gas + 'll')
    for k in [k for k in vars(mod) if not k.startswith('__')]:
        delattr(mod, k)
    cls.set_ll()
    h.eq('absorption', a, getattr(cls(), NAME[gas])(*args))


@harness(cases=[dict(gas=g, name=n) for g in GAS for n in ('R99', 'r98', 'R25', 'O2')])
def unsupported(h, gas, name):
    am = h.mod('absorption_model')
    cls, raw = cls_of(h, gas), files(h, {gas: []})[gas]
    cls.model = name
    h.raises('rejected', am.AbsModelError, cls.set_ll)


@harness(cases=[dict(bad=b) for b in ('', None, 5, ['R98'])])
def invalid_setting(h, bad):
    """the validating setter of a model instance."""
    am = h.mod('absorption_model')
    m = am.AbsModel()
    m.model = 'R98'
    h.eq('accepted', m.model, 'R98')

    def put():
        m.model = bad
    h.raises('rejected', ValueError, put)
    h.eq('kept', m.model, 'R98')
