"""C24: first-order uncertainty propagation."""
from symx import fn
from symx.harness import harness
from checks.whole import same

BOUNDS = 'scalars and arrays of two elements; |A|,|B| in 0.001..1000 of either sign (A positive for the power law), |a|,|b| up to 5, uncertainties 0..200, covariances of admissible size'

FUNS = ['aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a']


def value(f, A, B, a, b):
    return {'aA': lambda: a * A, 'aA+bB': lambda: a * A + b * B, 'aA-bB': lambda: a * A - b * B, 'A*B': lambda: A * B, 'A/B': lambda: A / B, 'A^a': lambda: fn.power(A, a)}[f]()


def partials(f, A, B, a, b):
    return {'aA': lambda: (a, 0.0), 'aA+bB': lambda: (a, b), 'aA-bB': lambda: (a, -b), 'A*B': lambda: (B, A), 'A/B': lambda: (1 / B, -A / (B * B)),
            'A^a': lambda: (a * fn.power(A, a - 1), 0.0)}[f]()


def quantities(h, f, tag=''):
    A = h.var('A' + tag, 1e-3, 1000.0)
    B = h.var('B' + tag, 1e-3, 1000.0)
    if f in ('A*B', 'A/B', 'aA', 'aA+bB', 'aA-bB'):
        A = A * h.choice('signA' + tag, [1.0, -1.0])
        B = B * h.choice('signB' + tag, [1.0, -1.0])
    return A, B, h.var('sA' + tag, 0.0, 200.0), h.var('sB' + tag, 0.0, 200.0)


@harness(cases=[dict(fun=f, defaults=d) for f in FUNS for d in ((), ('ab',), ('sAB',), ('ab', 'sAB'))])
def formula(h, fun, defaults):
    U = h.mod('uncertainty').AbsModUncertainty
    A, B, sA, sB = quantities(h, fun)
    k = {}
    a = b = 1.0
    s = 0.0
    if 'ab' not in defaults:
        k['a'] = a = h.var('a', 0.1, 5.0) * h.choice('signa', [1.0, -1.0])
        k['b'] = b = h.var('b', 0.1, 5.0) * h.choice('signb', [1.0, -1.0])
    if 'sAB' not in defaults:
        r = h.var('r', -0.9, 0.9)
        k['sAB'] = s = r * sA * sB
    F, sF = U.uncertainty_propagation(fun, A, B, sA, sB, **k)
    dA, dB = partials(fun, A, B, a, b)
    h.eq('value', F, value(fun, A, B, a, b))
    h.eq('variance', sF * sF, dA * dA * sA * sA + dB * dB * sB * sB + 2 * dA * dB * s, rtol=1e-5)
    h.le('never negative', 0.0, sF)


@harness(cases=[dict(fun=f) for f in FUNS])
def exact(h, fun):
    """no uncertainty in, none out; doubling the inputs' uncertainties doubles the result's."""
    U = h.mod('uncertainty').AbsModUncertainty
    A, B, sA, sB = quantities(h, fun)
    a, b = h.var('a', -5.0, 5.0), h.var('b', -5.0, 5.0)
    if fun != 'A^a':
        h.eq('zero', U.uncertainty_propagation(fun, A, B, 0.0, 0.0, a, b)[1], 0.0, atol=1e-12)
    else:
        h.eq('zero', U.uncertainty_propagation(fun, A, B, 0.0, 0.0, a, b)[1], 0.0)
    one, two = U.uncertainty_propagation(fun, A, B, sA, sB, a, b)[1], U.uncertainty_propagation(fun, A, B, 2 * sA, 2 * sB, a, b)[1]
    h.eq('homogeneous', two * two, 4.0 * one * one)


@harness(cases=[dict(fun=f) for f in FUNS])
def arrays(h, fun):
    U = h.mod('uncertainty').AbsModUncertainty
    p, q = quantities(h, fun), quantities(h, fun, '_')
    a, b = h.var('a', -5.0, 5.0), h.var('b', -5.0, 5.0)
    F, sF = U.uncertainty_propagation(fun, *[h.array(list(v)) for v in zip(p, q)], a=a, b=b)
    for i, v in enumerate((p, q)):
        x, y = U.uncertainty_propagation(fun, *v, a=a, b=b)
        h.eq('value', F[i], x)
        h.eq('uncertainty', sF[i], y)


@harness(cases=[dict(fun=f) for f in ('', 'A+B', 'a*A', 'A**a', None)])
def unknown(h, fun):
    U = h.mod('uncertainty').AbsModUncertainty
    h.raises('refused', ValueError, U.uncertainty_propagation, fun, h.var('A', 1.0, 2.0), 1.0, 0.1, 0.1)


@harness(cases=[dict(fun=f) for f in FUNS])
def whole_numbers(h, fun):
    f = h.mod('uncertainty').AbsModUncertainty.uncertainty_propagation
    A, B, sA, sB = quantities(h, fun)
    a, b = h.var('a', 0.1, 5.0), h.var('b', 0.1, 5.0)
    same(h, 'quantities', lambda A, B: f(fun, A, B, sA, sB, a, b), 3, 2)
    same(h, 'arrays', lambda A, B: f(fun, A, B, sA, sB, a, b), [3, 5], [2, 7])
    same(h, 'uncertainties', lambda x, y: f(fun, A, B, x, y, a, b), 3, 2)
    same(h, 'coefficients', lambda x, y: f(fun, A, B, sA, sB, x, y), 3, 2)
    if fun == 'A^a':
        same(h, 'falling power', lambda A, x: f(fun, A, B, sA, sB, -1.0 * x, b), 3, 2)
