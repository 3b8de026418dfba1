"""Scalar functions usable in harness references in both symbolic and concrete mode."""
import math
import numpy as np
from . import sym
from .shim import UNARY, BINARY


def _u(name):
    f = UNARY[name]

    def g(x):
        if isinstance(x, np.ndarray):
            x = x.item()
        return f(x)
    return g


exp, log, log10, sqrt = _u('exp'), _u('log'), _u('log10'), _u('sqrt')
sin, cos, tan, arcsin, arccos, arctan = (_u(k) for k in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan'))
pi = math.pi


def maximum(a, b):
    return BINARY['maximum'](a, b)


def minimum(a, b):
    return BINARY['minimum'](a, b)


def power(a, b):
    return a ** b


def cplx(re, im):
    if isinstance(re, sym.Sym) or isinstance(im, sym.Sym):
        return sym.SymC(re, im)
    return complex(re, im)


def csqrt(z):
    return z.sqrt() if isinstance(z, sym.SymC) else complex(np.sqrt(complex(z)))


def clog(z):
    return z.log() if isinstance(z, sym.SymC) else complex(np.log(complex(z)))


def cexp(z):
    return z.exp() if isinstance(z, sym.SymC) else complex(np.exp(complex(z)))


def conj(z):
    return z.conjugate()


def re(z):
    return z.real


def im(z):
    return z.imag
