"""Reference formulas of Recommendation ITU-R P.835-6, written independently of the package."""
from symx import fn


def geopotential(h):
    return 6356.766 * h / (6356.766 + h)


def std_t(h):
    g = geopotential(h)
    if h > 100:
        return 195.08134
    if h > 91:
        return 263.1905 - 76.3232 * fn.sqrt(1 - ((h - 91) / 19.9429) ** 2)
    if h >= 86:
        return 186.8673
    if g <= 11:
        return 288.15 - 6.5 * g
    if g <= 20:
        return 216.65
    if g <= 32:
        return 216.65 + (g - 20)
    if g <= 47:
        return 228.65 + 2.8 * (g - 32)
    if g <= 51:
        return 270.65
    if g <= 71:
        return 270.65 - 2.8 * (g - 51)
    return 214.65 - 2.0 * (g - 71)


def std_p(h):
    g = geopotential(h)
    if h > 100:
        return 1e-62
    if h >= 86:
        return fn.exp(95.571899 - 4.011801 * h + 6.424731e-2 * h ** 2 - 4.789660e-4 * h ** 3 + 1.340543e-6 * h ** 4)
    if g <= 11:
        return 1013.25 * (288.15 / (288.15 - 6.5 * g)) ** (-34.1632 / 6.5)
    if g <= 20:
        return 226.3226 * fn.exp(-34.1632 * (g - 11) / 216.65)
    if g <= 32:
        return 54.74980 * (216.65 / (216.65 + (g - 20))) ** 34.1632
    if g <= 47:
        return 8.680422 * (228.65 / (228.65 + 2.8 * (g - 32))) ** (34.1632 / 2.8)
    if g <= 51:
        return 1.109106 * fn.exp(-34.1632 * (g - 47) / 270.65)
    if g <= 71:
        return 0.6694167 * (270.65 / (270.65 - 2.8 * (g - 51))) ** (-34.1632 / 2.8)
    return 0.03956649 * (214.65 / (214.65 - 2.0 * (g - 71))) ** (-34.1632 / 2.0)


def std_rho(h, h0=2, rho0=7.5):
    return rho0 * fn.exp(-h / h0)


def poly(c, h):
    r = 0.0
    for i, a in enumerate(c):
        r = r + a * h ** i
    return r


# band, season -> list of (upper height, inclusive, formula); None is the value beyond the last layer
T = {
    'low': [(17, lambda h: poly((300.4222, -6.3533, 0.005886), h)), (47, lambda h: 194 + (h - 17) * 2.533), (52, lambda h: 270.0),
            (80, lambda h: 270 - (h - 52) * 3.0714), (100, lambda h: 184.0)],
    'mid summer': [(13, lambda h: poly((294.9838, -5.2159, -0.07109), h)), (17, lambda h: 215.15), (47, lambda h: 215.15 * fn.exp((h - 17) * 0.008128)),
                   (53, lambda h: 275.0), (80, lambda h: 275 + 20 * (1 - fn.exp((h - 53) * 0.06))), (100, lambda h: 175.0)],
    'mid winter': [(10, lambda h: poly((272.7241, -3.6217, -0.1759), h)), (33, lambda h: 218.0), (47, lambda h: 218 + (h - 33) * 3.3571),
                   (53, lambda h: 265.0), (80, lambda h: 265 - (h - 53) * 2.0370), (100, lambda h: 210.0)],
    'high summer': [(10, lambda h: poly((286.8374, -4.7805, -0.1402), h)), (23, lambda h: 225.0), (48, lambda h: 225 * fn.exp((h - 23) * 0.008317)),
                    (53, lambda h: 277.0), (79, lambda h: 277 - (h - 53) * 4.0769), (100, lambda h: 171.0)],
    'high winter': [(8.5, lambda h: poly((257.4345, 2.3474, -1.5479, 0.08473), h)), (30, lambda h: 217.5), (50, lambda h: 217.5 + (h - 30) * 2.125),
                    (54, lambda h: 260.0), (100, lambda h: 260 - (h - 54) * 1.667)],
}
# polynomial below 10 km and the two scale factors above
PR = {'low': ((1012.0306, -109.0338, 3.6316), 0.147, 0.165), 'mid summer': ((1012.8186, -111.5569, 3.8646), 0.147, 0.165),
      'mid winter': ((1018.8627, -124.2954, 4.8307), 0.147, 0.155), 'high summer': ((1008.0278, -113.2494, 3.9408), 0.140, 0.165),
      'high winter': ((1010.8828, -122.2411, 4.554), 0.147, 0.150)}
# factor, exponent polynomial, top of the vapour
V = {'low': (19.6542, (0, -0.2313, -0.1122, 0.01351, -0.0005923), 15), 'mid summer': (14.3542, (0, -0.4174, -0.02290, 0.001007), 15),
     'mid winter': (3.4742, (0, -0.2697, -0.03604, 0.0004489), 10), 'high summer': (8.988, (0, -0.3614, -0.005402, -0.001955), 15),
     'high winter': (1.2319, (0, 0.07481, -0.0981, 0.00281), 10)}


def key(lat, season):
    a = abs(lat)
    if a < 22:
        return 'low'
    return ('mid ' if a < 45 else 'high ') + season


def temperature(k, h):
    for top, f in T[k]:
        if (h <= top) if top == 100 else (h < top):
            return f(h)
    raise ValueError(h)


def pressure(k, h):
    c, a, b = PR[k]
    if h <= 10:
        return poly(c, h)
    p10 = poly(c, 10)
    if h <= 72:
        return p10 * fn.exp(-a * (h - 10))
    return p10 * fn.exp(-a * 62) * fn.exp(-b * (h - 72))


def density(k, h):
    f, c, top = V[k]
    if h <= top:
        return f * fn.exp(poly(c, h))
    return 0.0
