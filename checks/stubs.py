"""Stand-ins for the gas absorption models."""


def stub(h, am, log, scale=1.0):
    def h2o(self, pdrykpa, vx, ekpa, frq, amu=None):
        log.append(('h2o', amu))
        return (1.1 * pdrykpa + 2.3 * vx + 3.7 * ekpa + 0.13 * frq) * scale, (0.5 * pdrykpa + 0.2 * vx + 7.1 * ekpa + 0.03 * frq) * scale

    def o2(self, pdrykpa, vx, ekpa, frq, amu=None):
        log.append(('o2', amu))
        return (4.1 * pdrykpa + 0.3 * vx + 1.7 * ekpa + 0.17 * frq) * scale, (2.5 * pdrykpa + 5.2 * vx + 0.1 * ekpa + 0.01 * frq) * scale

    def n2(t, p, f):
        return (0.01 * t + 0.7 * p + 0.29 * f) * scale

    def o3(self, t, p, f, o3n, amu=None):
        log.append(('o3', amu))
        return (0.02 * t + 0.11 * p + 0.31 * f + 0.9 * o3n) * scale

    h.patch(am.H2OAbsModel, 'h2o_absorption', h2o)
    h.patch(am.O2AbsModel, 'o2_absorption', o2)
    h.patch(am.N2AbsModel, 'n2_absorption', staticmethod(n2))
    h.patch(am.O3AbsModel, 'o3_absorption', o3)
    return h2o, o2, n2, o3
