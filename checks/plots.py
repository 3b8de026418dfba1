"""A stand-in for matplotlib.pyplot that keeps the curves it is given."""


def line(x):
    return x if hasattr(x, '__len__') and getattr(x, 'shape', True) != () else [x]


class Recorder:
    def __init__(self, twin=False):
        self.curves, self.texts, self.figures = [], [], 0
        self.limits, self.labels, self.titles = {}, [], []
        self.rcParams = {}
        self.twin = None if twin else Recorder(True)

    def plot(self, x, y, **k):
        self.curves.append((line(x), line(y), k))

    def text(self, x, y, s, **k):
        self.texts.append((x, y, s))

    def legend(self, *a, **k):
        if k.get('labels') is not None or a:
            self.labels.append(list(k.get('labels', a[-1] if a else None)))

    def title(self, t, **k):
        self.titles.append(t)

    set_title = suptitle = title

    def figure(self, *a, **k):
        self.figures += 1
        return self

    def subplots(self, *a, **k):
        self.figures += 1
        return self, self

    def gca(self):
        return self

    def gcf(self):
        return self

    def add_subplot(self, *a, **k):
        return self

    def twinx(self, *a):
        return self.twin

    def limit(self, axis, lo=None, hi=None, **k):
        lo, hi = k.get('bottom', k.get('left', lo)), k.get('top', k.get('right', hi))
        if hi is None and hasattr(lo, '__len__'):
            lo, hi = lo
        self.limits[axis] = [x[0] if getattr(x, 'shape', ()) == (1,) else x for x in (lo, hi)]

    def ylim(self, *a, **k):
        self.limit('y', *a, **k)

    def xlim(self, *a, **k):
        self.limit('x', *a, **k)

    set_ylim, set_xlim = ylim, xlim

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None
