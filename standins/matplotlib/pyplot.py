"""Stand-in for matplotlib.pyplot: figures are lists of axes, axes are lists of series."""
from . import rcParams  # noqa: F401

saved = []  # (file name, [axes])
_figure = None


class Series:
    def __init__(self, kind, x, y, **more):
        self.kind = kind
        self.x = list(x)
        self.y = list(y)
        self.label = more.pop("label", None)
        self.color = more.pop("color", None) or more.pop("c", None)
        self.more = more


class _Anything:
    """accepts every setting that does not change the data"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Anything()

    def __call__(self, *a, **k):
        return _Anything()


class Axes(_Anything):
    def __init__(self):
        self.series = []
        self.texts = {}

    def plot(self, x, y, fmt=None, **k):
        self.series.append(Series("plot", x, y, fmt=fmt, **k))
        return [_Anything()]

    def scatter(self, x, y, s=None, c=None, **k):
        self.series.append(Series("scatter", x, y, s=s, c=c, **k))
        return _Anything()

    def errorbar(self, x, y, yerr=None, **k):
        self.series.append(Series("errorbar", x, y, yerr=yerr, **k))
        return _Anything()

    def set_title(self, text, **k):
        self.texts["title"] = text

    def set_xlabel(self, text, **k):
        self.texts["xlabel"] = text

    def set_ylabel(self, text, **k):
        self.texts["ylabel"] = text

    def set_ylim(self, *a, **k):
        self.texts["ylim"] = (a, k)

    def legend(self, *a, **k):
        return _Anything()


class Figure(_Anything):
    def __init__(self):
        self.axes = []

    def savefig(self, name, **k):
        saved.append((str(name), list(self.axes)))

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]


def figure(*a, **k):
    global _figure
    _figure = Figure()
    return _figure


def subplots(nrows=1, ncols=1, **k):
    fig = figure()
    fig.axes = [Axes() for _ in range(nrows * ncols)]
    return fig, fig.axes[0] if nrows * ncols == 1 else list(fig.axes)


def gcf():
    return _figure or figure()


def gca():
    f = gcf()
    if not f.axes:
        f.axes.append(Axes())
    return f.axes[-1]


def plot(*a, **k):
    return gca().plot(*a, **k)


def scatter(*a, **k):
    return gca().scatter(*a, **k)


def errorbar(*a, **k):
    return gca().errorbar(*a, **k)


def title(text, **k):
    gca().set_title(text)


def xlabel(text, **k):
    gca().set_xlabel(text)


def ylabel(text, **k):
    gca().set_ylabel(text)


def ylim(*a, **k):
    gca().set_ylim(*a, **k)


def savefig(name, **k):
    gcf().savefig(name)


def clf():
    gcf().axes = []


def close(*a, **k):
    global _figure
    _figure = None


def cla():
    gca().series.clear()


def _ignored(*a, **k):
    return _Anything()


xscale = yscale = xlim = legend = subplots_adjust = tight_layout = grid = xticks = yticks = text = show = _ignored
