import json
import os

import numpy as np


def plain(x):
    if isinstance(x, (np.ndarray, np.generic)):
        x = x.tolist()
    if isinstance(x, (list, tuple, range)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    return repr(x)


class Cmap:
    N = 256

    def __init__(self, name):
        self.name = name

    def __call__(self, x):
        return (float(x),) * 3 + (1.0,)


def get_cmap(name=None, lut=None):
    return name if isinstance(name, Cmap) else Cmap(name)


class Recorder:
    def __init__(self, calls):
        self._calls = calls

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kwargs):
            self._calls.append({"call": name, "args": plain(args), "kwargs": plain(kwargs)})
            return None

        return call


class Axes(Recorder):
    def scatter(self, x, y, s=None, c=None, marker=None, cmap=None, norm=None, **kwargs):
        out = {"call": "scatter", "x": plain(x), "y": plain(y), "c": plain(c)}
        if len(out["x"]) != len(out["y"]) or len(out["x"]) != len(out["c"]):
            raise ValueError("x, y and c must be the same size")
        if norm is not None:
            norm.autoscale_None(np.asarray(c))
            out["norm"] = {k: plain(getattr(norm, k, None)) for k in ("vmin", "vmax", "vcenter", "boundaries")}
            out["colors"] = plain(norm(np.asarray(c)))
        self._calls.append(out)
        return out

    def hist(self, x, bins=None, **kwargs):
        n, edges = np.histogram(np.asarray(x), bins=10 if bins is None else bins)
        self._calls.append({"call": "hist", "x": plain(x), "bins": len(n)})
        return n, edges, []

    def boxplot(self, x, positions=None, whis=None, **kwargs):
        self._calls.append({"call": "boxplot", "x": plain(x), "positions": plain(positions), "whis": plain(whis)})
        return {}

    def plot(self, *args, **kwargs):
        if len(args) > 1 and np.size(args[0]) != np.size(args[1]):
            raise ValueError("x and y must have same first dimension")
        self._calls.append({"call": "plot", "args": plain(args), "kwargs": plain(kwargs)})
        return []


class Figure(Recorder):
    def gca(self):
        return Axes(self._calls)

    def add_subplot(self, *args, **kwargs):
        return self.gca()

    def subplots(self, *args, **kwargs):
        return self.gca()

    def savefig(self, path, *args, **kwargs):
        with open(path, "w"):
            pass
        with open(os.environ["VMON_PLOT_LOG"], "a") as f:
            f.write(json.dumps({"path": os.path.realpath(path), "calls": self._calls}) + "\n")


class Style:
    def use(self, name):
        self.name = name


style = Style()
_open = []


def figure(*args, **kwargs):
    calls = []
    fig = Figure(calls)
    _open.append((fig, fig.gca()))
    return fig


def subplots(*args, **kwargs):
    figure()
    return _open[-1]


def gca():
    if not _open:
        figure()
    return _open[-1][1]


def gcf():
    gca()
    return _open[-1][0]


def savefig(path, *args, **kwargs):
    gcf().savefig(path)


def close(fig=None):
    if fig == "all":
        _open.clear()
    elif _open:
        _open[:] = [x for x in _open if x[0] is not fig] if isinstance(fig, Figure) else _open[:-1]


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return getattr(gca(), name)
