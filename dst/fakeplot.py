"""pylab and matplotlib.mlab stand-ins: figures that record what they are asked to draw, a real rk4"""
import sys
import types

import numpy as np


class Artist(object):
    def __init__(self, *a, **k):
        self.props = dict(k)

    def __getattr__(self, name):
        if name.startswith('set_'):
            key = name[4:]

            def setter(*a):
                board.touch()
                self.props[key] = a[0] if len(a) == 1 else a
            return setter
        raise AttributeError(name)


class Line2D(Artist):
    def __init__(self, x, y, **k):
        Artist.__init__(self, **k)
        self.props['data'] = (x, y)

    def set_data(self, x, y):
        board.touch()
        self.props['data'] = (x, y)

    def set_xdata(self, x):
        board.touch()
        self.props['data'] = (x, self.props['data'][1])

    def set_ydata(self, y):
        board.touch()
        self.props['data'] = (self.props['data'][0], y)


class Rectangle(Artist):
    def __init__(self, xy, width, height, **k):
        Artist.__init__(self, **k)
        self.props['xy'] = xy
        self.props['x'] = xy[0]

    def set_xy(self, xy):
        self.props['xy'] = xy
        self.props['x'] = xy[0]


class Axes(object):
    bbox = None

    def __init__(self, fig):
        self.fig = fig

    def add_artist(self, a):
        self.fig.artists.append(a)

    def set_xlim(self, *a):
        pass

    def set_ylim(self, *a):
        pass


class Figure(object):
    def __init__(self, number):
        self.number = number
        self.artists = []
        self.canvas = self

    def add_subplot(self, *a, **k):
        return Axes(self)

    def draw(self):
        draw()

    draw_idle = draw
    flush_events = lambda self: None


class Board(object):
    """all figures, and a hook for each drawing"""
    def __init__(self):
        self.clear()

    def clear(self):
        self.figures = {}
        self.current = None
        self.on_draw = None
        self.on_touch = None

    def touch(self):
        if self.on_touch is not None:
            self.on_touch()


board = Board()


def figure(number=None, *a, **k):
    if number is None:
        number = 1 + max(board.figures or [0])
    board.current = board.figures.setdefault(number, Figure(number))
    return board.current


def draw():
    if board.on_draw is not None:
        board.on_draw(board.current)


def rk4(derivs, y0, t):
    """the classic Runge-Kutta integrator, as matplotlib had it"""
    y0 = np.asarray(y0)
    yout = np.zeros((len(t), len(y0)), float)
    yout[0] = y0
    for i in range(len(t) - 1):
        dt = t[i + 1] - t[i]
        y = yout[i]

        def k(y, tt):
            return np.array([float(np.ravel(v)[0]) for v in derivs(y, tt)])
        k1 = k(y, t[i])
        k2 = k(y + dt / 2.0 * k1, t[i] + dt / 2.0)
        k3 = k(y + dt / 2.0 * k2, t[i] + dt / 2.0)
        k4 = k(y + dt * k3, t[i] + dt)
        yout[i + 1] = y + dt / 6.0 * (k1 + 2 * k2 + 2 * k3 + k4)
    return yout


def _install():
    p = types.ModuleType('pylab')
    p._fake = True
    p.figure = figure
    p.draw = draw
    p.Line2D = Line2D
    p.Rectangle = Rectangle
    p.arange = np.arange
    p.ion = p.ioff = lambda *a: None
    p.plot = lambda *a, **k: []
    p.show = p.clf = p.legend = p.title = lambda *a, **k: None

    def anything(name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: None
    p.__getattr__ = anything
    sys.modules['pylab'] = p
    m = types.ModuleType('matplotlib')
    m.__path__ = []
    m._fake = True
    mlab = types.ModuleType('matplotlib.mlab')
    mlab.rk4 = rk4
    m.mlab = mlab
    sys.modules['matplotlib'] = m
    sys.modules['matplotlib.mlab'] = mlab
    lines = types.ModuleType('matplotlib.lines')
    lines.Line2D = Line2D
    m.lines = lines
    sys.modules['matplotlib.lines'] = lines
    pp = types.ModuleType('matplotlib.pyplot')
    for n in ('figure', 'draw', 'ion', 'plot', 'show'):
        setattr(pp, n, getattr(p, n))
    m.pyplot = pp
    sys.modules['matplotlib.pyplot'] = pp


def install():
    if not getattr(sys.modules.get('pylab'), '_fake', False):
        _install()
