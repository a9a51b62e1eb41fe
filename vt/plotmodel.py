"""A matplotlib that writes down what is drawn, and what the plots of an aerosol run must show.

Used symbolically and, for replay, with plain numbers in the project's own interpreter.  Nothing here imports z3."""
import types


class Thing:
    """any part of matplotlib that does not matter; colours of a sequence are as many as its members"""
    n = None

    def __call__(self, *a, **k):
        t = Thing()
        if a and hasattr(a[0], '__len__') and not isinstance(a[0], (str, dict)):
            t.n = len(a[0])
        return t

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Thing()

    def __iter__(self): return iter([Thing() for _ in range(2 if self.n is None else self.n)])

    def __getitem__(self, i):
        if self.n is not None and isinstance(i, int) and not -self.n <= i < self.n:
            raise IndexError('index %d is out of bounds with size %d' % (i, self.n))
        return Thing()

    def __setitem__(self, i, v): pass
    def __len__(self): return 1000 if self.n is None else self.n


class Figure:
    def __init__(self):
        self.bars, self.lines, self.labels, self.title = [], [], [], None


def seq(x):
    if x is None:
        return None
    if hasattr(x, 'ravel'):
        return list(x.ravel())
    return list(x) if isinstance(x, (list, tuple, range)) else x


class Axes(Thing):
    """pyplot itself, a figure and its axes: all draw on the current figure"""

    def __init__(self, rec):
        self.rec = rec

    def bar(self, x, height, width=0.8, bottom=None, **k):
        self.rec.cur().bars.append((seq(x), seq(height), seq(bottom)))
        return Thing()

    def plot(self, *a, **k):
        a = [v for v in a if not isinstance(v, str)]
        self.rec.cur().lines.append([seq(v) for v in a])
        self.rec.cur().labels.append(k.get('label'))
        return [Thing()]
    scatter = plot

    def legend(self, *a, **k):
        names = k.get('labels', a[-1] if a else None)
        if isinstance(names, (list, tuple)):
            for i, n in enumerate(names):
                if isinstance(n, str) and i < len(self.rec.cur().labels):
                    self.rec.cur().labels[i] = n
        return Thing()

    def title(self, s, *a, **k):
        self.rec.cur().title = s
        return Thing()
    set_title = title

    def suptitle(self, s, *a, **k):
        return self.title(s)

    def figure(self, *a, **k):
        self.rec.new()
        return self

    def subplots(self, *a, **k):
        self.rec.new()
        return self, self

    def gca(self, *a, **k): return self
    def gcf(self, *a, **k): return self
    def add_subplot(self, *a, **k): return self

    def show(self, *a, **k):
        self.rec.shown()

    def close(self, *a, **k):
        self.rec.closed()
    clf = close


class Recorder:
    def __init__(self):
        self.figures, self.now, self.out = [], None, False

    def cur(self):
        if self.now is None:
            self.new()
        return self.now

    def new(self):
        self.now, self.out = Figure(), False

    def shown(self):
        if self.now is not None and not self.out:
            self.figures.append(self.now)
            self.out = True

    def closed(self):
        self.now, self.out = None, False

    def pyplot(self):
        return {k: m for k, m in self.modules().items() if k.startswith('matplotlib')}

    def modules(self):
        ax = Axes(self)
        p = types.ModuleType('matplotlib.pyplot')
        p.__getattr__ = lambda n: getattr(ax, n)
        m = types.ModuleType('matplotlib')
        m.pyplot = p
        m.use = lambda *a, **k: None
        m.__getattr__ = lambda n: Thing()
        s = types.ModuleType('scipy.stats')
        s.__getattr__ = lambda n: Thing()
        sc = types.ModuleType('scipy')
        sc.stats = s
        return {'matplotlib': m, 'matplotlib.pyplot': p, 'scipy': sc, 'scipy.stats': s}


def rows(y):
    return [list(r) for r in y]


def gas_claims(cfg, figures, batches, elapsed, log10):
    """the curves of a gas-phase run: the logarithm of the state at the end of every batch"""
    figures = [f for f in figures if f.lines]
    if not figures:
        yield ('the run shows its results', not cfg.get('must_draw'))
        return
    yield ('one plot of the gas phase', len(figures) == 1)
    f = figures[0]
    for s, i in cfg['s2a'].items():
        if s in ('APINENE', 'PINONIC'):
            yield ('one curve of %s' % s, not cfg.get('must_draw') or f.labels.count(s) == 1)
    for line, s in zip(f.lines, f.labels):
        if s not in cfg['s2a']:
            continue
        ok = len(line) == 2 and len(line[0]) == len(batches) and len(line[1]) == len(batches)
        yield ('the curve of %s has one point per batch' % s, ok)
        if not ok:
            return
        for k, b in enumerate(batches):
            yield ('time of point %d of the curve of %s' % (k, s), line[0][k], elapsed(k + 1))
            yield ('point %d of the curve of %s' % (k, s), line[1][k], log10(b['yend'][cfg['s2a'][s]]))


def claims(variant, cfg, figures, t, y, soa, value):
    """value(text): the number printed last in a title, or None"""
    t, y = seq(t), rows(y)
    if variant == 'aerosol':
        yield ('the mass plot is drawn once', len(figures) == 1 and len(figures[0].lines) == 1 and len(figures[0].lines[0]) == 2)
        if len(figures) != 1 or len(figures[0].lines) != 1 or len(figures[0].lines[0]) != 2:
            return
        x, m = figures[0].lines[0]
        soa = [v[0] for v in rows(soa)]
        yield ('the mass plot has one point per saved time', len(x) == len(t) and len(m) == len(t))
        if len(x) != len(t) or len(m) != len(t):
            return
        for k in range(len(t)):
            yield ('time of point %d of the mass plot' % k, x[k], t[k])
            yield ('organic mass of point %d of the mass plot' % k, m[k], soa[k])
        return
    nc, nb, ns = cfg['nc'], cfg['nb'], cfg['ns']
    mw, NA = cfg['inp']['y_mw'], cfg['inp']['NA']
    figs = [f for f in figures if f.bars]
    yield ('one composition plot per saved time (%d for %d)' % (len(figs), len(t)), len(figs) == len(t))
    if len(figs) != len(t):
        return
    for k, f in enumerate(figs):
        mass = []
        for b in range(nb):
            mass.append([])
            for i in range(nc - 1):
                m = y[k][ns + b * nc + i] / NA * mw[i] * 1.0e12
                if m < 0.0:
                    m = 0.0
                mass[b].append(m)
        tot = [sum(r[1:], r[0]) for r in mass]
        yield ('plot %d has one bar per organic compound and bin' % k, len(f.bars) == nc - 1 and all(len(h) == nb and list(x) == list(range(nb)) for x, h, _ in f.bars))
        if len(f.bars) != nc - 1 or not all(len(h) == nb for _, h, _ in f.bars):
            return
        for b in range(nb):
            if tot[b] == 0.0:
                continue
            base = 0.0
            for i, (_, h, low) in enumerate(f.bars):
                yield ('plot %d: share of compound %d in bin %d' % (k, i, b), h[b], mass[b][i] / tot[b])
                lo = 0.0 if low is None else low[b] if isinstance(low, list) else low
                yield ('plot %d: foot of the bar of compound %d in bin %d' % (k, i, b), lo, base / tot[b])
                base = base + mass[b][i]
        v = value(f.title)
        yield ('plot %d states a mass in its title' % k, v is not None)
        if v is not None:
            s = sum(tot[1:], tot[0])
            yield ('mass stated in plot %d is not above the organic mass' % k, '<=', v, s + 0.0051)
            yield ('mass stated in plot %d is not below the organic mass' % k, '<=', s, v + 0.0051)
