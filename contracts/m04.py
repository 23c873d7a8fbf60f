"""M04  City labels on maps."""
import numpy as np
from pyvc.core import Unsupported
from pyvc.harness import contract

M, G = 'impactutils.mapping.mercatormap', 'impactutils.mapping.city'
FN = [M + '.MercatorMap.' + n for n in ('__init__', 'drawCities', 'limitByMapCollision', 'getCityBoundingBoxes', 'getCityEdges', 'renderRow')]
COLS = ['name', 'lat', 'lon', 'pop', 'iscap']
W, E_, S, N = -121, -117, 32, 35            # the map
PAD = [0, 1, 0.25]


# ---- a table of given length, as pandas documents it --------------------------------
class Table:
    def __init__(self, rows):
        self.rows = [dict(r) for r in rows]

    columns = property(lambda s: list(s.rows[0]) if s.rows else list(COLS))
    index = property(lambda s: list(range(len(s.rows))))
    shape = property(lambda s: (len(s.rows), len(s.columns)))
    empty = property(lambda s: not s.rows)

    def copy(self, deep=True):
        return Table(self.rows)

    def __len__(self):
        return len(self.rows)

    def sort_values(self, by, ascending=True, **kw):
        if kw or by not in ('pop', ['pop']):
            raise Unsupported('sorting by something else')
        return Table(sorted(self.rows, key=lambda r: r['pop'], reverse=not ascending))

    def iterrows(self):
        return iter([(i, r) for i, r in enumerate(self.rows)])

    @property
    def iloc(self):
        t = self

        class I:
            def __getitem__(self, k):
                if isinstance(k, (int, np.integer)):
                    return t.rows[k]
                if isinstance(k, slice):
                    return Table(t.rows[k])
                k = list(k)
                if k and all(isinstance(x, (bool, np.bool_)) for x in k):
                    if len(k) != len(t.rows):
                        raise IndexError('mask of another length')
                    return Table([r for r, x in zip(t.rows, k) if x])
                if all(type(x) in (int, np.int64) for x in k):
                    return Table([t.rows[x] for x in k])
                raise Unsupported('row selection')
        return I()

    def __getitem__(self, k):
        if isinstance(k, str):
            return [r[k] for r in self.rows]
        return self.iloc[k]

    def __setitem__(self, k, v):
        v = list(v)
        if len(v) != len(self.rows):
            raise ValueError('column of another length')
        for r, x in zip(self.rows, v):
            r[k] = x

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith('__') else Unsupported('table method ' + n)


# ---- figures and axes ------------------------------------------------------------------
class Transform:
    def __init__(self, sx, bx, sy, by):
        self.k = sx, bx, sy, by

    def transform(self, p):
        sx, bx, sy, by = self.k
        return p[0] * sx + bx, p[1] * sy + by

    def inverted(self):
        sx, bx, sy, by = self.k
        return Transform(1 / sx, -bx / sx, 1 / sy, -by / sy)


class Box:
    def __init__(self, x0, y0, x1, y1):
        self.x0, self.y0, self.x1, self.y1 = x0, y0, x1, y1
        self.xmin, self.ymin, self.xmax, self.ymax = x0, y0, x1, y1
        self.extents = x0, y0, x1, y1
        self.bounds = x0, y0, x1 - x0, y1 - y0
        self.width, self.height = x1 - x0, y1 - y0

    def transformed(self, t):
        return Box(*t.transform((self.x0, self.y0)), *t.transform((self.x1, self.y1)))


class World:
    """axes whose place on the page depends on where they are put and on whether the aspect ratio has been applied; labels of any size"""
    def __init__(self, c, n, dims, free=False):
        self.c, self.dims = c, dims
        # any affine map of the axes onto the page, or maps that differ between places on the page
        self.k = (c.real('sx', 0.001, 1000), c.real('bx'), c.real('sy', 0.001, 1000), c.real('by')) if free else None
        self.figs = []
        self.pos = {}
        from fractions import Fraction as F
        self.frac = F
        order = c.choice('order of size', [[0, 1, 2, 3], [2, 0, 3, 1]]) if n > 1 else [0]
        self.city = []
        for i in range(n):
            # place of the city on the map plane, size of its label on the page (any)
            self.city.append(dict(name=f'city{i}', lat=33.0 + i / 8, lon=-120.0 + i / 8, pop=1000 + 100 * order[i], iscap=False))
        self.x = [c.real(f'x{i}') for i in range(n)]
        self.y = [c.real(f'y{i}') for i in range(n)]
        self.w = [c.real(f'w{i}', 0.01) for i in range(n)]
        self.h = [c.real(f'h{i}', 0.01) for i in range(n)]

    def install(self):
        c, w = self.c, self

        class Mercator:
            proj4_init = '+proj=merc'
            proj4_params = {}

            def __init__(self, **k):
                pass

        class Plate:
            pass

        class Crs:
            pass
        Crs.Mercator, Crs.PlateCarree = Mercator, Plate

        class Plt:
            @staticmethod
            def figure(figsize=None, **k):
                f = Fig(w, figsize)
                w.figs.append(f)
                return f

            @staticmethod
            def sca(ax):
                w.current = ax

            def __getattr__(self, n):
                raise Unsupported('pyplot.' + n)

        class Proj:
            def __init__(self, text):
                if text != Mercator.proj4_init:
                    raise Unsupported('another projection')

            def __call__(self, lon, lat):
                for i, r in enumerate(w.city):
                    if r['lon'] == lon and r['lat'] == lat:
                        return w.x[i], w.y[i]
                if (lon, lat) == (W, N):
                    return 0, 100
                if (lon, lat) == (E_, S):
                    return 120, 0
                raise Unsupported('projecting another place')

        class Pyproj:
            pass
        Pyproj.Proj = Proj

        class Fm:
            class fontManager:
                ttflist = []

        class Effects:
            Stroke = Normal = staticmethod(lambda *a, **k: None)
        for a, b in (('ccrs', Crs), ('plt', Plt()), ('pyproj', Pyproj), ('fm', Fm), ('path_effects', Effects)):
            c.stub(M, a, b)
        c.assumed('matplotlib and cartopy: axes show their extent through an affine map fixed by their place on the figure and the aspect ratio (applied by apply_aspect or by drawing); '
                  'a text occupies a box of fixed size beside its anchor; pyproj: one place of the map plane for every city')


class Fig:
    def __init__(self, w, size):
        self.w, self.size, self.axes_ = w, size, []
        fig = self

        class Canvas:
            @staticmethod
            def get_renderer():
                return 'renderer'

            @staticmethod
            def draw():
                for a in fig.axes_:
                    a.apply_aspect()
        self.canvas = Canvas

    def add_axes(self, rect, projection=None, **k):
        a = Axes(self.w, self, list(rect), projection)
        self.axes_.append(a)
        return a


class Axes:
    def __init__(self, w, fig, rect, projection):
        self.w, self.fig, self.rect, self.projection = w, fig, rect, projection
        self.figure = fig
        self.aspect = False
        self.texts, self.dots = [], []

    def set_extent(self, e, crs=None):
        ok = [W, E_, S, N] if type(crs).__name__ == 'Plate' else [0, 120, 0, 100]
        if list(e) != ok:
            raise Unsupported('another extent')

    def get_extent(self, crs=None):
        if crs is not None and crs is not self.projection:
            raise Unsupported('extent in another projection')
        return 0, 120, 0, 100

    def get_xlim(self):
        return 0, 120

    def get_ylim(self):
        return 0, 100

    def apply_aspect(self, position=None):
        self.aspect = True

    @property
    def transData(self):
        if self.w.k:
            return Transform(*self.w.k)
        F = self.w.frac
        x, y, a, b = self.rect
        # scales differ between places and before and after the aspect ratio is applied
        k = F(3, 2) if self.aspect else F(2)
        return Transform(5 * F(a), 10 + 7 * F(x), 5 * k * F(b), 20 + 7 * F(y))

    def text(self, x, y, s, ha='left', va='baseline', transform=None, horizontalalignment=None, verticalalignment=None, **k):
        ha, va = horizontalalignment or ha, verticalalignment or va
        if transform is not None and transform is not self.projection:
            raise Unsupported('text in other coordinates')
        t = Text(self, x, y, s, ha, va)
        self.texts.append(t)
        return t

    def plot(self, x, y, *a, transform=None, **k):
        self.dots.append((x, y, transform))

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith('__') else Unsupported('axes attribute ' + n)


class Text:
    def __init__(self, ax, x, y, s, ha, va):
        self.ax, self.x, self.y, self.s, self.ha, self.va = ax, x, y, s, ha, va

    def set_path_effects(self, e):
        pass

    def remove(self):
        self.ax.texts.remove(self)

    def get_text(self):
        return self.s

    def get_window_extent(self, renderer=None, dpi=None):
        w = self.ax.w
        i = [r['name'] for r in w.city].index(self.s)
        X, Y = self.ax.transData.transform((self.x, self.y))
        X = X - {'left': 0, 'center': w.w[i] / 2, 'right': w.w[i]}[self.ha]
        Y = Y - {'bottom': 0, 'baseline': 0, 'center': w.h[i] / 2, 'top': w.h[i]}[self.va]
        return Box(X, Y, X + w.w[i], Y + w.h[i])

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith('__') else Unsupported('text attribute ' + n)


def apart(c, a, b, strict=False):
    lt = (lambda x, y: x < y) if strict else (lambda x, y: x <= y)
    return c.or_(lt(a.x1, b.x0), lt(b.x1, a.x0), lt(a.y1, b.y0), lt(b.y1, a.y0))


@contract('M04', 'labels', FN, kind='bounded', bound='up to three cities (four in the thorough tier), anywhere, with labels of any size', budget=200)
def labels(c):
    """drawCities: what is drawn on the map, in its final place on the page"""
    if c.concrete:
        return rendered(c)
    n = c.size('cities', 1, 3, 4)
    dims = c.choice('place', [[0, 0, 1, 1], [0.125, 0.25, 0.75, 0.5]])
    pad = c.choice('padding', [0, 0.25])
    w = World(c, n, dims)
    w.install()
    Cities = c.fn(G, 'Cities')

    class Given(Cities):
        def limitByBounds(self, b):
            c.ensures('the cities of the map', tuple(b) == (W, E_, S, N))
            return self

        def limitByGrid(self, nx=2, ny=2, cities_per_grid=20):
            return self
    c.assumed('Cities.limitByBounds and limitByGrid are used through their contracts (M02)')
    cities = Given(Table(w.city))
    r0 = c.call(c.fn(M, 'MercatorMap'), (W, E_, S, N), (7, 5), cities, padding=pad, dimensions=dims)
    c.ensures('a map is made', r0.ok)
    if not r0.ok:
        return
    m = r0.value
    dots = c.choice('dots', [False, True]) if n == 1 else False
    r = c.call(m.drawCities, draw_dots=dots, shadow=c.choice('shadow', [False, True]) if n == 1 else False)
    c.ensures('no exception', r.ok)
    if not r.ok:
        return
    ax = m.axes
    m.figure.canvas.draw()
    drawn = [t.s for t in ax.texts]
    kept = [row['name'] for row in r.value._dataframe.rows]
    c.ensures('the cities returned are those drawn, once each', sorted(kept) == sorted(drawn) and len(set(drawn)) == len(drawn))
    x0, y0 = ax.transData.transform((0, 0))
    x1, y1 = ax.transData.transform((120, 100))
    sx, bx, sy, by = ax.transData.k

    def box(i, pad):
        """where the label of city i goes, 4 pixels right of it, with its padding"""
        X, Y = w.x[i] * sx + bx + 4, w.y[i] * sy + by
        dx, dy = w.w[i] * pad, w.h[i] * pad
        return Box(X - dx, Y - w.h[i] / 2 - dy, X + w.w[i] + dx, Y + w.h[i] / 2 + dy)
    for t in ax.texts:
        i = [r['name'] for r in w.city].index(t.s)
        a, b = t.get_window_extent(), box(i, 0)
        c.ensures('a label stands beside its city', c.and_(c.eq(a.x0, b.x0), c.eq(a.y0, b.y0), c.eq(a.x1, b.x1), c.eq(a.y1, b.y1)))
    on, sure = [], []
    for i in range(n):
        b = box(i, pad)
        on.append(c.and_(x0 <= b.x0, b.x1 <= x1, y0 <= b.y0, b.y1 <= y1))
    order = sorted(range(n), key=lambda i: -w.city[i]['pop'])
    for k, i in enumerate(order):
        larger = order[:k]
        if w.city[i]['name'] in drawn:
            c.ensures('labels drawn lie on the map', on[i])
            for j in larger:
                c.ensures('no label meets that of a larger city', c.or_(c.not_(on[j]), apart(c, box(i, pad), box(j, pad))))
        else:
            c.ensures('a city is left out only when its label leaves the map or meets that of a larger city',
                      c.or_(c.not_(on[i]), *[c.and_(on[j], c.not_(apart(c, box(i, pad), box(j, pad), True))) for j in larger]))
    if dots:
        c.ensures('a dot at every city drawn', sorted((x, y) for x, y, t in ax.dots) == sorted((r['lon'], r['lat']) for r in w.city if r['name'] in drawn) and
                  all(type(t).__name__ == 'Plate' for x, y, t in ax.dots))
    else:
        c.ensures('no dots', not ax.dots)


EDGES = [M + '.MercatorMap.' + n for n in ('getCityEdges', 'renderRow')]


@contract('M04', 'edges', EDGES, budget=60)
def edges(c):
    """the box of a label: any place, size, padding and scale"""
    if c.concrete:
        return one_label(c)
    w = World(c, 1, [0, 0, 1, 1], True)
    w.install()
    pad = c.real('padding', 0, 10)
    Cities = c.fn(G, 'Cities')

    class Given(Cities):
        def limitByBounds(self, b):
            return self
    r0 = c.call(c.fn(M, 'MercatorMap'), (W, E_, S, N), (7, 5), Given(Table(w.city)), padding=pad)
    c.ensures('a map is made', r0.ok)
    if not r0.ok:
        return
    m = r0.value
    shadow = c.choice('shadow', [False, True])
    r = c.call(m.getCityEdges, w.city[0], 'DejaVu Sans', 10.0, shadow, 10)
    c.ensures('no exception', r.ok)
    if not r.ok:
        return
    c.ensures('nothing is drawn on the map itself', not m.axes.texts)
    sx, bx, sy, by = w.k
    left, right, bottom, top = r.value
    ww, hh = w.w[0] / sx, w.h[0] / sy
    eq = lambda a, b: c.eq(a, b)
    c.ensures('left edge: 4 pixels from the city, less the padding', eq(left, w.x[0] + 4 / sx - pad * ww))
    c.ensures('right edge', eq(right, w.x[0] + 4 / sx + ww + pad * ww))
    c.ensures('bottom edge', eq(bottom, w.y[0] - hh / 2 - pad * hh))
    c.ensures('top edge', eq(top, w.y[0] + hh / 2 + pad * hh))
    for test in (True, False):
        before = len(m.axes.texts)
        r = c.call(m.renderRow, w.city[0], 'DejaVu Sans', 10.0, shadow, 10, test=test)
        c.ensures('no exception', r.ok)
        if not r.ok:
            return
        c.ensures('drawn on the map only when asked to', len(m.axes.texts) == before + (not test))
        t = r.value
        c.ensures('the name of the city', t.s == 'city0')
        c.ensures('4 pixels right of the city', c.and_(eq(t.x, w.x[0] + 4 / sx), eq(t.y, w.y[0]), t.ha == 'left', t.va == 'center'))


# ---- on the real thing -------------------------------------------------------------------
def draw(rng):
    n = rng.choice([1, 2, 5, 15, 30])
    w, h = rng.choice([(1, 1), (3, 1), (1, 3), (5, 4)])
    x0, y0 = rng.choice([rng.uniform(-175, 170), 178.5, -180.0]), rng.uniform(-60, 55)
    if x0 + w > 180:
        x0 = 180 - w
    pops = [rng.randrange(100, 100000) for i in range(n)]
    return dict(bounds=(x0, x0 + w, y0, y0 + h), lat=[rng.uniform(y0, y0 + h) for i in range(n)], lon=[rng.uniform(x0, x0 + w) for i in range(n)],
                name=['City%d' % i + 'x' * rng.randrange(8) for i in range(n)], pop=pops, dims=rng.choice([[0, 0, 1, 1], [.1, .1, .8, .8], [.05, .3, .9, .65]]),
                size=rng.choice([(7, 7), (5, 8), (8, 5)]), pad=rng.choice([0, .1, .25, .5]), dots=rng.random() < .5, shadow=rng.random() < .3, font=rng.choice([6, 10.0, 18]),
                before=rng.random() < .5)


def one_label(c):
    import warnings
    import pandas as pd
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pyproj
    d = c._get('map', lambda: draw(c.rng))
    df = pd.DataFrame(dict(name=d['name'], lat=d['lat'], lon=d['lon'], pop=d['pop'], iscap=[False] * len(d['pop'])))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            m = c.fn(M, 'MercatorMap')(d['bounds'], d['size'], c.fn(G, 'Cities')(df), padding=d['pad'], dimensions=d['dims'])
            r = c.call(m.getCityEdges, df.iloc[0], 'DejaVu Sans', d['font'], d['shadow'], 10)
            c.ensures('no exception', r.ok)
            if not r.ok:
                return
            left, right, bottom, top = r.value
            c.ensures('nothing is drawn on the map itself', not m.axes.texts)
            r = c.call(m.renderRow, df.iloc[0], 'DejaVu Sans', d['font'], d['shadow'], 10, test=False)
            c.ensures('no exception', r.ok)
            if not r.ok:
                return
            m.figure.canvas.draw()
            c.ensures('drawn on the map only when asked to', len(m.axes.texts) == 1)
            b = r.value.get_window_extent(m.figure.canvas.get_renderer())
            inv = m.axes.transData.inverted()
            (x0, y0), (x1, y1) = inv.transform((b.x0, b.y0)), inv.transform((b.x1, b.y1))
            px, py = (x1 - x0) / b.width, (y1 - y0) / b.height
            w, h = x1 - x0, y1 - y0
            near = lambda u, v, t: abs(u - v) <= 2 * t
            c.ensures('left edge: 4 pixels from the city, less the padding', near(left, x0 - d['pad'] * w, px))
            c.ensures('right edge', near(right, x1 + d['pad'] * w, px))
            c.ensures('bottom edge', near(bottom, y0 - d['pad'] * h, py))
            c.ensures('top edge', near(top, y1 + d['pad'] * h, py))
        finally:
            plt.close('all')


def rendered(c):
    d = c._get('map', lambda: draw(c.rng))
    import warnings
    import pandas as pd
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import pyproj
    df = pd.DataFrame(dict(name=d['name'], lat=d['lat'], lon=d['lon'], pop=d['pop'], iscap=[False] * len(d['pop'])))
    Cities = c.fn(G, 'Cities')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            r0 = c.call(c.fn(M, 'MercatorMap'), d['bounds'], d['size'], Cities(df), padding=d['pad'], dimensions=d['dims'])
            c.ensures('a map is made', r0.ok)
            if not r0.ok:
                return
            m = r0.value
            if d['before']:
                m.figure.canvas.draw()
            r = c.call(m.drawCities, draw_dots=d['dots'], shadow=d['shadow'], fontsize=d['font'])
            c.ensures('no exception', r.ok)
            if not r.ok:
                return
            m.figure.canvas.draw()
            ren = m.figure.canvas.get_renderer()
            ax = m.axes
            frame = ax.get_window_extent(ren)
            got = r.value._dataframe
            names = [t.get_text() for t in ax.texts]
            c.ensures('the cities returned are those drawn, once each', sorted(got['name']) == sorted(names) and len(set(names)) == len(names))
            box = {}
            for t in ax.texts:
                b = t.get_window_extent(ren)
                box[t.get_text()] = b
                i = d['name'].index(t.get_text())
                X, Y = ax.transData.transform(pyproj.Proj(ax.projection.proj4_init)(d['lon'][i], d['lat'][i]))
                c.ensures('a label stands beside its city', abs(b.x0 - X - 4) < 3 and b.y0 - 1 <= Y <= b.y1 + 1)
            grown = {k: (b.x0 - d['pad'] * b.width, b.x1 + d['pad'] * b.width, b.y0 - d['pad'] * b.height, b.y1 + d['pad'] * b.height) for k, b in box.items()}
            for k, (x0, x1, y0, y1) in grown.items():
                c.ensures('labels drawn lie on the map', x0 >= frame.x0 - 1 and x1 <= frame.x1 + 1 and y0 >= frame.y0 - 1 and y1 <= frame.y1 + 1)
                for l, q in grown.items():
                    if l < k:
                        c.ensures('no label meets that of a larger city', x0 >= q[1] - 1 or x1 <= q[0] + 1 or y0 >= q[3] - 1 or y1 <= q[2] + 1)
            dots = [tuple(float(z) for z in l.get_data()[0]) + tuple(float(z) for z in l.get_data()[1]) for l in ax.lines]
            if d['dots']:
                c.ensures('a dot at every city drawn', len(dots) == len(names))
            left = [i for i in range(len(d['name'])) if d['name'][i] not in names]
            if len(d['name']) <= 15:               # no cell of the grid is full
                off = 4
                proj = pyproj.Proj(ax.projection.proj4_init)
                full = {}
                for i, nm in enumerate(d['name']):
                    X, Y = ax.transData.inverted().transform(ax.transData.transform(proj(d['lon'][i], d['lat'][i])) + [off, 0])
                    t = ax.text(X, Y, nm, fontname='DejaVu Sans', fontsize=d['font'], ha='left', va='center', transform=ax.projection)
                    b = t.get_window_extent(ren)
                    full[i] = (b.x0 - d['pad'] * b.width, b.x1 + d['pad'] * b.width, b.y0 - d['pad'] * b.height, b.y1 + d['pad'] * b.height)
                # margins of a pixel around every decision
                on = {i: b[0] >= frame.x0 - 1 and b[1] <= frame.x1 + 1 and b[2] >= frame.y0 - 1 and b[3] <= frame.y1 + 1 for i, b in full.items()}
                safe = {i: b[0] >= frame.x0 + 1 and b[1] <= frame.x1 - 1 and b[2] >= frame.y0 + 1 and b[3] <= frame.y1 - 1 for i, b in full.items()}
                for i in left:
                    p = full[i]
                    meets = [j for j, q in full.items() if d['pop'][j] >= d['pop'][i] and j != i and on[j] and p[0] < q[1] + 1 and q[0] < p[1] + 1 and p[2] < q[3] + 1 and q[2] < p[3] + 1]
                    c.ensures('a city is left out only when its label leaves the map or meets that of a larger city', bool(meets) or not safe[i])
                for i in range(len(d['name'])):
                    if i not in left:
                        p = full[i]
                        meets = [j for j, q in full.items() if d['pop'][j] > d['pop'][i] and safe[j] and p[0] < q[1] - 1 and q[0] < p[1] - 1 and p[2] < q[3] - 1 and q[2] < p[3] - 1]
                        c.ensures('no label meets that of a larger city', not meets)
        finally:
            plt.close('all')
