"""M03  Scale bars."""
import numpy as np
from pyvc.harness import contract
from pyvc.core import Unsupported
from pyvc.sym import has_sym

M = 'impactutils.mapping.scalebar'
FN = [M + '.draw_scale']
# metres in one unit (PROJ)
METRES = {'km': 1000, 'm': 1, 'dm': 0.1, 'cm': 0.01, 'mm': 0.001, 'kmi': 1852, 'in': 0.0254, 'ft': 0.3048, 'yd': 0.9144, 'mi': 1609.344, 'fath': 1.8288, 'ch': 20.1168,
          'link': 0.201168, 'us-in': 100 / 3937, 'us-ft': 1200 / 3937, 'us-yd': 3600 / 3937, 'us-ch': 79200 / 3937, 'us-mi': 6336000 / 3937, 'ind-yd': 0.91439523,
          'ind-ft': 0.30479841, 'ind-ch': 20.11669506}
# the documented choice of lengths and the number of parts of each
PARTS = {4: 4, 10: 2, 12: 4, 15: 3, 20: 4, 30: 3, 40: 4, 75: 3, 100: 4, 120: 4, 150: 3, 200: 4, 240: 6, 300: 6, 400: 4, 600: 6, 750: 3, 1000: 4, 2000: 4, 4000: 4, 6000: 6,
         10000: 4, 20000: 4, 40000: 4, 60000: 6, 75000: 3, 100000: 4, 200000: 4}


class Map:
    """axes placed in a figure: affine maps between axes, display, figure and data coordinates; what is drawn is recorded"""
    def __init__(self, c, units):
        self.c = c
        self.x0, self.w = c.real('xmin', -1e7, 1e7), c.real('map width', 1, 4e7)
        self.y0, self.h = c.real('ymin', -80, 80), c.real('map height', 1e-3, 9)
        self.fw, self.fh = c.real('figure width', 1, 40), c.real('figure height', 1, 40)
        self.al, self.ab = c.real('axes left', 0, 0.5), c.real('axes bottom', 0, 0.5)
        self.aw, self.ah = c.real('axes width', 0.1, 1), c.real('axes height', 0.1, 1)
        self.dpi = 72
        self.units = units
        self.texts, self.lines, self.fills = [], [], []

    def axes(self):
        c, m = self.c, self
        GeoAxes = c.fn(M, 'GeoAxes')

        class T:
            def __init__(self, f, g):
                self.f, self.g = f, g

            def transform(self, p):
                return self.f(p)

            def inverted(self):
                return T(self.g, self.f)

        def fig2disp(p):
            return p[0] * m.fw * m.dpi, p[1] * m.fh * m.dpi

        def disp2fig(p):
            return p[0] / (m.fw * m.dpi), p[1] / (m.fh * m.dpi)

        def ax2disp(p):
            return fig2disp((m.al + p[0] * m.aw, m.ab + p[1] * m.ah))

        def disp2ax(p):
            q = disp2fig(p)
            return (q[0] - m.al) / m.aw, (q[1] - m.ab) / m.ah

        def data2disp(p):
            return ax2disp(((p[0] - m.x0) / m.w, (p[1] - m.y0) / m.h))

        def disp2data(p):
            q = disp2ax(p)
            return m.x0 + q[0] * m.w, m.y0 + q[1] * m.h

        class Fig:
            transFigure = T(fig2disp, disp2fig)

            @staticmethod
            def get_size_inches():
                return m.fw, m.fh

        class Projection:
            proj4_params = {} if m.units is None else {'units': m.units}
        plate = c.fn('cartopy.crs', 'PlateCarree')

        class Plate(plate):
            def __init__(self):
                pass

        class Axes(GeoAxes):
            figure = Fig
            transAxes = T(ax2disp, disp2ax)
            transData = T(data2disp, disp2data)
            projection = Plate() if m.units == 'degrees' else Projection()

            def __init__(self):
                pass

            def get_xlim(self):
                return m.x0, m.x0 + m.w

            def get_ylim(self):
                return m.y0, m.y0 + m.h

            def text(self, x, y, s, **k):
                m.texts.append((x, y, s, k))

            def plot(self, x, y, *a, **k):
                m.lines.append((list(x), list(y)))

            def fill(self, x, y, color=None, **k):
                m.fills.append((list(x), list(y), color))

            def __hash__(self):
                return id(self)

            if not c.concrete:
                def __getattr__(self, n):
                    if n.startswith('__'):
                        raise AttributeError(n)
                    raise Unsupported('axes attribute ' + n)
        return Axes()

    def metres(self):
        """metres in one unit of the map, at its middle"""
        c = self.c
        if self.units == 'degrees':
            return 111191.0 * c.cos((self.y0 + self.h / 2) * (c.pi / 180))
        return METRES[self.units or 'm']


def span(c, v):
    return c.min(*v), c.max(*v)


def drawn(c, m, length, parts, units, brief=False):
    """everything drawn says the bar is `length` units long, in `parts` equal parts; -> left, right, bottom, top of the bar"""
    eq = lambda a, b: c.eq(a, b, rtol=1e-9, atol=1e-9 * (abs(b) if c.concrete else 1))
    want = length * METRES[units] / m.metres()
    near = lambda a, b, s: c.close(a, b, 1e-7 * abs(s) if c.concrete else 1e-9 * want)
    c.ensures('one box for every part', len(m.fills) == parts)
    if len(m.fills) != parts:
        return None
    boxes = [span(c, x) for x, y, k in m.fills]
    ys = [span(c, y) for x, y, k in m.fills]
    left, right = boxes[0][0], boxes[-1][1]
    scale = abs(left) + abs(right) + m.w if c.concrete else 1
    c.ensures('the bar is as long as it says', near(right - left, want, scale))
    if brief:
        return left, right, ys[0][0], ys[0][1]
    for i, (a, b) in enumerate(boxes):
        c.ensures('the parts are equal and follow one another', c.and_(near(a, left + want * i / parts, scale), near(b, left + want * (i + 1) / parts, scale)))
        c.ensures('boxes of the same height', c.and_(eq(ys[i][0], ys[0][0]), eq(ys[i][1], ys[0][1])))
    c.ensures('neighbouring parts differ in colour', all(a[2] != b[2] for a, b in zip(m.fills, m.fills[1:])))
    names = [t for t in m.texts if t[2] == units]
    c.ensures('the unit is written once, over the middle', len(names) == 1 and near(names[0][0], left + want / 2, scale))
    labels = [t for t in m.texts if t[2] != units]
    at = [0, parts] if parts % 2 else list(range(0, parts + 1, 2))
    c.ensures('one label for every labelled tick', len(labels) == len(at))
    if len(labels) == len(at):
        for (x, y, s, k), i in zip(labels, at):
            c.ensures('a label stands at the length it names', near(x, left + want * i / parts, scale))
            c.ensures('the label is the length from the left end', number(c, s, length * i / parts))
            c.ensures('labels stand below the bar', y < ys[0][0])
    ticks = [x for x, y in m.lines if len(x) == 2]
    c.ensures('one tick for every label', len(ticks) == len(at))
    for x, i in zip(ticks, at):
        c.ensures('ticks at the labels', c.and_(*[near(v, left + want * i / parts, scale) for v in x]))
    outline = [(x, y) for x, y in m.lines if len(x) != 2]
    c.ensures('one outline', len(outline) == 1 and c.and_(eq(span(c, outline[0][0])[0], left), near(span(c, outline[0][0])[1], right, scale)))
    return left, right, ys[0][0], ys[0][1]


def number(c, s, v):
    if has_sym(s):
        p = s.parts
        if len(p) != 1 or p[0][1] not in ('', 'g', '.10g', '.9g', '.8g', '.7g', '.6g', '.12g', '.15g'):
            return False
        return c.close(p[0][0], v, 1e-9 * v)
    try:
        return abs(float(s) - float(v)) <= 1e-5 * abs(float(v))
    except (TypeError, ValueError):
        return False


def placed(c, m, box, pos, px, py):
    left, right, bottom, top = box
    sx, sy = (10 * (abs(m.x0) + m.w + right - left), abs(m.y0) + 10 * m.h) if c.concrete else (m.w + right - left, m.h)
    near = lambda a, b, s: c.close(a, b, 1e-7 * s) if c.concrete else c.eq(a, b)
    if pos[1] == 'l':
        c.ensures('left end at the padding', near(left, m.x0 + px * m.w, sx))
    else:
        c.ensures('right end at the padding', c.close(right, m.x0 + (1 - px) * m.w, (1e-7 if c.concrete else 1e-9) * sx))
    if pos[0] == 'l':
        c.ensures('bottom at the padding', near(bottom, m.y0 + py * m.h, sy))
    else:
        c.ensures('top at the padding', near(top, m.y0 + (1 - py) * m.h, sy))


def request(c, pos=None):
    one = pos is not None
    pos = pos or c.choice('pos', ['ll', 'lr', 'ul', 'ur'])
    px, py = c.real('padx', 0, 0.4), c.real('pady', 0, 0.4)
    fs = c.choice('font', [None, 8, 14]) if c.concrete else None if one or c.choice('default font', [False, True]) else c.real('font', 2, 60)
    kw = dict(pos=pos, padx=px, pady=py)
    if fs is not None:
        kw['font_size'] = fs
    return pos, px, py, fs, kw


def asked(c, m, units, pos):
    pos, px, py, fs, kw = request(c, pos)
    parts = c.choice('parts', [2, 3, 4, 5, 6])
    length = c.choice('length', [1, 5, 10, 100, 2.5, 0.25, 7000]) if c.concrete else c.real('length', 0.001, 1e6)
    ax = m.axes()
    r = c.call(c.fn(M, 'draw_scale'), ax, units=units, bar_length=length, divisions=parts, **kw)
    c.ensures('no exception', r.ok)
    if not r.ok:
        return
    box = drawn(c, m, length, parts, units)
    if box:
        placed(c, m, box, pos, px, py)


@contract('M03', 'asked_length', FN, budget=150)
def asked_length(c):
    """a bar of the length and number of parts asked for, in any unit, on a map of any unit, size and place"""
    m = Map(c, c.choice('map units', ['m', 'km', 'us-ft', 'degrees']))
    units = c.choice('units', sorted(METRES)) if c.concrete or m.units == 'm' else c.choice('units', ['km', 'mi', 'in'])
    asked(c, m, units, 'll')


@contract('M03', 'corners', FN, budget=150)
def corners(c):
    """the same in every corner of a map whose projection names no unit (metres)"""
    asked(c, Map(c, None), c.choice('units', ['km', 'mi']) if c.concrete else 'km', c.choice('pos', ['ul', 'lr', 'ur']))


@contract('M03', 'chosen_length', FN, budget=150)
def chosen_length(c):
    """without a length: the one of the documented lengths nearest to a quarter of the map"""
    m = Map(c, c.choice('map units', ['m', 'degrees']))
    units = c.choice('units', ['km', 'mi', 'us-ft'] if c.concrete or m.units == 'm' else ['km'])
    pos, px, py, fs, kw = request(c, None if c.concrete else 'll')
    ax = m.axes()
    r = c.call(c.fn(M, 'draw_scale'), ax, units=units, **kw)
    c.ensures('no exception', r.ok)
    if not r.ok:
        return
    quarter = m.w * m.metres() / METRES[units] / 4
    parts = len(m.fills)
    lengths = [k for k, v in PARTS.items() if v == parts]
    got = [t for t in m.texts if t[2] != units]
    c.ensures('labelled', len(got) > 0)
    length = [k for k in lengths if number(c, got[-1][2], k)] if got else []
    c.ensures('a documented length with its number of parts', len(length) == 1)
    if len(length) != 1:
        return
    length = length[0]
    d = c.abs(quarter - length)
    c.ensures('no other length is nearer to a quarter of the map', c.and_(*[c.le(d, c.abs(quarter - k) + 1e-9 * quarter) for k in PARTS]))
    box = drawn(c, m, length, parts, units, not c.concrete)
    if box:
        placed(c, m, box, pos, px, py)


@contract('M03', 'refusals', FN)
def refusals(c):
    f = c.fn(M, 'draw_scale')
    how = c.choice('how', ['length only', 'parts only', 'parts', 'units', 'pos', 'axes'])
    m = Map(c, 'm')
    ax = m.axes()
    if how == 'length only':
        c.ensures('a length without a number of parts is refused', c.call(f, ax, bar_length=10).raised(c.fn('impactutils.exceptions', 'RequiredArgumentError')))
    elif how == 'parts only':
        c.ensures('a number of parts without a length is refused', c.call(f, ax, divisions=c.choice('d', [2, 3, 4, 5, 6])).raised(c.fn('impactutils.exceptions', 'RequiredArgumentError')))
    elif how == 'parts':
        c.ensures('another number of parts is refused', c.call(f, ax, bar_length=10, divisions=c.choice('d', [0, 1, 7, -2, 12, 2.5])).raised(ValueError))
    elif how == 'units':
        c.ensures('an unknown unit is refused', c.call(f, ax, units=c.choice('u', ['', 'KM', 'miles', 'deg', None])).raised(ValueError))
    elif how == 'pos':
        c.ensures('an unknown position is refused', c.call(f, ax, pos=c.choice('p', ['', 'LL', 'center', 'l', None, 'lower left'])).raised(ValueError))
    else:
        c.ensures('other axes are refused', c.call(f, c.choice('ax', [None, 'axes', 3])).raised(ValueError))
    c.ensures('nothing is drawn', not (m.texts or m.lines or m.fills))
