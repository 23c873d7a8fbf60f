"""C01  Colour palettes."""
import math
import os
import numpy as np
from pyvc.harness import contract

M = 'impactutils.colors.cpalette'
CP = M + '.ColorPalette'
EXC = 'impactutils.exceptions'
CH = ('red', 'green', 'blue')


class FakeMap:
    """stands for matplotlib's LinearSegmentedColormap (assumed contract): keeps what it is given"""
    c = None

    def __init__(self, name, segmentdata, N=256, gamma=1.0):
        self.name, self._segmentdata, self.N = name, segmentdata, N
        self.bad = None

    def set_bad(self, color='k', alpha=None):
        self.bad = color

    def __call__(self, x, *a, **k):
        v = tuple(FakeMap.c.uf('cmap_' + ch, x) for ch in 'rgba')
        for t in v:
            FakeMap.c.requires(FakeMap.c.and_(t >= 0, t <= 1))
        return v


def fake(c):
    if not c.concrete:
        FakeMap.c = c
        c.stub(M, 'LinearSegmentedColormap', FakeMap)
        c.assumed('matplotlib LinearSegmentedColormap(name, segmentdata, N): the linear interpolation of segmentdata, components in [0, 1]')


def controls(c, n):
    """increasing control values, z1[i] = z0[i+1]"""
    z = [c.real('z0_', -1e4, 1e4)]
    for i in range(n):
        d = c.real(f'd{i}', 0, 1e3, lo_open=True)
        c.requires(d > 1e-3)
        z.append(z[-1] + d)
    col = lambda nm: tuple(c.real(f'{nm}{ch}', 0, 255, special=(0, 255)) for ch in 'rgb')
    rgb0 = [col(f'a{i}_') for i in range(n)]
    rgb1 = [col(f'b{i}_') for i in range(n)]
    return z[:-1], z[1:], rgb0, rgb1


@contract('C01', 'control_points', [CP + '.__init__', CP + '.vmin', CP + '.vmax', CP + '.cmap'], kind='bounded',
          bound='palettes of 1 to 4 control rows (6 in the thorough tier); all real control values, colours, resolutions')
def control_points(c):
    fake(c)
    n = c.size('n', 1, 4, 6, 8)
    z0, z1, rgb0, rgb1 = controls(c, n)
    how = c.choice('resolution', ['none', 'coarse', 'fine'])
    res = None if how == 'none' else (c.real('res', 0.5, 1000) if how == 'coarse' else c.real('fres', 0.05, 1.0))
    old = [list(v) for v in (z0, z1, rgb0, rgb1)]
    p = c.fn(M, 'ColorPalette')('nm', z0, z1, rgb0, rgb1, resolution=res)
    lo, hi = z0[0], z1[-1]
    c.ensures('lower end of the range', c.eq(p.vmin, lo))
    c.ensures('upper end of the range', c.eq(p.vmax, hi))
    cm = p.cmap
    c.ensures('name', cm.name == 'nm')
    sd = cm._segmentdata
    for k, ch in enumerate(CH):
        rows = sd[ch]
        c.ensures('one control point per boundary', len(rows) == n + 1)
        for i in range(n + 1):
            x = z0[i] if i < n else z1[-1]
            c.ensures('control point at the rescaled data value', c.eq(rows[i][0] * (hi - lo), x - lo, atol=1e-6))
            if i > 0:
                c.ensures('colour below the control point', c.eq(rows[i][1] * 255, rgb1[i - 1][k], atol=1e-9))
            if i < n:
                c.ensures('colour above the control point', c.eq(rows[i][2] * 255, rgb0[i][k], atol=1e-9))
    c.ensures('first and last control point at the ends', c.and_(c.eq(sd['red'][0][0], 0), c.eq(sd['red'][-1][0], 1)))
    if res is None:
        c.ensures('256 colours', c.eq(cm.N, 256))
    else:
        c.ensures('at least 256 colours', c.le(256, cm.N))
        c.ensures('enough colours for the resolution', c.le(hi - lo, cm.N * res * (1 + (1e-12 if c.concrete else 0))))
        c.ensures('no more colours than needed', c.or_(c.eq(cm.N, 256), c.lt((cm.N - 1) * res, hi - lo)))
    c.ensures('sequences of the caller unchanged', [len(v) for v in (z0, z1, rgb0, rgb1)] == [n] * 4)
    for a, b in zip(old, (z0, z1, rgb0, rgb1)):
        for u, v in zip(a, b):
            c.ensures('values of the caller unchanged', u is v or c.eq(u, v))


@contract('C01', 'unequal_lengths', [CP + '.__init__', CP + '.fromColorMap'], kind='bounded',
          bound='lengths 1 to 3 of each of the four sequences, all combinations')
def unequal_lengths(c):
    fake(c)
    ns = [c.choice('n' + k, [1, 2, 3]) for k in 'abcd']
    seqs = [[float(i) for i in range(ns[0])], [float(i + 1) for i in range(ns[1])],
            [(0, 0, 0)] * ns[2], [(9, 9, 9)] * ns[3]]
    r = c.call(c.fn(M, 'ColorPalette'), 'x', *seqs)
    if len(set(ns)) > 1:
        c.ensures('unequal lengths are refused', r.raised(c.fn(EXC, 'ConsistentLengthError')))
    else:
        c.ensures('equal lengths are accepted', r.ok)
    if ns[2] == ns[3] == 1:
        cm = (lambda x: (0.1, 0.2, 0.3, 1.0))
        r = c.call(c.fn(M, 'ColorPalette').fromColorMap, 'x', seqs[0], seqs[1], cm)
        c.ensures('unequal lengths are refused with a colour map', r.raised(c.fn(EXC, 'ConsistentLengthError')) if ns[0] != ns[1] else r.ok)


@contract('C01', 'data_colour', [CP + '.getDataColor', CP + '.vmin', CP + '.vmax'])
def data_colour(c):
    """the position of the value in the current range is looked up; formats are the same colour in other units"""
    fake(c)
    lg = c.flag('log')
    p = c.fn(M, 'ColorPalette')('x', [0.0, 1.0], [1.0, 4.0], [(0, 10, 20), (100, 120, 130)], [(100, 110, 120), (200, 255, 0)], is_log=lg)
    if c.flag('newrange'):
        lo = c.real('lo', -50, 50)
        w = c.real('width', 0.01, 100)
        if c.flag('reversed'):
            w = -w
        p.vmin = lo
        p.vmax = lo + w
        hi = lo + w
        c.ensures('range can be set', c.and_(c.eq(p.vmin, lo), c.eq(p.vmax, hi)))
    else:
        lo, hi = 0.0, 4.0
    if lg:
        v = c.real('v', 1e-3, 500, special=(1, 2, 3))
        t = c.log(v)
    else:
        v = t = c.real('v', -100, 200, special=(0, 1, 4, 2))
    want = p.cmap((t - lo) / (hi - lo))
    f = c.choice('format', ['mlab', '255', 'bad', None])
    r = c.call(p.getDataColor, v, *([] if f is None else [f]))
    if f == 'bad':
        c.ensures('unknown format is refused', r.raised(AttributeError))
        return
    c.ensures('no exception', r.ok)
    if not r.ok:
        return
    c.ensures('four components', len(r.value) == 4)
    for a, b in zip(want, r.value):
        if f == '255':
            c.ensures('whole number', c.isint(b))
            c.ensures('0-255 is the same colour', c.and_(c.lt(b - a * 255, 1), c.lt(a * 255 - b, 1)))
            c.ensures('0-255 in range', c.and_(c.le(0, b), c.le(b, 255)))
        else:
            c.ensures('colour of the position', c.eq(a, b, atol=1e-12))


def interp(rows, x):
    """set of colours possible at x (both sides of a jump)"""
    out = []
    for (a, _, ca), (b, cb, _) in zip(rows[:-1], rows[1:]):
        if a - 1e-9 <= x <= b + 1e-9:
            out.append(ca + (cb - ca) * min(1, max(0, (x - a) / (b - a))))
    return out


@contract('C01', 'linear_colour', [CP + '.__init__', CP + '.getDataColor'], kind='concrete', trials=300,
          bound='sampled palettes of 1-8 rows, values inside and outside the range')
def linear_colour(c):
    n = c.size('n', 1, 8)
    z0, z1, rgb0, rgb1 = controls(c, n)
    res = c.choice('res', [None, 1.0, 0.5])
    nan = c.choice('nan', [0, 128, (1, 2, 3, 4), (0, 255, 0, 255)])
    p = c.fn(M, 'ColorPalette')('x', z0, z1, rgb0, rgb1, resolution=res, nan_color=nan)
    lo, hi = z0[0], z1[-1]
    t = c.real('t', -0.5, 1.5, special=(0, 1, 0.5))
    v = lo + t * (hi - lo)
    col = p.getDataColor(v)
    t = min(1, max(0, t))
    N = p.cmap.N
    for k in range(3):
        rows = [((z0[i] - lo) / (hi - lo) if i < n else 1.0, rgb1[i - 1][k] / 255 if i else 0, rgb0[i][k] / 255 if i < n else 0) for i in range(n + 1)]
        cand = [w for d in (-2.0 / N, -1.0 / N, 0, 1.0 / N, 2.0 / N) for w in interp(rows, min(1, max(0, t + d)))]
        # within one table cell the colour may also be interpolated across a very narrow row
        c.ensures('colour interpolated linearly between the control colours', min(cand) - 1e-9 <= col[k] <= max(cand) + 1e-9 or
                  any(abs(r[0] - t) <= 2.0 / N for r in rows))
    c.ensures('opaque', col[3] == 1.0)
    # array, hex, nan
    vals = np.array([v, float('nan'), lo, hi])
    arr = p.getDataColor(vals, 'array')
    ml = p.getDataColor(vals)
    c.ensures('array of bytes with one RGBA per value', arr.shape == (4, 4) and arr.dtype == np.uint8)
    c.ensures('array is the same colour', bool((np.abs(arr.astype(float) - ml * 255) < 1).all()))
    want = [x / 255.0 for x in ([nan] * 4 if isinstance(nan, int) else nan)]
    c.ensures('missing data gets the configured colour', np.allclose(ml[1], want, atol=1e-9))
    c.ensures('missing scalar gets the configured colour', np.allclose(p.getDataColor(float('nan')), want, atol=1e-9))
    c.ensures('array agrees with the scalar', np.allclose(ml[0], col))
    g = p.getDataColor(vals.reshape(2, 2), 'array')
    c.ensures('2-D array', g.shape == (2, 2, 4) and np.array_equal(g.reshape(4, 4), arr))
    h = p.getDataColor(v, 'hex')
    c.ensures('hex form', len(h) == 7 and h[0] == '#' and h == h.upper())
    c255 = p.getDataColor(v, '255')
    c.ensures('hex is the same colour', [int(h[i:i + 2], 16) for i in (1, 3, 5)] == list(c255[:3]))
    c.ensures('0-255 agrees with the array form', all(abs(int(a) - int(b)) <= 0 for a, b in zip(c255, arr[0])))


PRE = {'mmi': ([0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 10, 0.1), 'pop': ([0, 4, 49, 99, 499, 999, 4999, 9999], 50000, 1.0),
       'shaketopo': ([-100, 0, 50, 350, 1000, 1800, 2300, 2600, 4000, 9000, 9100], 9200, 1.0)}


@contract('C01', 'presets', [CP + '.fromPreset', CP + '.getPresets'], kind='exhaustive', bound='every preset, every control point')
def presets(c):
    mod = c.mod(M)
    C = c.fn(M, 'ColorPalette')
    import copy
    before = copy.deepcopy(mod.PALETTES)
    names = C.getPresets()
    c.ensures('presets listed', sorted(names) == sorted(PRE))
    for nm in names:
        p = C.fromPreset(nm)
        d = before[nm]
        z0 = list(d['z0'])
        c.ensures('control values of the preset', z0 == PRE[nm][0] and list(d['z1']) == z0[1:] + [PRE[nm][1]])
        c.ensures('range of the preset', p.vmin == min(d['z0']) and p.vmax == max(d['z1']))
        c.ensures('colours of the preset', p.cmap.N >= max(256, (p.vmax - p.vmin) / d['resolution'] - 1e-9))
        xs = [r[0] for r in p.cmap._segmentdata['red']]
        c.ensures('control points of the preset', np.allclose(np.array(xs) * (p.vmax - p.vmin) + p.vmin, z0 + [PRE[nm][1]]))
        for i in range(len(z0)):
            for k, ch in enumerate(CH):
                seg = p.cmap._segmentdata[ch]
                c.ensures('colours of the preset rows', abs(seg[i][2] * 255 - d['rgb0'][i][k]) < 1e-9 and abs(seg[i + 1][1] * 255 - d['rgb1'][i][k]) < 1e-9)
        c.ensures('missing-data colour of the preset', np.allclose(p.getDataColor(float('nan')), np.array(d['nan_color']) / 255.0))
        q = C.fromPreset(nm)
        c.ensures('same again', q.cmap._segmentdata == p.cmap._segmentdata)
        p.vmin = -5
    for nm in before:
        for k in before[nm]:
            c.ensures('presets unchanged', np.array_equal(np.array(before[nm][k]), np.array(mod.PALETTES[nm][k])))
    for bad in ('MMI', 'nope', '', 'mmi '):
        c.ensures('unknown preset is refused', c.call(C.fromPreset, bad).raised(c.fn(EXC, 'UnsupportedArgumentError')))


@contract('C01', 'from_file', [CP + '.fromFile'], kind='concrete', trials=40, bound='sampled files of 1-6 rows')
def from_file(c):
    n = c.size('n', 1, 6)
    rng = c.rng
    z = sorted(rng.sample(range(-1000, 1000), n + 1))
    if rng.random() < 0.5:
        z = [v / 8.0 for v in z]
    rows = [[rng.randrange(256) for _ in range(6)] for _ in range(n)]
    name = rng.choice(['alpha', 'my map', 'x1'])
    nan = [rng.randrange(256) for _ in range(4)]
    res = rng.choice([0.5, 0.01, 100.0, 2.0])
    has = [rng.random() < 0.7 for _ in range(3)]
    tx = '# a comment\n'
    if has[0]:
        tx += '#$nan_color: %s\n' % ','.join(map(str, nan))
    if has[1]:
        tx += f'#$name: {name}\n'
    if has[2]:
        tx += f'#$resolution: {res}\n'
    tx += 'Z0 R0  G0  B0  Z1  R1  G1  B1\n'
    for i in range(n):
        tx += '%s %s %s %s  %s %s %s %s\n' % (z[i], *rows[i][:3], z[i + 1], *rows[i][3:])
    f = os.path.join(c.tmpdir(), 'p.cpt')
    with open(f, 'wt') as h:
        h.write(tx)
    c.drawn['text'] = tx
    p = c.fn(M, 'ColorPalette').fromFile(f)
    c.ensures('range of the file', p.vmin == z[0] and p.vmax == z[-1])
    c.ensures('name of the file', p.cmap.name == (name if has[1] else 'generic'))
    c.ensures('missing-data colour of the file', np.allclose(p.getDataColor(float('nan')), np.array(nan if has[0] else [0] * 4) / 255.0))
    N = max(256, math.ceil((z[-1] - z[0]) / res - 1e-9)) if has[2] else 256
    c.ensures('resolution of the file', abs(p.cmap.N - N) <= (1 if has[2] else 0))
    seg = p.cmap._segmentdata
    for i in range(n):
        for k, ch in enumerate(CH):
            c.ensures('rows of the file', abs(seg[ch][i][2] * 255 - rows[i][k]) < 1e-9 and abs(seg[ch][i + 1][1] * 255 - rows[i][3 + k]) < 1e-9 and
                      abs(seg[ch][i][0] * (z[-1] - z[0]) + z[0] - z[i]) < 1e-6)


@contract('C01', 'from_colour_map', [CP + '.fromColorMap'], kind='concrete', trials=60, bound='sampled control values, four matplotlib colour maps')
def from_colour_map(c):
    import matplotlib
    n = c.size('n', 1, 6)
    z0, z1, _, _ = controls(c, n)
    cm = matplotlib.colormaps[c.choice('cm', ['viridis', 'jet', 'gray', 'tab10'])]
    kw = {}
    res = c.choice('res', [None, 0.01, 10.0])
    if res:
        kw['resolution'] = res
    nan = c.choice('nan', [0, (9, 8, 7, 6)])
    lg = c.flag('log')
    p = c.fn(M, 'ColorPalette').fromColorMap('zz', z0, z1, cm, nan_color=nan, is_log=lg, **kw)
    lo, hi = z0[0], z1[-1]
    c.ensures('range', p.vmin == lo and p.vmax == hi and p.cmap.name == 'zz')
    seg = p.cmap._segmentdata
    for i in range(n):
        a, b = cm((z0[i] - lo) / (hi - lo)), cm((z1[i] - lo) / (hi - lo))
        for k, ch in enumerate(CH):
            c.ensures('colours of the colour map', abs(seg[ch][i][2] - a[k]) < 0.6 / 255 and abs(seg[ch][i + 1][1] - b[k]) < 0.6 / 255)
    c.ensures('missing-data colour', np.allclose(p.getDataColor(float('nan')), [x / 255.0 for x in ([0] * 4 if nan == 0 else nan)]))
    if res:
        c.ensures('resolution', p.cmap.N * res >= (hi - lo) * (1 - 1e-9) and p.cmap.N >= 256)
    v = c.real('v', 0.1, 100)
    c.ensures('logarithmic palettes look up the logarithm', p.getDataColor(v) == p.cmap(((math.log(v) if lg else v) - lo) / (hi - lo)))
