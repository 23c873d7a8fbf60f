"""Models of external modules used by the symbolic run (assumed contracts of dependencies)."""
import types


def default_models():
    return {
        'openquake.hazardlib.geo.point': oq_point,
        'openquake.hazardlib.geo.geodetic': oq_geodetic,
        'openquake.hazardlib.geo.utils': oq_utils,
        'openquake.hazardlib.geo.mesh': oq_mesh,
        'openquake.hazardlib.geo': oq_geo,
        'openquake.hazardlib.gsim': oq_gsim,
        'openquake.hazardlib.gsim.base': oq_gsim_base,
        'matplotlib.pyplot': empty('matplotlib.pyplot'),
        'cartopy.crs': cartopy_crs,
        'cartopy': lambda X: _mk('cartopy', crs=X.get('cartopy.crs')),
        'cartopy.mpl.geoaxes': lambda X: _mk('cartopy.mpl.geoaxes', GeoAxes=type('GeoAxes', (), {})),
        'mpl_toolkits.mplot3d': lambda X: _mk('mpl_toolkits.mplot3d', Axes3D=object),
        'impactutils.rupture.plotrupture': lambda X: _mk('plotrupture', plot_rupture_wire3d=None, map_rupture=None),
    }


def _mk(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def empty(name):
    return lambda X: _mk(name)


def cartopy_crs(X):
    return _mk('cartopy.crs', PlateCarree=type('PlateCarree', (), {}))


def _ext_source(X, name, path):
    """extract an installed third-party source file the same way as /repo code"""
    import ast
    from .extract import T, COPY
    from . import shadow, loops
    src = open(path).read()
    tree = ast.fix_missing_locations(T(name).visit(ast.parse(src, path)))
    m = types.ModuleType(name)
    b = dict(shadow.BUILTINS)
    b['__import__'] = X.imp(name, name.rsplit('.', 1)[0])
    m.__dict__.update({
        '__builtins__': b, '__package__': name.rsplit('.', 1)[0], '_pv_fstr': shadow.fstr, '_pv_mod': shadow.mod,
        '_pv_call': shadow.call_method, '_pv_in': shadow.contains, '_pv_not': shadow.notc,
        '_pv_getitem': shadow.getitem, '_pv_slice': slice, '_pv_loop': loops.Loop.make, '_pv_quant': loops.quant,
        '_pv_issym': loops.is_symseq, '_pv_comp': loops.comp, '_pv_UNBOUND': loops.UNBOUND, '_pv_list': loops.PList})
    X.mods[name] = m
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m


def oq_point(X):
    from .sym import SNum
    from .shadow import float_

    class Point:
        """openquake Point: constructor range checks and attributes (assumed contract)"""
        EQUALITY_DISTANCE = 1e-3

        def __init__(self, longitude, latitude, depth=0.0):
            if not depth < 6371.0:
                raise ValueError("The depth must be less than the Earth's radius (6371.0 km)")
            if not depth > -8.848:
                raise ValueError("The depth must be greater than the maximum elevation")
            if not -180.0 <= longitude <= 180.0:
                raise ValueError('longitude outside range')
            if not -90.0 <= latitude <= 90.0:
                raise ValueError('latitude outside range')
            self.depth = float_(depth)
            self.latitude = float_(latitude)
            self.longitude = float_(longitude)

        x = property(lambda s: s.longitude)
        y = property(lambda s: s.latitude)
        z = property(lambda s: s.depth)

        def azimuth(self, p):
            return X.get('openquake.hazardlib.geo.geodetic').azimuth(self.longitude, self.latitude, p.longitude, p.latitude)

        def distance(self, p):
            h = X.get('openquake.hazardlib.geo.geodetic').geodetic_distance(self.longitude, self.latitude, p.longitude, p.latitude)
            from .sym import sqrt
            v = self.depth - p.depth
            return sqrt(h * h + v * v)

        def __eq__(self, o):
            from .core import Unsupported
            raise Unsupported('Point equality')
        __hash__ = None
    return _mk('openquake.hazardlib.geo.point', Point=Point)


def oq_geodetic(X):
    from .core import z3
    from .arr import ew
    from .npmodel import un
    from .sym import SNum, _real
    R = z3.RealSort()

    def uf(name, n):
        f = z3.Function(name, *([R] * n), R)

        def g(*a):
            return un(ew(lambda *v: SNum(f(*[_real(x) for x in v]), 'real', True), *a))
        return g
    az = uf('oq_azimuth', 4)
    d3 = uf('oq_distance', 6)
    gd = uf('oq_geodetic_distance', 4)
    plon, plat = uf('oq_point_at_lon', 4), uf('oq_point_at_lat', 4)
    return _mk('openquake.hazardlib.geo.geodetic', azimuth=az, distance=d3, geodetic_distance=gd,
               point_at=lambda lon, lat, a, d: (plon(lon, lat, a, d), plat(lon, lat, a, d)), EARTH_RADIUS=6371.0)


def oq_utils(X):
    from .core import z3, E
    from .arr import ew
    from .npmodel import un
    from .sym import SNum, _real
    R = z3.RealSort()
    fx, fy = z3.Function('proj_x', R, R, R), z3.Function('proj_y', R, R, R)
    gx, gy = z3.Function('unproj_lon', R, R, R), z3.Function('unproj_lat', R, R, R)

    class OrthographicProjection:
        """elementwise functions of the coordinates for one projection (assumed contract)"""
        def __init__(self, west, east, north, south):
            self.box = (west, east, north, south)
            E.assumptions.add('openquake OrthographicProjection: an elementwise map of coordinates (uninterpreted); its inverse gives valid longitudes and latitudes')

        def __call__(self, a, b, reverse=False):
            f, g = (gx, gy) if reverse else (fx, fy)
            def m(h, lim):
                def one(p, q):
                    t = h(_real(p), _real(q))
                    if reverse:
                        E.add_axiom(z3.And(t >= -lim, t <= lim))
                    return SNum(t, 'real', True)
                return un(ew(one, a, b))
            return m(f, 180), m(g, 90)
    return _mk('openquake.hazardlib.geo.utils', OrthographicProjection=OrthographicProjection)


def oq_mesh(X):
    class Mesh:
        def __init__(self, lons, lats, depths=None):
            self.lons, self.lats, self.depths = lons, lats, depths
    return _mk('openquake.hazardlib.geo.mesh', Mesh=Mesh)


def oq_geo(X):
    m = _mk('openquake.hazardlib.geo')
    X.mods['openquake.hazardlib.geo'] = m
    m.point = X.get('openquake.hazardlib.geo.point')
    m.geodetic = X.get('openquake.hazardlib.geo.geodetic')
    m.utils = X.get('openquake.hazardlib.geo.utils')
    m.mesh = X.get('openquake.hazardlib.geo.mesh')
    return m


class _Ctxt:
    pass


def oq_gsim_base(X):
    class RuptureContext(_Ctxt):
        pass

    class SitesContext(_Ctxt):
        pass

    class DistancesContext(_Ctxt):
        pass

    class GMPE:
        pass
    return _mk('openquake.hazardlib.gsim.base', RuptureContext=RuptureContext, SitesContext=SitesContext,
               DistancesContext=DistancesContext, GMPE=GMPE)


def oq_gsim(X):
    m = _mk('openquake.hazardlib.gsim')
    X.mods['openquake.hazardlib.gsim'] = m
    m.base = X.get('openquake.hazardlib.gsim.base')
    return m
