"""I01  Containers.

Deductive part: one operation on a container holding ANY content (an arbitrary set of names per kind, arbitrary stored
values), which is the inductive step of every history; h5py, json and pandas stand behind contracts (below).  The base
case and the libraries themselves are exercised by histories on real files."""
import json
import math
import os
import warnings
import numpy as np
from pyvc.core import Unsupported
from pyvc.harness import contract

C, S = 'impactutils.io.container', 'impactutils.io.smcontainers'
HC, HB, SB, SO = C + '.HDFContainer', S + '.HDFContainerBase', S + '.ShakeMapContainerBase', S + '.ShakeMapOutputContainer'
KINDS = {'dict': ('Dictionary', 'Dictionaries', 'dictionaries'), 'list': ('List', 'Lists', 'lists'), 'string': ('String', 'Strings', 'strings'),
         'array': ('Array', 'Arrays', 'arrays'), 'dataframe': ('DataFrame', 'DataFrames', 'dataframes')}
FLAT = [f'{HC}.{op}{k[0]}' for k in KINDS.values() for op in ('set', 'get', 'drop')] + [f'{HC}.get{k[1]}' for k in KINDS.values()]
NEST = [f'{HB}.{op}{k}' for k in ('Dictionary', 'Array', 'String') for op in ('set', 'get', 'drop')] + [HB + '._makeGroup', HB + '._getGroup']


# ---------------------------------------------------------------- stand-ins
class Val:
    """a value of unknown content"""
    def __init__(self, id):
        self.id = id

    def __deepcopy__(self, memo):
        return self

    def copy(self, *a, **k):
        return self

    def __getitem__(self, k):
        if k == ():
            return self
        raise Unsupported('part of a value')

    def __getattr__(self, n):
        raise Unsupported('value method ' + n)


class DVal(dict):
    """a dictionary of unknown content"""
    def __init__(self, id):
        self.id = id

    def _no(self, *a, **k):
        raise Unsupported('content of a dictionary')
    __getitem__ = __iter__ = __len__ = __contains__ = get = items = keys = values = __bool__ = __eq__ = __ne__ = _no
    __hash__ = None


class Text(Val):
    """text: encode and decode of one encoding are inverse"""
    def encode(self, enc='utf-8', *a):
        return Tok(enc, self)


class Table(Val):
    """a data frame of unknown content"""
    def to_json(self, *a, **k):
        return TTok('table', self)

    def select_dtypes(self, *a, **k):
        return self

    @property
    def columns(self):
        return self

    def tolist(self):
        return Val(('times of', self.id))


class Tok:
    """encoded bytes"""
    def __init__(self, how, v):
        self.how, self.v = how, v

    def decode(self, enc='utf-8', *a):
        if enc.lower().replace('utf8', 'utf-8') != self.how.lower().replace('utf8', 'utf-8'):
            raise Unsupported('another encoding')
        return self.v

    def __getattr__(self, n):
        raise Unsupported('bytes method ' + n)


class TTok(Text):
    """text produced by a serialiser"""
    def __init__(self, how, v):
        self.how, self.v = how, v


class Json:
    JSONDecodeError = json.JSONDecodeError

    @staticmethod
    def dumps(v, *a, **k):
        return TTok('json', v)

    @staticmethod
    def loads(t, *a, **k):
        if isinstance(t, Tok):
            t = t.v
        if not isinstance(t, TTok) or t.how != 'json':
            raise Unsupported('json of other text')
        return t.v


class Pandas:
    @staticmethod
    def read_json(t, *a, **k):
        if not isinstance(t, TTok) or t.how != 'table':
            raise Unsupported('table of other text')
        return t.v

    def __getattr__(self, n):
        raise Unsupported('pandas.' + n)


class Attrs:
    def __init__(self, d=()):
        self.d = dict(d)

    def __setitem__(self, k, v):
        self.d[k] = v

    def __getitem__(self, k):
        v = self.d[k]
        return v.v if isinstance(v, Tok) else v     # h5py 3 gives text attributes as text

    def get(self, k, d=None):
        return self[k] if k in self.d else d

    def __contains__(self, k):
        return k in self.d

    def items(self):
        return [(k, self[k]) for k in self.d]

    def keys(self):
        return list(self.d)

    def update(self, d):
        self.d.update(d)

    def __iter__(self):
        return iter(list(self.d))

    def __getattr__(self, n):
        raise Unsupported('attributes method ' + n)


class Dataset:
    def __init__(self, v, attrs=()):
        self.v, self.attrs = v, Attrs(attrs)

    def __getitem__(self, k):
        if k == () or k is Ellipsis:
            return self.v
        raise Unsupported('part of a dataset')

    def __getattr__(self, n):
        raise Unsupported('dataset method ' + n)


class Listing:
    """a list of names, known by what it contains; f(path) says whether it contains the path"""
    def __init__(self, f):
        self.f = f

    def pv_list(self):
        return self

    def __contains__(self, k):
        return bool(self.f(k))

    def __iter__(self):
        raise Unsupported('walk over the names in a group')

    def __getattr__(self, n):
        raise Unsupported('names method ' + n)


class Group:
    """HDF5 group: membership and members of unknown initial content are fixed when first looked at"""
    def __init__(self, w, fresh, make, depth=0):
        self.__dict__.update(w=w, fresh=fresh, make=make, depth=depth, log=[])     # log: newest first, (name, object or None)

    def _key(self, k):
        from pyvc.sym import SFmt, SStr
        if isinstance(k, SFmt):
            if len(k.parts) == 1 and isinstance(k.parts[0], tuple) and isinstance(k.parts[0][0], SStr):
                return k.parts[0][0]
            raise Unsupported('constructed name')
        if not isinstance(k, (str, SStr)):
            raise Unsupported('name of another type')
        if isinstance(k, str) and '/' in k:
            raise Unsupported('path name')
        return k

    def look(self, k):
        k = self._key(k)
        for n, o in self.log:
            if bool(n == k):
                return o
        o = None
        if not self.fresh and self.w.flag('has'):
            o = self.make(self, k)
        self.log.append((k, o))
        return o

    def put(self, k, o):
        self.log.insert(0, (self._key(k), o))

    def __contains__(self, k):
        return self.look(k) is not None

    def __getitem__(self, k):
        o = self.look(k)
        if o is None:
            raise KeyError("Unable to open object (doesn't exist)")
        return o

    def get(self, k, d=None):
        o = self.look(k)
        return d if o is None else o

    def __delitem__(self, k):
        if self.look(k) is None:
            raise KeyError("Couldn't delete link")
        self.put(k, None)

    def create_group(self, k, *a, **kw):
        if self.look(k) is not None:
            raise ValueError('Unable to create group (name already exists)')
        g = Group(self.w, True, self.make, self.depth + 1)
        self.put(k, g)
        return g

    def require_group(self, k):
        o = self.look(k)
        if o is None:
            return self.create_group(k)
        if not isinstance(o, Group):
            raise TypeError('Incompatible object already exists')
        return o

    def create_dataset(self, k, shape=None, dtype=None, data=None, **kw):
        if shape is not None or dtype is not None or data is None:
            raise Unsupported('dataset of another form')
        if self.look(k) is not None:
            raise ValueError('Unable to create dataset (name already exists)')
        d = Dataset(data)
        self.put(k, d)
        return d

    def keys(self):
        return Listing(lambda k: self.look(k) is not None)

    def __iter__(self):
        raise Unsupported('walk over the members of a group')

    def __len__(self):
        raise Unsupported('number of members of a group')

    def __bool__(self):
        return True

    def __getattr__(self, n):
        raise Unsupported('group method ' + n)

    def __setattr__(self, n, v):
        raise Unsupported('group attribute ' + n)


class World:
    """an open file of unknown content, with the data a container keeps in each group"""
    def __init__(self, c, nested=False):
        self.c, self.n, self.nested = c, 0, nested
        self.root = Group(self, False, self.base)
        self.root.__dict__['filename'] = 'file.h5'
        for n, v in (('json', Json), ('pd', Pandas())):
            if n == 'pd' and nested:
                continue
            if not c.stub(S if nested else C, n, v):
                raise Unsupported('module attribute ' + n)
        c.assumed('h5py: a group holds named groups and datasets, a name is created once, read, tested and deleted by name, and creating a present name raises ValueError; [()] gives the value stored')
        c.assumed('json.loads inverts json.dumps and pandas.read_json inverts to_json (exercised by the histories on real files)')

    def flag(self, what):
        self.n += 1
        return self.c.flag(f'{what}{self.n}')

    def val(self):
        self.n += 1
        return self.c.int(f'val{self.n}')

    def base(self, g, k):
        if not isinstance(k, str):
            raise Unsupported('top-level name')
        kind = [n for n, v in KINDS.items() if v[2] == k]
        if not kind:
            raise Unsupported('top-level group ' + k)
        return Group(self, False, lambda g, n: self.member(g, kind[0]), 1)

    def member(self, g, kind):
        if self.nested and g.depth < 5 and self.flag('group'):
            return Group(self, False, lambda g, n: self.member(g, kind), g.depth + 1)
        return self.stored(kind, value(self, kind, self.val()))

    def stored(self, kind, v):
        if kind in ('dict', 'list'):
            return Dataset(Tok('utf-8', TTok('json', v)))
        if kind == 'string':
            return Dataset(Tok('utf-8', v))
        if kind == 'array':
            return Dataset(v, {'m': Val(self.val())} if self.flag('meta') else {})
        return Dataset(Tok('utf-8', TTok('table', v)), {'time_columns': TTok('json', Val(('times of', v.id)))})


def value(w, kind, id):
    return {'dict': DVal, 'string': Text, 'dataframe': Table}.get(kind, Val)(id)


def vals(x):
    """comparable form of a value given back"""
    if isinstance(x, (tuple, list)):
        return [vals(i) for i in x]
    if isinstance(x, (Val, DVal)):
        return x.id if isinstance(x.__dict__.get('id'), object) and 'id' in x.__dict__ else [x.__dict__.get('how'), vals(x.__dict__.get('v'))]
    if isinstance(x, dict):
        return {k: vals(v) for k, v in x.items()}
    if isinstance(x, Tok):
        raise Unsupported('bytes given back')
    return x


def mcall(c, f, *a, **k):
    r = c.call(f, *a, **k)
    if not r.ok and not isinstance(r.exc, (LookupError, ValueError)):
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in value: {r.exc}')
    return r


def observe(c, h, kind, name, pre=()):
    """(present, comparable value) of a name, through the reading method"""
    r = mcall(c, getattr(h, 'get' + KINDS[kind][0]), *pre, name)
    if not r.ok:
        c.ensures('a name that is not there is a LookupError', r.raised(LookupError))
        return (False, None)
    return (True, vals(r.value))


def listed(c, h, kind, name):
    r = mcall(c, getattr(h, 'get' + KINDS[kind][1]))
    c.ensures('names are listed', r.ok)
    l = r.value
    if isinstance(l, Listing):
        return name in l
    if isinstance(l, list) and not l:
        return False
    raise Unsupported('form of the list of names')


def newval(c, w, kind):
    v = value(w, kind, c.int('new'))
    if kind != 'array':
        return v, (), vals(v)
    md = c.choice('metadata', [None, {}, {'units': Val(c.int('m1'))}, {'units': Val(c.int('m1')), 'nx': Val(c.int('m2'))}])
    args = [() if c.flag('no_md') else (md,)][0] if md is None else (md,)
    return v, args, [vals(v), vals(dict(md or {}))]


def symonly(c):
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see the histories')


def flat(c):
    symonly(c)
    w = World(c)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        h = c.fn(C, 'HDFContainer')(w.root)
    return w, h


@contract('I01', 'store', FLAT, budget=200)
def store(c):
    """storing under any name of any kind, in a file of any content"""
    w, h = flat(c)
    kind, other = c.choice('kind', list(KINDS)), c.choice('other', list(KINDS))
    name, name2 = c.text('name'), c.text('name2')
    same = kind == other and bool(c.eq(name, name2))
    was = observe(c, h, kind, name)
    was2 = observe(c, h, other, name2)
    c.ensures('listed exactly when readable', listed(c, h, kind, name) == was[0])
    v, extra, want = newval(c, w, kind)
    r = mcall(c, getattr(h, 'set' + KINDS[kind][0]), name, v, *extra)
    now, now2 = observe(c, h, kind, name), observe(c, h, other, name2)
    if was[0]:
        c.ensures('a name in use is refused and keeps its value', c.and_(r.raised(ValueError, LookupError), now[0], c.eq(now[1], was[1])))
    else:
        c.ensures('stored', r.ok)
        c.ensures('reads back what was stored', c.and_(now[0], c.eq(now[1], want)))
    if not same:
        c.ensures('other names and kinds unaffected', c.and_(now2[0] == was2[0], c.eq(now2[1], was2[1])))
    c.ensures('listed exactly when readable', c.and_(listed(c, h, kind, name) == now[0], listed(c, h, other, name2) == now2[0]))


@contract('I01', 'drop', FLAT, budget=200)
def drop(c):
    w, h = flat(c)
    kind, other = c.choice('kind', list(KINDS)), c.choice('other', list(KINDS))
    name, name2 = c.text('name'), c.text('name2')
    same = kind == other and bool(c.eq(name, name2))
    look = c.flag('look')       # whether it was looked at before
    if look:
        was = observe(c, h, kind, name)
    was2 = observe(c, h, other, name2)
    r = mcall(c, getattr(h, 'drop' + KINDS[kind][0]), name)
    if look:
        c.ensures('dropped when there, otherwise a LookupError', r.ok if was[0] else r.raised(LookupError))
    else:
        c.ensures('no other exception', r.ok or r.raised(LookupError))
    c.ensures('gone', not observe(c, h, kind, name)[0])
    c.ensures('not listed', not listed(c, h, kind, name))
    now2 = observe(c, h, other, name2)
    if not same:
        c.ensures('other names and kinds unaffected', c.and_(now2[0] == was2[0], c.eq(now2[1], was2[1]), listed(c, h, other, name2) == now2[0]))
    # and the name is free again
    v, extra, want = newval(c, w, kind)
    r = mcall(c, getattr(h, 'set' + KINDS[kind][0]), name, v, *extra)
    now = observe(c, h, kind, name)
    c.ensures('free for a new value', c.and_(r.ok, now[0], c.eq(now[1], want)))


# ---------------------------------------------------------------- the ShakeMap containers
NK = ['dict', 'array', 'string']


def nested(c, cls='HDFContainerBase', top=None):
    symonly(c)
    w = World(c, True)
    paths = lambda self, dd: Listing(lambda k: isinstance(dd.look(k), Dataset))
    if not c.stub(S, 'HDFContainerBase._getGroupPaths', paths):
        raise Unsupported('no _getGroupPaths')
    c.assumed('HDFContainerBase._getGroupPaths gives the paths of the datasets under a group (contract paths)')
    return w, c.fn(S, cls)(w.root)


def place(c, tag):
    """(groups, name): any names, up to two groups deep"""
    d = c.choice('depth' + tag, [0, 1, 2])
    return [c.text(f'group{tag}{i}') for i in range(d)], c.text('name' + tag)


def clean(c, w, kind, groups, name):
    """a name is used either for a group or for an item"""
    g = w.root.look(KINDS[kind][2])
    for k in groups:
        if g is None:
            return
        g = g.look(k)
        c.requires(g is None or type(g) is Group)
    if g is not None:
        c.requires(type(g.look(name)) is not Group)


def eqpath(c, a, b):
    return len(a[0]) == len(b[0]) and bool(c.and_(*[c.eq(x, y) for x, y in zip(a[0] + [a[1]], b[0] + [b[1]])]))


@contract('I01', 'store_in_groups', NEST, budget=300, max_paths=60000, bound='groups up to two deep')
def store_in_groups(c):
    w, h = nested(c)
    kind, other = c.choice('kind', NK), c.choice('other', NK)
    p, p2 = place(c, ''), place(c, '2')
    clean(c, w, kind, *p)
    clean(c, w, other, *p2)
    if kind == other:      # neither path runs through the other's item
        for x, y in ((p, p2), (p2, p)):
            n = len(x[0]) + 1
            if len(y[0]) >= n:
                c.requires(c.not_(c.and_(*[c.eq(i, j) for i, j in zip(x[0] + [x[1]], y[0])])))
    same = kind == other and eqpath(c, p, p2)
    was, was2 = observe(c, h, kind, p[1], (p[0],)), observe(c, h, other, p2[1], (p2[0],))
    v, extra, want = newval(c, w, kind)
    gone = c.choice('op', ['set', 'drop']) == 'drop'
    if gone:
        r = mcall(c, getattr(h, 'drop' + KINDS[kind][0]), p[0], p[1])
        c.ensures('dropped when there, otherwise a LookupError', r.ok if was[0] else r.raised(LookupError))
    else:
        r = mcall(c, getattr(h, 'set' + KINDS[kind][0]), p[0], p[1], v, *extra)
    now, now2 = observe(c, h, kind, p[1], (p[0],)), observe(c, h, other, p2[1], (p2[0],))
    if gone:
        c.ensures('gone', not now[0])
    elif was[0]:
        c.ensures('a name in use is refused and keeps its value', c.and_(r.raised(ValueError, LookupError), now[0], c.eq(now[1], was[1])))
    else:
        c.ensures('stored', r.ok)
        c.ensures('reads back what was stored', c.and_(now[0], c.eq(now[1], want)))
    if not same:
        c.ensures('other names, groups and kinds unaffected', c.and_(now2[0] == was2[0], c.eq(now2[1], was2[1])))


SLOTS = {'config': ('setConfig', 'getConfig', AttributeError), 'rupture': ('setRuptureDict', 'getRuptureDict', AttributeError),
         'stations_dict': ('setStationDict', 'getStationDict', AttributeError), 'version_history': ('setVersionHistory', 'getVersionHistory', None),
         'info.json': ('setMetadata', 'getMetadata', LookupError)}


def slot(c, h, n):
    r = c.call(getattr(h, SLOTS[n][1]))
    if r.ok:
        if type(r.value) is dict and not r.value:
            return (False, None)
        return (True, vals(r.value))
    if not r.raised(AttributeError, LookupError):
        raise Unsupported(f'{type(r.exc).__name__}: {r.exc}')
    c.ensures('what is not there is reported', SLOTS[n][2] is not None and r.raised(SLOTS[n][2]))
    return (False, None)


@contract('I01', 'replace', [f'{SB}.{x}' for v in SLOTS.values() for x in v[:2] if 'Metadata' not in x] + [SO + '.setMetadata', SO + '.getMetadata'], budget=200)
def replace(c):
    """configuration, rupture, stations, history and metadata: the last one stored, whatever was there"""
    w, h = nested(c, 'ShakeMapOutputContainer')
    a, b = c.choice('slot', list(SLOTS)), c.choice('other', list(SLOTS))
    for n in (a, b):
        clean(c, w, 'dict', [], n)
    was = slot(c, h, b)
    first = slot(c, h, a) if c.flag('look') else None
    v = DVal(c.int('new'))
    bad = a in ('rupture', 'stations_dict') and c.flag('not_a_dict')
    r = c.call(getattr(h, SLOTS[a][0]), ['not', 'a dictionary'] if bad else v)
    if bad:
        if r.ok or r.raised(TypeError):
            c.ensures('anything but a dictionary is a TypeError', r.raised(TypeError))
            if first:
                now = slot(c, h, a)
                c.ensures('what was there stays', c.and_(now[0] == first[0], c.eq(now[1], first[1])))
        else:
            raise Unsupported(f'{type(r.exc).__name__}: {r.exc}')
    else:
        if not r.ok and not r.raised(LookupError, ValueError):
            raise Unsupported(f'{type(r.exc).__name__}: {r.exc}')
        c.ensures('stored', r.ok)
        now = slot(c, h, a)
        c.ensures('the last one stored', c.and_(now[0], c.eq(now[1], vals(v))))
    if a != b:
        now = slot(c, h, b)
        c.ensures('the others unaffected', c.and_(now[0] == was[0], c.eq(now[1], was[1])))


class ArrVal(Val):
    """an array of unknown content and shape"""
    def __init__(self, id, shape):
        self.id, self.shape = id, shape

    @property
    def size(self):
        n = 1
        for k in self.shape:
            n = n * k
        return n

    @property
    def ndim(self):
        return len(self.shape)

    def __len__(self):
        raise Unsupported('length of an array of unknown shape')


@contract('I01', 'intensities', [f'{SO}.{x}' for x in ('setIMTGrids', 'getIMTGrids', 'setIMTArrays', 'getIMTArrays', 'setDataType', 'getDataType')], budget=300, max_paths=60000)
def intensities(c):
    """grids or arrays for one intensity type and component, in a container of any content"""
    w, h = nested(c, 'ShakeMapOutputContainer')
    kind = c.choice('file', [None, 'points', 'grid'])
    d = w.root.look('dictionaries')
    if d is None:
        c.requires(kind is None)
    else:
        d.log.append(('file_data_type', Dataset(Tok('utf-8', TTok('json', {'type': kind}))) if kind else None))
    a, b = [(c.text('imt' + t), c.text('component' + t)) for t in '12']
    same = bool(c.and_(c.eq(a[0], b[0]), c.eq(a[1], b[1])))
    names = ['lons', 'lats', 'ids', 'mean', 'std']
    has = [kind is not None and c.flag('has_' + t) for t in 'ab']
    if same:
        c.requires(has[0] == has[1])
    g = w.root.look('arrays')
    if g is None:
        c.requires(not any(has))
    else:
        # invariant: what is stored for an intensity type and component is complete for the data type of the file
        imts = Group(w, True, w.base, 2)
        if any(has) or c.flag('imts'):
            g.log.append(('imts', imts))
        else:
            g.log.append(('imts', None))
        for (i, comp), there, t in zip((a, b), has, 'ab'):
            if t == 'b' and same:
                continue
            if there:
                gc = imts.look(comp)
                if gc is None:
                    gc = imts.create_group(comp)
                gi = gc.create_group(i)
                for n in (names if kind == 'points' else names[3:]):
                    gi.log.append((n, Dataset(Val(w.val()), {'m': Val(w.val())} if n in names[3:] else {})))
    inner = lambda x: [x[n] if n in x else None for n in names + ['mean_metadata', 'std_metadata']]

    def get(which, k):
        r = c.call(getattr(h, 'getIMT' + which), *k)
        if not r.ok and not r.raised(LookupError, TypeError):
            raise Unsupported(f'{type(r.exc).__name__}: {r.exc}')
        return r
    dt = lambda: c.call(h.getDataType).value
    c.ensures('data type of the file', dt() == kind)
    way = c.choice('way', ['Grids', 'Arrays'])
    mine, other = ('grid', 'points') if way == 'Grids' else ('points', 'grid')
    was = get(way, b)
    if kind != mine:
        c.ensures('reading the kind the file does not hold is refused', was.raised(TypeError))
    sh = c.int('n', 0)
    arrs = [ArrVal(c.int('a_' + n), (sh,)) for n in names]
    fits = True
    if way == 'Arrays' and c.flag('other_size'):
        k = c.choice('which', [0, 1, 2, 3, 4])
        if c.flag('same_number'):
            arrs[k].shape = (sh, 1)
        else:
            arrs[k].shape = (c.int('m', 0),)
            c.requires(c.not_(c.eq(arrs[k].shape[0], sh)))
        fits = False
    mm, sm = {'units': Val(c.int('mm'))}, {'units': Val(c.int('sm'))}
    lons, lats, ids, mean, std = arrs
    args = (a[0], mean, mm, std, sm, a[1]) if way == 'Grids' else (a[0], lons, lats, ids, mean, mm, std, sm, a[1])
    first = get(way, a) if kind == mine else None
    r = c.call(getattr(h, 'setIMT' + way), *args)
    if not r.ok and not r.raised(LookupError, TypeError, ValueError):
        raise Unsupported(f'{type(r.exc).__name__}: {r.exc}')
    if kind == other:
        c.ensures('grids and arrays never mix', r.raised(TypeError) and dt() == kind)
    elif not fits:
        c.ensures('arrays of different shape are refused', r.raised(ValueError) and dt() == kind)
    elif r.ok:
        c.ensures('data type of the file', dt() == mine)
        got = get(way, a)
        c.ensures('reads back', got.ok)
        want = ([] if way == 'Grids' else [vals(x) for x in arrs[:3]]) + [vals(mean), vals(std), vals(mm), vals(sm)]
        keys = ([] if way == 'Grids' else names[:3]) + ['mean', 'std', 'mean_metadata', 'std_metadata']
        c.ensures('gives back the arrays and their metadata', c.eq([vals(got.value[k]) for k in keys], want))
        c.ensures('and nothing else', set(got.value) == set(keys))
        rr = get('Arrays' if way == 'Grids' else 'Grids', a)
        c.ensures('never as the other kind', rr.raised(TypeError))
    else:
        c.ensures('refused only when there is something under that name', has[0] and r.raised(LookupError, ValueError) and dt() == kind)
    if has[0] and kind == mine:
        got = get(way, a)
        c.ensures('a refused store leaves what was there', got.ok and not r.ok and bool(c.eq(vals(inner(got.value)), vals(inner(first.value)))))
    if kind == mine and not same:
        now = get(way, b)
        if was.ok:
            c.ensures('other intensity types and components unaffected', c.and_(now.ok, c.eq(vals(inner(was.value)), vals(inner(now.value))) if now.ok else False))
        else:
            c.ensures('other intensity types and components unaffected', now.raised(LookupError))


# ---------------------------------------------------------------- real files
def text(rng):
    return ''.join(rng.choice('abXYZ 019_-./\\éß<>&"\'=;#%東\n\t') for _ in range(rng.choice([0, 1, 3, 12, 40])))


def js(rng, d=0):
    k = rng.choice(['s', 'i', 'f', 'b', 'n'] + (['l', 'd'] if d < 3 else []))
    if k == 's':
        return text(rng)
    if k == 'i':
        return rng.choice([0, -1, 7, 2 ** 40, rng.randint(-1000, 1000)])
    if k == 'f':
        return rng.choice([0.1, 1e-12, 1.0, -2.5e30, rng.uniform(-1, 1)])
    if k == 'b':
        return rng.random() < .5
    if k == 'n':
        return None
    if k == 'l':
        return [js(rng, d + 1) for _ in range(rng.randint(0, 3))]
    return {text(rng): js(rng, d + 1) for _ in range(rng.randint(0, 3))}


def array(rng):
    sh = rng.choice([(3,), (2, 3), (1, 1), (0, 2), (5,), (2, 2, 2)])
    n = int(np.prod(sh))
    k = rng.choice(['f', 'i', 'b', 's', 'g'])
    if k == 'f':
        v = [rng.choice([float('nan'), float('inf'), 0.0, rng.uniform(-1e6, 1e6)]) for _ in range(n)]
    elif k == 'g':
        return np.array([rng.uniform(-5, 5) for _ in range(n)], dtype=np.float32).reshape(sh)
    elif k == 'i':
        v = [rng.randint(-9, 2 ** 40) for _ in range(n)]
    elif k == 'b':
        return np.array([rng.random() < .5 for _ in range(n)], dtype=bool).reshape(sh)
    else:
        return np.array([rng.choice([b'a', b'US.ABC', b'x1']) for _ in range(n)], dtype='S6').reshape(sh)
    return np.array(v, dtype=float if k == 'f' else np.int64).reshape(sh)


def meta(rng):
    return {k: rng.choice([rng.uniform(-9, 9), rng.randint(-5, 5), text(rng), ('a' * 30)]) for k in rng.sample(['units', 'xmin', 'nx', 'a b', 'digits'], rng.randint(0, 4))}


def frame(rng):
    import pandas as pd
    n = rng.randint(1, 5)
    cols = {}
    for name in rng.sample(['ID', 'date', 'time', 'Number', 'x_at', 'lat', 'text', 'modified', 'flag', 'Time'], rng.randint(1, 5)):
        k = rng.choice(['code', 'text', 'int', 'float', 'bool', 'when', 'miss'])
        cols[name] = {'code': lambda: [rng.choice(['001', '12', '1e3', '2001-01-01']) for _ in range(n)],
                      'text': lambda: ['t' + text(rng) for _ in range(n)],
                      'int': lambda: [rng.randint(-5, 2 ** 33) for _ in range(n)],
                      'float': lambda: [rng.choice([1e-12, .1, 25.67, rng.uniform(-180, 180), rng.uniform(0, 1e-6)]) for _ in range(n)],
                      'bool': lambda: [rng.random() < .5 for _ in range(n)],
                      'when': lambda: pd.to_datetime([f'{rng.randint(1700, 2200)}-{rng.randint(1, 12):02d}-{rng.randint(1, 28):02d}T{rng.randint(0, 23):02d}:{rng.randint(0, 59):02d}:12.{rng.choice(["000000", "123456", "999999"])}' for _ in range(n)]),
                      'miss': lambda: [1.5] + [rng.choice([float('nan'), 2.25]) for _ in range(n - 1)]}[k]()
    df = pd.DataFrame(cols)
    if rng.random() < .3:
        df.index = [f'row{i}' for i in range(n)]
    return df


def near(a, b):
    if isinstance(a, float) and isinstance(b, (int, float, np.number)):
        return (a != a and b != b) or abs(a - b) <= 1e-14 + 1e-14 * abs(a)
    return a == b


def agree(kind, got, want):
    if kind == 'array':
        a, md = want
        g, gm = got
        same = lambda x, y: str(x) == str(y) if isinstance(x, str) else x == y
        return isinstance(g, np.ndarray) and g.shape == a.shape and g.dtype == a.dtype and np.array_equal(g, a, equal_nan=a.dtype.kind == 'f') and set(gm) == set(md) and all(same(md[k], gm[k]) for k in md)
    if kind == 'dataframe':
        if list(got.columns) != list(want.columns) or sorted(map(str, got.index)) != sorted(map(str, want.index)):
            return False
        got = got.loc[list(want.index)]
        return all((got[k].dtype.kind == want[k].dtype.kind) and all(near(x, y) for x, y in zip(want[k].tolist(), got[k].tolist())) for k in want.columns)
    return type(got) is type(want) and got == want


def draw(rng, kind):
    if kind == 'dict':
        return {text(rng): js(rng) for _ in range(rng.randint(0, 4))}
    if kind == 'list':
        return [js(rng) for _ in range(rng.randint(0, 4))]
    if kind == 'string':
        return text(rng)
    if kind == 'array':
        return array(rng), meta(rng)
    return frame(rng)


def tmp(c, fn, mode, path):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return getattr(fn, mode)(path)


def history(c, cls, kinds, deep):
    """random operations against a dictionary of what should be there"""
    seed = c._get('seed', lambda: c.rng.randint(0, 2 ** 31))
    import random
    rng = random.Random(seed)
    path = os.path.join(c.tmpdir(), 'c.h5')
    h = tmp(c, cls, 'create', path)
    model = {k: {} for k in kinds}
    names = ['a', 'b', 'person', 'a b', 'né', 'A', 'data.json']
    groups = ([], ['g1'], ['g1', 'g2'], ['other'], ['g1', 'g3'], ['other', 'g2']) if deep else ([],)
    try:
        for step in range(rng.randint(3, 25)):
            k, op, n, g = rng.choice(kinds), rng.choice(['set', 'set', 'set', 'get', 'drop', 'drop', 'reopen', 'list']), rng.choice(names), list(rng.choice(groups))
            key, K = '/'.join(g + [n]), KINDS[k][0]
            pre = (g,) if deep else ()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if op == 'set':
                    v = draw(rng, k)
                    args = (v[0], v[1]) if k == 'array' else (v,)
                    if k == 'array' and rng.random() < .3:
                        args += (rng.random() < .5,)
                    r = c.call(getattr(h, 'set' + K), *pre, n, *args)
                    if key in model[k]:
                        c.ensures('a name in use is refused', r.raised(ValueError, LookupError))
                    else:
                        c.ensures('stored', r.ok)
                        model[k][key] = v
                elif op == 'drop':
                    r = c.call(getattr(h, 'drop' + K), *pre, n)
                    c.ensures('dropped when there, otherwise a LookupError', r.ok if key in model[k] else r.raised(LookupError))
                    model[k].pop(key, None)
                elif op == 'reopen':
                    h.close()
                    h = tmp(c, cls, 'load', path)
                    c.ensures('knows its file', h.getFileName() == path)
                elif op == 'get' and key not in model[k]:
                    c.ensures('a name that is not there is a LookupError', c.call(getattr(h, 'get' + K), *pre, n).raised(LookupError))
                check(c, h, model, kinds, deep)
        h.close()
        h = tmp(c, cls, 'load', path)
        check(c, h, model, kinds, deep)
    finally:
        h.close()


def check(c, h, model, kinds, deep):
    for k in kinds:
        r = c.call(getattr(h, 'get' + KINDS[k][1]))
        c.ensures('the names present are listed, in full', r.ok and sorted(r.value) == sorted(model[k]))
        for key, v in model[k].items():
            *g, n = key.split('/')
            r = c.call(getattr(h, 'get' + KINDS[k][0]), *((g,) if deep else ()), n)
            c.ensures('reads the last value stored', r.ok and agree(k, r.value, v))


@contract('I01', 'histories', FLAT + [HC + '.create', HC + '.load', HC + '.close', HC + '.getFileName'], kind='concrete', trials=120, seconds=12, bound='sampled histories of up to 25 operations on real files')
def histories(c):
    history(c, c.fn(C, 'HDFContainer'), list(KINDS), False)


@contract('I01', 'histories_in_groups', NEST + [HB + '._getGroupPaths', HB + '.getDictionaries', HB + '.getArrays', HB + '.getStrings', HB + '.create', HB + '.load'], kind='concrete', trials=120, seconds=12,
          bound='sampled histories of up to 25 operations on real files, groups up to two deep')
def histories_in_groups(c):
    history(c, c.fn(S, 'HDFContainerBase'), NK, True)


@contract('I01', 'paths', [HB + '._getGroupPaths'], kind='exhaustive', bound='all group trees up to three deep with up to two members per group')
def paths(c):
    """the datasets under a group by their path"""
    import itertools
    cls = c.fn(S, 'HDFContainerBase')
    h = cls(None)
    if not hasattr(h, '_getGroupPaths'):
        from pyvc.harness import Reject
        raise Reject('no such method')

    class G(dict):
        pass

    def trees(d):
        yield 'item'
        if d == 0:
            yield G()
            return
        sub = list(trees(d - 1))
        for n in range(3):
            for ch in itertools.product(sub, repeat=n):
                yield G(zip('pq', ch))

    def want(t):
        return [k for k, v in t.items() if v == 'item'] + [k + '/' + p for k, v in t.items() if v != 'item' for p in want(v)]
    for t in trees(2):
        if t != 'item':
            r = c.call(h._getGroupPaths, G(real(t)))
            c.ensures('paths of what is stored', r.ok and sorted(r.value) == sorted(want(t)))


class Leaf:
    pass


def real(t):
    return {k: (Leaf() if v == 'item' else type(t)(real(v))) for k, v in t.items()}


@contract('I01', 'shakemap_histories', [f'{SO}.{x}' for x in ('setIMTGrids', 'getIMTGrids', 'setIMTArrays', 'getIMTArrays', 'setDataType', 'getDataType', 'getIMTs', 'getComponents', 'dropIMT', 'setMetadata', 'getMetadata')]
          + [f'{SB}.{x}' for v in SLOTS.values() for x in v[:2] if 'Metadata' not in x], kind='concrete', trials=100, seconds=12, bound='sampled histories of up to 20 operations on real files')
def shakemap_histories(c):
    seed = c._get('seed', lambda: c.rng.randint(0, 2 ** 31))
    import random
    rng = random.Random(seed)
    path = os.path.join(c.tmpdir(), 'c.hdf')
    cls = c.fn(S, 'ShakeMapOutputContainer')
    h = cls.create(path)
    slots, imts, dtype = {}, {}, None
    way = rng.choice(['Grids', 'Arrays'])
    try:
        for step in range(rng.randint(3, 20)):
            op = rng.choice(['slot', 'slot', 'slot', 'imt', 'imt', 'imt', 'drop', 'reopen', 'bad'])
            i, comp = rng.choice(['PGA', 'MMI', 'SA(1.0)']), rng.choice(['Larger', 'rotd50'])
            if op == 'slot':
                s = rng.choice(list(SLOTS))
                v = {text(rng): js(rng) for _ in range(rng.randint(1, 3))}
                c.ensures('stored', c.call(getattr(h, SLOTS[s][0]), v).ok)
                slots[s] = v
            elif op == 'bad':
                s = rng.choice(['rupture', 'stations_dict'])
                c.ensures('anything but a dictionary is a TypeError', c.call(getattr(h, SLOTS[s][0]), rng.choice([5, 'x', ['a']])).raised(TypeError))
            elif op == 'imt':
                wy = way if rng.random() < .8 else rng.choice(['Grids', 'Arrays'])
                sh = rng.choice([(3,), (2, 3)]) if wy == 'Grids' else (rng.choice([1, 4]),)
                mk = lambda: np.array([rng.uniform(-9, 9) for _ in range(int(np.prod(sh)))]).reshape(sh)
                d = dict(mean=mk(), std=mk(), mean_metadata=meta(rng), std_metadata=meta(rng))
                if wy == 'Arrays':
                    d.update(lons=mk(), lats=mk(), ids=np.array([b'x%d' % j for j in range(sh[0])]))
                    bad = rng.random() < .2
                    if bad:
                        k = rng.choice(['lons', 'lats', 'ids', 'mean', 'std'])
                        d[k] = np.concatenate([d[k], d[k]]) if rng.random() < .5 else d[k].reshape(-1, 1)
                    r = c.call(h.setIMTArrays, i, d['lons'], d['lats'], d['ids'], d['mean'], d['mean_metadata'], d['std'], d['std_metadata'], comp, *([rng.random() < .5] if rng.random() < .5 else []))
                else:
                    bad = False
                    r = c.call(h.setIMTGrids, i, d['mean'], d['mean_metadata'], d['std'], d['std_metadata'], comp, *([rng.random() < .5] if rng.random() < .5 else []))
                mine = 'grid' if wy == 'Grids' else 'points'
                if dtype not in (None, mine):
                    c.ensures('grids and arrays never mix', r.raised(TypeError))
                elif bad:
                    c.ensures('arrays of different shape are refused', r.raised(ValueError))
                elif (i, comp) in imts:
                    c.ensures('a name in use is refused', r.raised(LookupError, ValueError))
                else:
                    c.ensures('stored', r.ok)
                    imts[i, comp] = d
                    dtype = mine
            elif op == 'drop' and imts:
                i = rng.choice(list(imts))[0]
                c.ensures('dropped', c.call(h.dropIMT, i).ok)
                imts = {k: v for k, v in imts.items() if k[0] != i}
            elif op == 'reopen':
                h.close()
                h = cls.load(path)
            c.ensures('data type of the file', h.getDataType() == dtype)
            for s in SLOTS:
                r = c.call(getattr(h, SLOTS[s][1]))
                if s in slots:
                    c.ensures('the last one stored', r.ok and r.value == slots[s])
                elif SLOTS[s][2] is None:
                    c.ensures('no history is an empty one', r.ok and r.value == {})
                else:
                    c.ensures('what is not there is reported', r.raised(SLOTS[s][2]))
            c.ensures('components with their intensity types', sorted(h.getIMTs()) == sorted(f'{b}/{a}' for a, b in imts))
            for a in {k[0] for k in imts}:
                c.ensures('components of an intensity type', sorted(h.getComponents(a)) == sorted(k[1] for k in imts if k[0] == a))
            for b in {k[1] for k in imts}:
                c.ensures('intensity types of a component', sorted(h.getIMTs(b)) == sorted(k[0] for k in imts if k[1] == b) and b in h.getComponents())
            for (a, b), d in imts.items():
                r = c.call(h.getIMTGrids if dtype == 'grid' else h.getIMTArrays, a, b)
                c.ensures('gives back the arrays and their metadata', r.ok and set(r.value) == set(d) and all(
                    (np.array_equal(r.value[k], d[k]) if not isinstance(d[k], dict) else agree('array', (np.zeros(1), r.value[k]), (np.zeros(1), d[k]))) for k in d))
                c.ensures('never as the other kind', c.call(h.getIMTArrays if dtype == 'grid' else h.getIMTGrids, a, b).raised(TypeError))
    finally:
        h.close()
