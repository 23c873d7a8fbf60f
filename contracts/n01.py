"""N01  Web catalogue answers: what the service said is what is reported, and outages are errors."""
import contextlib
import datetime as dt
import io
import json
import os
import random
import warnings
from unittest import mock
from urllib.error import HTTPError, URLError
from pyvc.core import Unsupported
from pyvc.harness import contract, Reject

M = 'impactutils.comcat.query'
G, CC = M + '.GeoServe', M + '.ComCatInfo'


class Reply:
    def __init__(self, text):
        self.text = text

    def read(self, *a):
        return self

    def decode(self, enc='utf-8', *a):
        if enc.lower().replace('-', '') != 'utf8':
            raise Unsupported('encoding')
        return self.text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def getcode(self):
        return 200
    status = code = 200


class Status(HTTPError):
    def __str__(self):
        return 'HTTP Error: no'

    __repr__ = __str__


@contract('N01', 'downloads', [M + '._get_url_data'], budget=60)
def downloads(c):
    """two attempts, each of any outcome and any HTTP status"""
    fate = [c.choice(f'attempt{i}', ['text', 'status', 'no connection']) for i in (1, 2)]
    code = [c.int(f'status{i}', 300, 599) for i in (1, 2)]
    if c.concrete and c.rng.random() < .5:
        code = [c.rng.choice([503, 503, 404, 500]) for _ in code]
    seen = []

    def urlopen(url, data=None, timeout=None, **k):
        i = len(seen)
        seen.append((url, timeout))
        if i > 1:
            return Reply('too many')
        if fate[i] == 'text':
            return Reply(f'text{i}') if not c.concrete else io.BytesIO(f'text{i} é'.encode())
        if fate[i] == 'status':
            raise (HTTPError if c.concrete else Status)(url, code[i], 'no', {}, io.BytesIO())
        raise URLError('unreachable')
    slept = []
    with mock.patch('time.sleep', lambda s: slept.append(s)), mock.patch('urllib.request.urlopen', urlopen):
        if not c.concrete:
            class request:
                pass
            request.urlopen = staticmethod(urlopen)
            if not c.stub(M, 'request', request):
                raise Unsupported('module attribute request')
            c.assumed('urllib.request.urlopen gives the text of the page or raises HTTPError with its status, or another error')
        r = c.call(c.fn(M, '_get_url_data'), 'http://x', timeout=7)
    text = (lambda i: f'text{i}' if not c.concrete else f'text{i} é')
    c.ensures('the page asked for, within the time given', all(u == 'http://x' and t == 7 for u, t in seen))
    if fate[0] == 'text':
        c.ensures('the text of the page', r.ok and r.value == text(0) and len(seen) == 1)
        return
    again = fate[0] == 'status' and c.split(c.eq(code[0], 503))
    if again and fate[1] == 'text':
        c.ensures('a busy service is asked a second time', r.ok and r.value == text(1) and len(seen) == 2)
    else:
        c.ensures('an outage is an error', not r.ok)
        c.ensures('after at most two attempts', len(seen) <= 2 and (not again or len(seen) == 2))


def geoserve(c, feats, regions, places):
    reg = dict(regions, authoritative=dict(features=feats), metadata={'request': 'x'})
    pl = dict(geonames=dict(features=places), metadata={})
    asked = []

    def get(url, timeout=None):
        asked.append(url)
        return ('places' if '/places.json' in url else 'regions')
    return reg, pl, asked, get


@contract('N01', 'geoserve', [G + '.' + f for f in ('__init__', 'getPlaces', 'getRegions', 'getAuthoritative', '_getJSONContent')], budget=60)
def geoserve_(c):
    """any coordinates, radius and population; any regions and places"""
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    given = c.flag('limits given')
    rad, pop = (c.real('radius', 0, 5000), c.int('population', 0, 10 ** 7)) if given else (500, 1000)
    n = c.choice('regions', [0, 1, 2])
    names = [c.text(f'network{i}') for i in range(n)]
    kinds = [c.text(f'type{i}') for i in range(n)]
    feats = [{'properties': {'network': names[i], 'type': kinds[i]}} for i in range(n)]
    places = [{'properties': {'name': c.text(f'place{i}')}} for i in range(c.choice('places', [0, 1, 2]))]
    reg, pl, asked, get = geoserve(c, feats, {'fe': {'features': [1]}}, places)
    if c.concrete:
        with mock.patch(M + '._get_url_data', lambda u, timeout=None: json.dumps(pl if get(u) == 'places' else reg)):
            r = c.call(c.fn(M, 'GeoServe'), lat, lon, **(dict(maxradius=rad, minpop=pop) if given else {}))
        sep = lambda u: [u.split('?')[0]] + sorted(u.split('?')[1].split('&'))
        want = [['latitude=', (lat, 'r')], ['longitude=', (lon, 'r')]], [['maxradiuskm=', (rad, 'r')], ['minpopulation=', (pop, 'd')], ['type=geonames']]
        c.ensures('asked', r.ok and len(asked) == 2)
        for u in asked:
            w = [f'latitude={lat}', f'longitude={lon}'] + ([f'maxradiuskm={rad}', f'minpopulation={pop}', 'type=geonames'] if '/places.json' in u else [])
            c.ensures('about that place', sep(u)[1:] == sorted(w))
        c.ensures('both services', sorted('/places.json' in u for u in asked) == [False, True])
    else:
        from pyvc.sym import SFmt

        def get_(url, timeout=None):
            parts = url.parts if isinstance(url, SFmt) else (url,)
            t = ''.join(p if isinstance(p, str) else f'<{len([q for q in parts[:k] if not isinstance(q, str)])}>' for k, p in enumerate(parts))
            vals = [p[0] for p in parts if not isinstance(p, str)]
            asked.append((t, vals))
            return t

        class js:
            @staticmethod
            def loads(t):
                return pl if '/places.json' in t else reg
        if not c.stub(M, '_get_url_data', get_) or not c.stub(M, 'json', js):
            raise Unsupported('module attributes')
        c.assumed('json.loads gives the content of the text')
        r = c.call(c.fn(M, 'GeoServe'), lat, lon, **(dict(maxradius=rad, minpop=pop) if given else {}))
        if not r.ok:
            raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
        c.ensures('both services', len(asked) == 2 and sorted('/places.json' in u for u, _ in asked) == [False, True])
        for t, vals in asked:
            want = {'latitude': lat, 'longitude': lon}
            if '/places.json' in t:
                want.update(maxradiuskm=rad, minpopulation=pop)
            q = dict(x.split('=', 1) for x in t.split('?')[1].split('&'))
            c.ensures('the kind of place', q.pop('type', None) == ('geonames' if '/places.json' in t else None))
            c.ensures('every condition once', sorted(q) == sorted(want))
            for k, v in want.items():
                x = q.get(k, '')
                x = vals[int(x[1:-1])] if x.startswith('<') else x
                c.ensures(f'{k} as given', c.eq(x, v) if not isinstance(x, str) else x == str(v))
    g = r.value
    r = c.call(g.getPlaces)
    c.ensures('the places of the answer', r.ok and len(r.value) == len(places) and all(a['properties']['name'] is b['properties']['name'] or a == b for a, b in zip(r.value, places)))
    r = c.call(g.getAuthoritative)
    c.ensures('the first region, else US', r.ok)
    a, b = r.value
    c.ensures('its network and kind', c.and_(a == (names[0] if n else 'US'), b == (kinds[0] if n else 'NA')))
    r = c.call(g.getRegions)
    c.ensures('the regions without the metadata', r.ok and sorted(r.value) == ['authoritative', 'fe'] and r.value['fe'] == {'features': [1]})
    r = c.call(g.getAuthoritative)
    c.ensures('and again', r.ok and len(r.value) == 2)


def event(c, content):
    """ComCatInfo of an event with that content"""
    text = json.dumps(content) if c.concrete else content
    asked = []

    def get(url, timeout=None):
        asked.append(url)
        return text
    if c.concrete:
        with mock.patch(M + '._get_url_data', get), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = c.call(c.fn(M, 'ComCatInfo'), 'us1')
    else:
        class js:
            loads = staticmethod(lambda t: t)
        if not c.stub(M, '_get_url_data', get) or not c.stub(M, 'json', js):
            raise Unsupported('module attributes')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = c.call(c.fn(M, 'ComCatInfo'), 'us1')
        if not r.ok:
            raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
    c.ensures('the event asked for', r.ok and len(asked) == 1 and asked[0].endswith('/us1.geojson'))
    return r.value


@contract('N01', 'event_parameters', [CC + '.' + f for f in ('__init__', 'getEventParams', 'getLocation', 'getTsunami', 'getURL')], budget=60)
def event_parameters(c):
    lat, lon, depth, mag = c.real('lat', -90, 90), c.real('lon', -180, 180), c.real('depth', -5, 700), c.real('mag', -2, 10)
    ms = c.int('time', -2208988800000, 4102444800000)
    place, url, ts = c.text('place'), c.text('url'), c.int('tsunami', 0, 1)
    ev = event(c, dict(id='us1', geometry=dict(coordinates=[lon, lat, depth]), properties=dict(time=ms, mag=mag, place=place, url=url, tsunami=ts)))
    if not c.concrete:
        class When:
            @staticmethod
            def utcfromtimestamp(s):
                return ('second', s)
        if not c.stub(M, 'datetime', When):
            raise Unsupported('module attribute datetime')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = c.call(ev.getEventParams)
    if not r.ok and not c.concrete:
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
    c.ensures('no error', r.ok)
    d = r.value
    c.ensures('position, depth and magnitude', c.and_(c.eq(d['lat'], lat), c.eq(d['lon'], lon), c.eq(d['depth'], depth), c.eq(d['magnitude'], mag)))
    if c.concrete:
        e = (d['time'] - dt.datetime(1970, 1, 1)).total_seconds()
        c.ensures('the time to the second', abs(e - ms / 1000) < 1)
    else:
        c.assumed('datetime.utcfromtimestamp gives the UTC time of a number of seconds')
        s = d['time'][1]
        c.ensures('the time to the second', c.and_(c.lt(s * 1000 - ms, 1000), c.lt(-1000, s * 1000 - ms)))
    for f, v in (('getLocation', place), ('getTsunami', ts), ('getURL', url)):
        r = c.call(getattr(ev, f))
        c.ensures(f + ' as the service says', r.ok and (r.value == v))


@contract('N01', 'sources', [CC + '.getAssociatedIds', CC + '.getAssociatedSources'], kind='bounded', budget=120, max_paths=20000,
          bound='proof for events of up to two ids and three sources with any texts; sampled beyond')
def sources(c):
    """each id is matched with the longest source that begins it, in the order of the ids"""
    if c.concrete:
        r = c.rng
        pool = ['us', 'ci', 'at', 'atlas', 'nc', 'nn', 'official', 'usp', 'c', 'iscgem', 'u']
        srcs = r.sample(pool, r.randint(1, 6))
        ids = [r.choice(srcs) + ''.join(r.choice(['0', '1', '23', 'a', 'b', r.choice(pool)]) for _ in range(r.randint(1, 6))) for _ in range(r.randint(1, 6))]
        ids = list(dict.fromkeys(ids))
        auth = r.choice(ids)
        wrap = lambda l: (',' if r.random() < .8 else '') + ','.join(l) + (',' if r.random() < .8 else '')
        content = dict(id=auth, properties=dict(ids=wrap(ids), sources=wrap(srcs)))
    else:
        n, m = c.choice('ids', [1, 2]), c.choice('sources', [1, 2, 3])

        class Source:
            """a text of unknown content; sources differ from one another"""
            def __init__(self, j):
                self.j, self.n = j, c.int(f'length{j}', 1, 50)

            def slen(self):
                return self.n

        class Id:
            def __init__(self, i):
                self.i = i
                self.pre = [c.bool(f'id{i} begins with source{j}') for j in range(m)]
                self.has = [c.or_(self.pre[j], c.bool(f'id{i} holds source{j}')) for j in range(m)]

            def __contains__(self, s):
                if not isinstance(s, Source):
                    raise Unsupported('in')
                return c.split(self.has[s.j])

            def startswith(self, s):
                if not isinstance(s, Source):
                    raise Unsupported('startswith')
                return self.pre[s.j]
        ids, srcs = [Id(i) for i in range(n)], [Source(j) for j in range(m)]
        for e in ids:
            c.requires(c.or_(*e.pre))
            for i in range(m):
                for j in range(i):      # two beginnings of one text of the same length are the same text
                    c.requires(c.not_(c.and_(e.pre[i], e.pre[j], c.eq(srcs[i].n, srcs[j].n))))
        auth = ids[0] if c.flag('first') else ids[-1]

        class Listed:
            def __init__(self, l):
                self.l = l

            def strip(self, ch=None):
                return self

            lstrip = rstrip = strip

            def split(self, ch=None):
                return list(self.l)

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                raise Unsupported('text method ' + n)
        content = dict(id=auth, properties=dict(ids=Listed(ids), sources=Listed(srcs)))
    ev = event(c, content)
    others = [x for x in ids if x is not auth] if not c.concrete else [x for x in ids if x != auth]
    r = c.call(ev.getAssociatedIds)
    if not r.ok and not c.concrete:
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
    c.ensures('the authoritative id and all the others in order', r.ok and r.value[0] == auth and len(r.value[1]) == len(others))
    c.ensures('all the others in order', c.and_(*[a == b for a, b in zip(r.value[1], others)]) if others else True)
    r = c.call(ev.getAssociatedSources)
    if not r.ok and not c.concrete:
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
    c.ensures('a source for each', r.ok and len(r.value[1]) == len(others))
    ln = (lambda s: len(s)) if c.concrete else (lambda s: s.slen())
    for e, s in zip([auth] + others, [r.value[0]] + list(r.value[1])):
        c.ensures('the id begins with its source', e.startswith(s))
        c.ensures('one of the sources', c.or_(*[s == x for x in srcs]))
        for x in srcs:
            c.ensures('no longer source begins it', c.implies(e.startswith(x), c.le(ln(x), ln(s))))


@contract('N01', 'shake_grid', [CC + '.getShakeGrid', CC + '.__init__', M + '._get_url_data'], kind='concrete', trials=60, seconds=4, bound='sampled contents and outages')
def shake_grid(c):
    r = c.rng
    has = r.random() < .7
    content = dict(id='us1', properties=dict(products={}))
    if has:
        content['properties']['products']['shakemap'] = [dict(contents={'download/grid.xml': dict(url=f'http://x/{k}.xml')}) for k in range(r.randint(1, 3))]
    elif r.random() < .5:
        content['properties']['products']['shakemap'] = [dict(contents={})]
    ev = event(c, content)
    x = c.call(ev.getShakeGrid)
    c.ensures('the address of the preferred grid, or None', x.ok and x.value == ('http://x/0.xml' if has else None))
    out = os.path.join(c.tmpdir(), 'grid.xml')
    fate = r.choice(['text', 'text', 404, 503, 'gone'])
    seen = []

    def urlopen(url, *a, **k):
        seen.append(url)
        if fate == 'text':
            return io.BytesIO('<grid>é</grid>'.encode())
        raise HTTPError(url, fate, 'no', {}, io.BytesIO()) if fate != 'gone' else URLError('x')
    with mock.patch('urllib.request.urlopen', urlopen), mock.patch('time.sleep', lambda s: None):
        x = c.call(ev.getShakeGrid, local_file=out)
        y = c.call(c.fn(M, 'ComCatInfo'), 'us2') if fate != 'text' else None
    c.ensures('no error', x.ok)
    if has and fate == 'text':
        c.ensures('the file holds the grid', x.value == out and open(out, encoding='utf-8').read() == '<grid>é</grid>' and set(seen) == {'http://x/0.xml'})
    else:
        c.ensures('None when there is no grid or no connection', x.value is None)
        c.ensures('and no file', not os.path.exists(out))
    if y is not None:
        c.ensures('an event that cannot be had is an error', not y.ok)
