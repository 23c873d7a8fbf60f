"""O01  Origins, mechanism, rake and dip."""
from pyvc.harness import contract

M, U = 'impactutils.rupture.origin', 'impactutils.rupture.utils'
INIT, SET, MECH = M + '.Origin.__init__', M + '.Origin.setMechanism', U + '.rake_to_mech'
REQ = ['id', 'netid', 'network', 'lat', 'lon', 'depth', 'locstring', 'mag', 'time']
RAKE = {'SS': 0.0, 'NM': -90.0, 'RS': 90.0, 'ALL': 0.0}
ABSENT = object()


def event(c):
    e = {'id': 'us1', 'netid': 'us', 'network': 'net', 'locstring': 'here', 'time': 'T'}
    e['lat'] = c.real('lat', -400, 400, special=(90, -90, 90.0000001, -90.0000001, 0, 180, -180))
    e['lon'] = c.real('lon', -400, 400, special=(180, -180, 180.0000001, -180.0000001, 0, 90, -90))
    e['depth'] = c.real('depth', -10, 1000)
    e['mag'] = c.real('mag', -2, 10)
    return e


@contract('O01', 'created_exactly_when_valid', [INIT])
def created(c):
    e = event(c)
    what = c.choice('what', ['id', 'mech', 'plain'])
    oid, ident_ok = 'us1', True
    mech, typ = ABSENT, ABSENT
    if what == 'id':
        oid, ident_ok = c.choice('ident', [(None, True), ('', True), (5, False), (b'us1', False), (1.5, False), (['us1'], False)])
        e['id'] = oid
    elif what == 'mech':
        mech = c.choice('mech', [ABSENT, '', 'SS', 'NM', 'RS', 'ALL', 'XX', 'ss', None, 'SS '])
        typ = c.choice('type', [ABSENT, '', 'SS', 'NM', 'RS', 'ALL', 'bad'])
        if mech is not ABSENT:
            e['mech'] = mech
        if typ is not ABSENT:
            e['type'] = typ
    rk = ABSENT
    if c.flag('rake_given'):
        if what == 'plain' and c.flag('rake_text'):
            e['rake'], rk = c.choice('text', [('-30.5', -30.5), (' 90 ', 90.0), ('1.5e1', 15.0), (45, 45)])
        else:
            rk = e['rake'] = c.real('rake', -360, 360)
    e['extra'] = 'kept'
    given = dict(e)
    r = c.call(c.fn(M, 'Origin'), e)
    inside = c.and_(e['lat'] >= -90, e['lat'] <= 90, e['lon'] >= -180, e['lon'] <= 180)
    eff = typ if mech is ABSENT else mech
    if eff is ABSENT or eff == '':
        eff = 'ALL'
    mech_ok = eff in RAKE
    if not ident_ok:
        c.ensures('an id that is not text is a TypeError', r.raised(TypeError))
        return
    if not c.split(inside):
        c.ensures('latitude or longitude out of range is a ValueError', r.raised(ValueError))
        return
    if not mech_ok:
        c.ensures('an unknown mechanism is a ValueError', r.raised(ValueError))
        return
    c.ensures('a valid event gives an origin', r.ok)
    o = r.value
    c.ensures('mechanism', o.mech == eff)
    for k, v in given.items():
        if k in ('mech', 'type', 'rake'):
            continue
        c.ensures('every given value becomes an attribute', hasattr(o, k) and c.eq(getattr(o, k), v))
    c.ensures('rake is a number', not isinstance(o.rake, str))
    c.ensures('rake given or from the mechanism', c.eq(o.rake, rk if rk is not ABSENT else RAKE[eff]))


@contract('O01', 'required_keys', [INIT])
def required_keys(c):
    e = event(c)
    n = 0
    for k in REQ:
        if c.choice('drop', [1, 0]) if n < 2 else False:
            del e[k]
            n += 1
    miss = [k for k in REQ if k not in e]
    if c.flag('mech'):
        e['mech'] = 'bad'
    r = c.call(c.fn(M, 'Origin'), e)
    c.requires(bool(miss))
    c.ensures('a missing required key is a KeyError', r.raised(KeyError))
    c.ensures('the error names the missing keys', all(k in str(r.exc) for k in miss))


def origin(c):
    O = c.fn(M, 'Origin')
    return O({'id': 'us1', 'netid': 'us', 'network': 'net', 'locstring': 'here', 'time': 'T', 'lat': 10.0, 'lon': 20.0, 'depth': 5.0, 'mag': 6.0,
              'mech': 'RS'})


DEF = {'RS': (90.0, 40.0), 'NM': (-90.0, 50.0), 'SS': (0.0, 90.0), 'ALL': (45.0, 90.0)}


@contract('O01', 'set_mechanism', [SET])
def set_mechanism(c):
    o = origin(c)
    mech = c.choice('mech', ['RS', 'NM', 'SS', 'ALL', None, 'bad', ''])
    rake = c.real('rake', -1000, 1000, special=(180, -180, 181, -181, 360, -360, 540, -540, 541, -541, 0, 180.0000001)) if c.flag('with_rake') else None
    dip = c.real('dip', -200, 200, special=(0, 90, -1e-9, 90.0000001)) if c.flag('with_dip') else None
    before = dict(o.__dict__)
    kw = {}
    if rake is not None:
        kw['rake'] = rake
    if dip is not None:
        kw['dip'] = dip
    r = c.call(o.setMechanism, mech, **kw)
    bad = mech not in DEF
    if dip is not None and not bad:
        bad = c.split(c.or_(dip < 0, dip > 90))
    if rake is not None and not bad:
        bad = c.split(c.or_(rake < -540, rake > 540))
    if bad:
        c.ensures('refused with ValueError', r.raised(ValueError))
        c.ensures('the origin is untouched when refused',
                  set(o.__dict__) == set(before) and c.and_(*[c.eq(o.__dict__[k], v) for k, v in before.items()]))
        return
    c.ensures('accepted', r.ok)
    c.ensures('mechanism stored', o.mech == mech)
    c.ensures('dip given or default', c.eq(o.dip, DEF[mech][1] if dip is None else dip))
    c.ensures('dip in range', c.and_(o.dip >= 0, o.dip <= 90))
    if rake is None:
        c.ensures('default rake', c.eq(o.rake, DEF[mech][0]))
    else:
        c.ensures('rake in range', c.and_(o.rake >= -180, o.rake <= 180))
        c.ensures('rake folded by at most one turn', c.or_(c.eq(o.rake, rake), c.eq(o.rake, rake + 360), c.eq(o.rake, rake - 360)))
        c.ensures('a rake in range is kept', c.implies(c.and_(rake >= -180, rake <= 180), c.eq(o.rake, rake)))
    same = [k for k in before if k not in ('mech', 'rake', 'dip')]
    c.ensures('nothing else changes', c.and_(*[c.eq(o.__dict__[k], before[k]) for k in same]))


@contract('O01', 'rake_to_mechanism', [MECH])
def rake_to_mechanism(c):
    f = c.fn(U, 'rake_to_mech')
    c.ensures('no rake means ALL', f(None) == 'ALL')
    x = c.real('rake', -180, 180, special=(0, 30, -30, 31, 60, 59, 120, 121, 150, 149, 180, -180, -150, -149, -120, -60, -59, 90, -90, 45))
    m = f(x)
    if c.split(c.or_(c.abs(x) <= 30, c.abs(x) >= 150)):
        c.ensures('strike slip near 0 and +-180', m == 'SS')
    elif c.split(c.and_(x >= 60, x <= 120)):
        c.ensures('reverse near 90', m == 'RS')
    elif c.split(c.and_(x >= -120, x <= -60)):
        c.ensures('normal near -90', m == 'NM')
    else:
        c.ensures('ALL elsewhere', m == 'ALL')


@contract('O01', 'hypocentre', [M + '.Origin.getHypo'])
def hypo(c):
    e = event(c)
    c.requires(c.and_(e['lat'] >= -90, e['lat'] <= 90, e['lon'] >= -180, e['lon'] <= 180, e['depth'] > -8))
    p = c.fn(M, 'Origin')(e).getHypo()
    c.ensures('the hypocentre is the point of the origin',
              c.and_(c.eq(p.longitude, e['lon']), c.eq(p.latitude, e['lat']), c.eq(p.depth, e['depth'])))
