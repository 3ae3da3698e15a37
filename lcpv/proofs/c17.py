"""C17: the broadphase never misses a pair within the contact margin."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['ODE: a hash space hands every pair of geoms whose bounding boxes overlap to the callback exactly once; a geom\'s bounding box contains the geom']
M = ['bodies.Circle._create_geom', 'bodies.Hull._create_geom', 'bodies.Rect._create_geom', 'bodies.Body.set_p', 'bodies.Body.move']


def margin(k):
    """the margin given to the constructor: a number or a tensor"""
    e = k.ten('eps') if k.it.choose() else k.real('eps')
    k.require(T.le(T.num(0), T.var('eps')))
    return e


def update(k, b):
    """any pose change: set_p or a move, each in the ways a caller may ask for it"""
    how = k.it.choose(3)
    if how == 0: return
    if how == 1: k.inv(b, 'set_p', k.vec('np', 3))
    else:
        k.set(b, 'v', k.vec('nv', 3))
        k.inv(b, 'move', k.real('dt'))


def centred(k, b, g):
    k.ensure('the volume belongs to the body', k.attr(b, 'geom') is g)
    x, y = k.attr(b, 'pos').terms()
    k.ensure('it has a position', g.pos is not None)
    if g.pos is not None: k.same('centre', [wrap(T.strip_det(t, {})) for t in g.pos], [x, y, T.num(0)])


@contract(CONTRACTS, 'circle: sphere of radius + margin around the centre, at all times', M, divisors=False)
def circ(k):
    b = circle(k, 'b', eps=margin(k)); g = k.attr(b, 'geom')
    if not isinstance(g, S.Geom) or g.kind != 'sphere': raise Unsupported('volume of another kind')
    update(k, b)
    centred(k, b, g)
    k.ensure('contains the circle and its margin', T.le(T.add(T.var('b.rad'), T.var('eps')), T.strip_det(g.size[0], {})))


@contract(CONTRACTS, 'hull: a sphere around the position containing every vertex and the margin, at all times', M, divisors=False, budget=200)
def hl(k):
    cen = k.vec('cen', 2)
    k.it.fspecs['Hull._get_centroid'] = lambda it, a, kw: cen         # whatever the centroid is (C06)
    b, nv = hull(k, 'b', eps=margin(k)); g = k.attr(b, 'geom')
    if not isinstance(g, S.Geom) or g.kind != 'sphere': raise Unsupported('volume of another kind')
    i = skolem(k, 'i', nv)
    x, y = k.it.getitem(k.attr(b, 'verts'), SV(i)).terms()
    rest = T.sub(T.strip_det(g.size[0], {}), T.var('eps'))
    m = T.mul(rest, rest)
    d2 = T.add(T.mul(x, x), T.mul(y, y))
    k.have('vertex i is inside when the hull is made', T.le(d2, m))
    update(k, b)
    centred(k, b, g)
    x, y = k.it.getitem(k.attr(b, 'verts'), SV(i)).terms()
    k.have('the distance of vertex i stays', T.eq(T.add(T.mul(x, x), T.mul(y, y)), d2))
    k.ensure('the sphere reaches beyond the margin', T.le(T.num(0), rest))
    k.ensure('vertex i and its margin are inside', T.le(T.add(T.mul(x, x), T.mul(y, y)), T.mul(rest, rest)))


@contract(CONTRACTS, 'rectangle: a box with its dimensions + margin on every side, at its pose at all times', M, divisors=False)
def rc(k):
    # the angle of the pose is 2h, so that the half angle of the quaternion is h
    h0, h1 = T.var('h0'), T.var('h1')
    two = T.num(2)
    d = k.vec('b.dims', 2)
    for t in d.terms(): k.require(T.lt(T.num(0), t))
    p0 = k.vec('b.p', 2) if k.it.choose() else FT.fn((3,), lambda j: [T.mul(two, h0), T.var('b.p[0]'), T.var('b.p[1]')][int(T.val(j))], k.dtype)
    b = k.call(k.cls('bodies', 'Rect'), p0, d, eps=margin(k)); g = k.attr(b, 'geom')
    if not isinstance(g, S.Geom) or g.kind != 'box': raise Unsupported('volume of another kind')
    h = h0 if p0.shape_[0] == 3 else T.num(0)
    how = k.it.choose(3)
    if how == 1:
        h = h1
        k.inv(b, 'set_p', FT.fn((3,), lambda j: [T.mul(two, h1), T.var('np0'), T.var('np1')][int(T.val(j))], k.dtype))
    elif how == 2:
        dt = T.var('dt')
        k.set(b, 'v', FT.fn((3,), lambda j: [T.mul(two, h1), T.var('nv0'), T.var('nv1')][int(T.val(j))], k.dtype))
        k.inv(b, 'move', SV(dt))
        h = T.add(h, T.mul(h1, dt))
    centred(k, b, g)
    for c in range(2): k.ensure('length %d' % c, T.le(T.add(d.terms()[c], T.mul(two, T.var('eps'))), T.strip_det(g.size[c], {})))
    k.ensure('height', T.lt(T.num(0), T.strip_det(g.size[2], {})))
    w, x, y, z = [T.strip_det(t, {}) for t in g.quat] if g.quat else (T.num(1), T.num(0), T.num(0), T.num(0))
    k.same('a rotation about the vertical axis', [wrap(x), wrap(y)], [T.num(0)] * 2)
    k.ensure('unit quaternion', T.eq(T.add(T.mul(w, w), T.mul(z, z)), T.num(1)))
    # the axis of the box is parallel to the axis of the rectangle (a box is the same after half a turn)
    c, s = T.cos(h), T.sin(h)
    C, S_ = T.sub(T.mul(c, c), T.mul(s, s)), T.mul(two, T.mul(s, c))
    k.ensure('orientation', T.eq(T.mul(T.sub(T.mul(w, w), T.mul(z, z)), S_), T.mul(T.mul(two, T.mul(w, z)), C)))
    k.same('the angle of the pose', k.attr(b, 'rot'), [T.mul(two, h)])


@contract(CONTRACTS, 'find_contacts: one complete detection with fresh contacts', ['world.World.find_contacts'])
def detect(k):
    calls = []
    w, fam, nb = abs_world(k)
    sp = k.call(I.Native(lambda: S.Space()))
    cb = k.obj(None)
    k.set(w, 'space', sp); k.set(w, 'contact_callback', cb)
    old = k.int('nold', 0)
    k.set(w, 'contacts', I.SList(old, lambda q: ((None, None, None, None), None, None)))
    def collide(space, arg, f):
        calls.append(1)
        k.ensure('the world\'s broadphase', space is sp)
        k.ensure('the world\'s contact handler', f is cb)
        a = k.it.iter(arg)
        k.ensure('for this world', len(a) > 0 and a[0] is w)
        c = k.attr(w, 'contacts')
        k.ensure('old contacts are gone', isinstance(c, I.PList) and not I.is_sym(c) and len(c.items) == 0)
        k.set(w, 'contacts', k.list('found'))
    k.it.collide = collide
    k.inv(w, 'find_contacts')
    k.ensure('one detection', len(calls) == 1)
    c = k.attr(w, 'contacts')
    k.ensure('what the handler recorded is kept', isinstance(c, I.PList) and not I.is_sym(c) and c.items == ('found',))


@contract(CONTRACTS, 'every body of a world is in its broadphase once', ['world.World.__init__'], budget=200)
def registered(k):
    from . import c21
    c21.init(k)
