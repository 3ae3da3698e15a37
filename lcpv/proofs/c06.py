"""C06: mass properties are those of the uniform shape."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['the centroid of a convex polygon sees every edge counter-clockwise (used for the inertia of polygons only)']


def tn(k, name):
    """a quantity given as a tensor or as a plain number"""
    return k.ten(name) if k.it.choose() else k.real(name)


def mass_matrix(k, b, inertia, m):
    M = k.attr(b, 'M')
    k.ensure('3 by 3', M.shape_ == (3, 3))
    k.same('mass matrix', M, [inertia, T.num(0), T.num(0), T.num(0), m, T.num(0), T.num(0), T.num(0), m])
    k.same('inertia', k.attr(b, 'ang_inertia'), [inertia])
    k.same('mass', k.attr(b, 'mass'), [m])


@contract(CONTRACTS, 'circle', ['bodies.Circle._get_ang_inertia', 'bodies.Body.__init__'])
def circ(k):
    r = tn(k, 'r'); m = tn(k, 'm')
    pos = k.vec('p', 2) if k.it.choose() else k.list(k.real('x'), k.real('y'))
    b = k.call(k.cls('bodies', 'Circle'), pos, r, mass=m)
    m, r = T.var('m'), T.var('r')
    mass_matrix(k, b, T.div(T.mul(m, T.mul(r, r)), T.num(2)), m)


@contract(CONTRACTS, 'rectangle', ['bodies.Rect._get_ang_inertia', 'bodies.Rect.__init__', 'bodies.Body.__init__'])
def rec(k):
    m = tn(k, 'm')
    d = k.vec('dims', 2)
    w, h = d.terms()
    for t in (w, h): k.require(T.lt(T.num(0), t))
    if k.it.choose(): d = k.list(wrap(w), wrap(h)); k.plain('dims[0]', 'dims[1]')
    n = 3 if k.it.choose() else 2
    b = k.call(k.cls('bodies', 'Rect'), k.vec('p', n), d, mass=m)
    m = T.var('m')
    mass_matrix(k, b, T.div(T.mul(m, T.add(T.mul(w, w), T.mul(h, h))), T.num(12)), m)
    k.same('position', k.attr(b, 'pos'), k.vec('p', n).terms()[-2:])


def nxt(i, n): return T.imod(T.add(i, ONE), n)
def cross(a, b): return T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))
def dot(a, b): return T.add(T.mul(a[0], b[0]), T.mul(a[1], b[1]))


def polygon(k, plain):
    nv = k.int('nv', 0)
    V = lambda i: [T.app('V', (i, n_(0))), T.app('V', (i, n_(1)))]
    if plain: k.plain('V')
    el = (lambda i: k.list(*[wrap(x) for x in V(i)])) if plain else (lambda i: frozen(FT.fn((2,), lambda c: T.app('V', (i, c)), k.dtype)))
    return nv, V, I.SList(nv, el)


def edge_sum(nv, f):
    bv = T.fresh_bv()
    return T.summ(bv, Z, nv, f(bv, nxt(bv, nv)))


def area2(nv, V): return edge_sum(nv, lambda i, j: cross(V(i), V(j)))


def own_inertia(k):
    """the contract of _get_ang_inertia (proved below) instead of its body"""
    seen = []
    def spec(it, a, kw):
        seen.append(a); return FT.fn((), lambda: T.var('inertia'), k.dtype)
    k.it.fspecs['Hull._get_ang_inertia'] = spec
    return seen


@contract(CONTRACTS, 'polygons are accepted exactly if they have at least three vertices in the accepted orientation', ['bodies.Hull.__init__', 'bodies.Hull._is_clockwise'])
def accepted(k):
    nv, V, vs = polygon(k, k.it.choose())
    own_inertia(k)
    try:
        k.call(k.cls('bodies', 'Hull'), k.vec('ref', 2), vs); ok = True
    except IRaise as e:
        if e.name != 'AssertionError': raise
        ok = False
    good = T.and_(T.le(THREE, nv), T.lt(T.num(0), area2(nv, V)))
    k.ensure('accepted iff at least three vertices and positive area', T.eq(T.boolc(ok), good))


@contract(CONTRACTS, 'polygon: centroid, vertices and mass matrix', ['bodies.Hull.__init__', 'bodies.Hull._get_centroid', 'bodies.Body.__init__'])
def centre(k):
    nv, V, vs = polygon(k, k.it.choose())
    k.require(T.le(THREE, nv)); A2 = area2(nv, V); k.require(T.lt(T.num(0), A2))
    ref = k.vec('ref', 2)
    m = tn(k, 'm')
    seen = own_inertia(k)
    b = k.call(k.cls('bodies', 'Hull'), ref, vs, mass=m)
    if not seen: raise Unsupported('the inertia is not computed by _get_ang_inertia')
    C = [T.div(edge_sum(nv, lambda i, j: T.mul(T.add(V(i)[c], V(j)[c]), cross(V(i), V(j)))), T.mul(THREE, A2)) for c in (0, 1)]
    k.same('the position is the area centroid', k.attr(b, 'p'), [T.num(0)] + [T.add(r, c) for r, c in zip(ref.terms(), C)])
    k.same('pos', k.attr(b, 'pos'), k.attr(b, 'p').terms()[1:])
    l = k.attr(b, 'verts')
    k.ensure('as many vertices', T.eq(l.n, nv))
    i = skolem(k, 'i', nv)
    k.same('vertex i keeps its world position', [T.add(x, p) for x, p in zip(l.elem(i).terms(), k.attr(b, 'pos').terms())], [T.add(r, v) for r, v in zip(ref.terms(), V(i))])
    for s, mm in seen:
        k.same('the inertia is that of the mass', mm, [T.var('m')])
        k.same('the inertia is that of the centred vertices', s.attrs['verts'].elem(i), l.elem(i).terms())
    mass_matrix(k, b, T.var('inertia'), T.var('m'))


@contract(CONTRACTS, 'convex polygon: inertia about the centroid', ['bodies.Hull._get_ang_inertia'])
def inertia(k):
    nv, V, vs = polygon(k, False)
    k.require(T.le(THREE, nv))
    bv = T.fresh_bv()
    k.require(T.forall(bv, Z, nv, T.le(T.num(0), cross(V(bv), V(nxt(bv, nv))))))
    k.require(T.lt(T.num(0), area2(nv, V)))
    b = k.obj(k.cls('bodies', 'Hull'), verts=vs)
    r = k.inv(b, '_get_ang_inertia', k.ten('m'))
    num = edge_sum(nv, lambda i, j: T.mul(cross(V(i), V(j)), T.add(dot(V(i), V(i)), dot(V(i), V(j)), dot(V(j), V(j)))))
    k.same('polygon formula', r, [T.div(T.mul(T.var('m'), num), T.mul(T.num(6), area2(nv, V)))])
