"""C05: bodies move rigidly with their pose."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['induction over the sequence of moves and pose changes: every step starts from an arbitrary state satisfying the invariant verts[i] = R(angle) offset[i] and ends in one']


def pose_is(k, b, exp, what):
    k.same('p: ' + what, k.attr(b, 'p'), exp)
    k.same('rot is the angle', k.attr(b, 'rot'), exp[:1])
    k.same('pos is the position', k.attr(b, 'pos'), exp[1:])


def moved(k, b, n):
    """move or set the pose; the pose expected"""
    v0 = k.attr(b, 'v').terms()
    p0 = k.attr(b, 'p').terms()
    if k.it.choose():
        dt = k.ten('dt') if k.it.choose() else k.real('dt')
        k.inv(b, 'move', dt)
        exp = [T.add(p, T.mul(v, T.var('dt'))) for p, v in zip(p0, v0)]
    else:
        q = k.vec('new_p', 3); exp = q.terms()
        if k.it.choose(): k.inv(b, 'set_p', q)
        else: k.inv(b, 'set_p', q, update_geom_rotation=False)
    pose_is(k, b, exp, 'p + v dt / the given pose')
    k.same('the velocity does not change', k.attr(b, 'v'), v0)
    return exp


@contract(CONTRACTS, 'circles', ['bodies.Body.move', 'bodies.Body.set_p', 'bodies.Circle.move', 'bodies.Circle.set_p'])
def circ(k):
    b = circle(k, 'b')
    pose_is(k, b, k.vec('b.p', 3).terms(), 'as given')
    p = k.vec('any', 3)
    k.inv(b, 'set_p', p)
    moved(k, b, 'b')


@contract(CONTRACTS, 'polygons with any number of vertices', ['bodies.Hull.set_p', 'bodies.Hull.move', 'bodies.Hull.rotate_verts', 'utils.rotation_matrix'], divisors=False)
def hulls(k):
    b, nv = moved_hull(k)
    exp = moved(k, b, 'h')
    i = skolem(k, 'i', nv)
    vs = k.attr(b, 'verts')
    k.ensure('number of vertices', T.eq(vs.n, nv))
    o = vec2('h.off')(i)
    k.same('vertex i', vs.elem(i), list(rot2(exp[0], o.at(Z), o.at(ONE))))


@contract(CONTRACTS, 'rectangles', ['bodies.Rect.set_p', 'bodies.Rect.move', 'bodies.Rect.rotate_verts', 'bodies.Rect.__init__'])
def rects(k):
    b = rect(k, 'b')
    w, h = [T.div(t, T.num(2)) for t in k.vec('b.dims', 2).terms()]
    off = [(w, h), (T.neg(w), h), (T.neg(w), T.neg(h)), (w, T.neg(h))]
    def verts(a):
        vs = k.it.iter(k.attr(b, 'verts'))
        k.ensure('four vertices', len(vs) == 4)
        for j, v in enumerate(vs): k.same('vertex %d' % j, v, list(rot2(a, *off[j])))
    verts(T.var('b.p[0]'))
    pose_is(k, b, k.vec('b.p', 3).terms(), 'as given')
    p = k.vec('any', 3)
    k.inv(b, 'set_p', p)
    verts(T.var('any[0]'))
    exp = moved(k, b, 'b')
    verts(exp[0])


@contract(CONTRACTS, 'rectangles given by position only', ['bodies.Rect.__init__'])
def rect2(k):
    d = k.vec('dims', 2)
    for t in d.terms(): k.require(T.lt(T.num(0), t))
    b = k.call(k.cls('bodies', 'Rect'), k.vec('pos', 2), d)
    pose_is(k, b, [T.num(0)] + k.vec('pos', 2).terms(), 'angle 0')
    w, h = [T.div(t, T.num(2)) for t in d.terms()]
    for v, o in zip(k.it.iter(k.attr(b, 'verts')), [(w, h), (T.neg(w), h), (T.neg(w), T.neg(h)), (w, T.neg(h))]): k.same('vertex', v, list(o))


@contract(CONTRACTS, 'rotation matrix is the counter-clockwise rotation', ['utils.rotation_matrix'])
def rotm(k):
    a = k.ten('a')
    m = k.call(k.cls('utils', 'rotation_matrix'), a)
    x = k.vec('x', 2)
    r = matmul(m, x)
    k.same('R x', r, list(rot2(T.var('a'), *x.terms())))
