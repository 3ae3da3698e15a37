"""C19: joint anchors ride with their first body."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['induction over the sequence of moves: every move starts from an arbitrary state in which the accumulated angle is the initial one plus the turn of the body since construction',
           'joints are moved together with their bodies (World.step_dt, C13)']


def turned(k, j, bodies, names):
    """any later state: the bodies moved anywhere, the joint's angles turned with them"""
    for b, n, r in zip(bodies, names, ('rot1', 'rot2')):
        q = k.vec(n + '.q', 3); p0 = k.attr(b, 'p').terms()
        k.set(b, 'p', q); k.set(b, 'rot', q.index(slice(0, 1))); k.set(b, 'pos', q.index(slice(1, None)))
        if r in j.attrs and j.attrs[r] is not None: k.set(j, r, k.attr(j, r) + wrap(T.sub(q.terms()[0], p0[0])))


def advance(k, j, bodies, dt):
    """one move of the bodies and the joint, or a change of pose followed by update_pos"""
    for b in bodies: k.inv(b, 'move', dt)
    k.inv(j, 'move', dt)


@contract(CONTRACTS, 'anchor of a revolute joint', ['constraints.Joint.__init__', 'constraints.Joint.move', 'constraints.Joint.update_pos', 'utils.cart_to_polar', 'utils.polar_to_cart'])
def revolute(k):
    two = k.it.choose()
    a = circle(k, 'a'); b = circle(k, 'b') if two else None
    bodies = [a, b] if two else [a]
    j = k.call(k.cls('constraints', 'Joint'), a, b, k.list(k.real('x'), k.real('y')))
    X = [T.var('x'), T.var('y')]
    p0 = k.vec('a.p', 3).terms()
    off = [T.sub(x, p) for x, p in zip(X, p0[1:])]
    k.same('the anchor is the given point', k.attr(j, 'pos'), X)
    k.same('offset on body 1', k.attr(j, 'pos1'), off)
    if two: k.same('offset on body 2', k.attr(j, 'pos2'), [T.sub(x, p) for x, p in zip(X, k.vec('b.p', 3).terms()[1:])])
    turned(k, j, bodies, ['a', 'b'])
    if k.it.choose(): advance(k, j, bodies, k.real('dt'))
    else: k.inv(j, 'update_pos')
    pa = k.attr(a, 'p').terms()
    o = list(rot2(T.sub(pa[0], p0[0]), *off))
    e = [T.add(p, x) for p, x in zip(pa[1:], o)]
    k.same('the anchor is body 1 plus the turned offset', k.attr(j, 'pos'), e)
    k.same('offset on body 1 is the turned offset', k.attr(j, 'pos1'), o)
    if two: k.same('offset on body 2 is anchor minus body 2', k.attr(j, 'pos2'), [T.sub(x, p) for x, p in zip(e, k.attr(b, 'p').terms()[1:])])


@contract(CONTRACTS, 'accumulated angles of a revolute joint', ['constraints.Joint.move'])
def angles(k):
    two = k.it.choose()
    a = circle(k, 'a'); b = circle(k, 'b') if two else None
    bodies = [a, b] if two else [a]
    j = k.call(k.cls('constraints', 'Joint'), a, b, k.list(k.real('x'), k.real('y')))
    r = [k.ten('r1'), k.ten('r2')]
    k.set(j, 'rot1', r[0])
    if two: k.set(j, 'rot2', r[1])
    p = [k.attr(x, 'p').terms()[0] for x in bodies]
    advance(k, j, bodies, k.real('dt'))
    for i, x in enumerate(bodies):
        k.same('angle %d turns with body %d' % (i + 1, i + 1), k.attr(j, 'rot%d' % (i + 1)), [T.add(r[i].scalar(), T.sub(k.attr(x, 'p').terms()[0], p[i]))])
    if not two: k.ensure('no second angle', k.attr(j, 'rot2') is None)


@contract(CONTRACTS, 'anchor of a joint that prevents all motion', ['constraints.TotalConstraint.__init__', 'constraints.TotalConstraint.move', 'constraints.TotalConstraint.update_pos'])
def total(k):
    a = circle(k, 'a')
    j = k.call(k.cls('constraints', 'TotalConstraint'), a)
    k.same('anchor', k.attr(j, 'pos'), k.vec('a.p', 3).terms()[1:])
    turned(k, j, [a], ['a'])
    if k.it.choose(): advance(k, j, [a], k.real('dt'))
    else: k.inv(j, 'update_pos')
    k.same('the anchor follows the body', k.attr(j, 'pos'), k.attr(a, 'p').terms()[1:])


@contract(CONTRACTS, 'axis and rotation constraints follow their body', ['constraints.XConstraint', 'constraints.YConstraint', 'constraints.RotConstraint'])
def axis(k):
    a = circle(k, 'a')
    for n in ('XConstraint', 'YConstraint', 'RotConstraint'):
        j = k.call(k.cls('constraints', n), a)
        k.same(n, k.attr(j, 'pos'), k.attr(a, 'p').terms()[1:])
        q = k.vec(n + '.q', 3)
        k.inv(a, 'set_p', q)
        if k.it.choose(): advance(k, j, [a], k.real('dt'))
        else: k.inv(j, 'update_pos')
        k.same(n + ' position', k.attr(j, 'pos'), k.attr(a, 'p').terms()[1:])
        k.same(n + ' angle', k.attr(j, 'rot1'), k.attr(a, 'p').terms()[:1])


@contract(CONTRACTS, 'fixed joint follows its first body', ['constraints.FixedJoint.__init__', 'constraints.FixedJoint.move', 'constraints.FixedJoint.update_pos'])
def fixed(k):
    a, b = circle(k, 'a'), circle(k, 'b')
    j = k.call(k.cls('constraints', 'FixedJoint'), a, b)
    def check():
        pa, pb = k.attr(a, 'p').terms()[1:], k.attr(b, 'p').terms()[1:]
        k.same('anchor', k.attr(j, 'pos'), pa)
        k.same('offset 1', k.attr(j, 'pos1'), [T.num(0)] * 2)
        k.same('offset 2', k.attr(j, 'pos2'), [T.sub(x, y) for x, y in zip(pa, pb)])
    check()
    k.inv(a, 'set_p', k.vec('q', 3)); k.inv(b, 'set_p', k.vec('r', 3))
    if k.it.choose(): advance(k, j, [a, b], k.real('dt'))
    else: k.inv(j, 'update_pos')
    check()


@contract(CONTRACTS, 'polar form and back is the identity', ['utils.cart_to_polar', 'utils.polar_to_cart'])
def polar(k):
    v = k.vec('v', 2)
    how = k.it.choose(3)
    r, th = k.call(k.fn('utils', 'cart_to_polar'), v, *([], [True], [False])[how])
    k.same('identity', k.call(k.fn('utils', 'polar_to_cart'), r, th), v.terms())
    t = th.scalar()
    k.same('length', r, [T.sqrt(T.add(*[T.mul(x, x) for x in v.terms()]))])
    if how < 2: k.ensure('angle in [0, 2 pi)', T.and_(T.le(T.num(0), t), T.lt(t, T.mul(T.num(2), T.PI))))
    else: k.ensure('angle in (-pi, pi]', T.and_(T.lt(T.neg(T.PI), t), T.le(t, T.PI)))
