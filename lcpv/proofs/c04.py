"""C04: joint Jacobians express the velocity constraint of every joint."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['a two-body joint connects two different bodies']


def rows(k, J, w):
    """J applied to one body's velocity (angular, x, y)"""
    return [T.add(*[T.mul(J.at(n_(r), n_(c)), w[c]) for c in range(3)]) for r in range(J.shape_[0])]


def pointvel(w, off): return [T.sub(w[1], T.mul(w[0], off[1])), T.add(w[2], T.mul(w[0], off[0]))]


def joint(k, two, fixed=False):
    b1 = circle(k, 'a'); b2 = circle(k, 'b') if two else None
    M = 'constraints'
    if fixed: j = k.call(k.cls(M, 'FixedJoint'), b1, b2)
    else: j = k.call(k.cls(M, 'Joint'), b1, b2, k.list(k.real('x'), k.real('y')))
    k.set(j, 'pos1', k.vec('pos1', 2))
    if two: k.set(j, 'pos2', k.vec('pos2', 2))
    return j


@contract(CONTRACTS, 'revolute joint', ['constraints.Joint.J', 'constraints.Joint.__init__'])
def revolute(k):
    two = k.it.choose()
    j = joint(k, two)
    J1, J2 = k.inv(j, 'J')
    w1, w2 = k.vec('w1', 3).terms(), k.vec('w2', 3).terms()
    k.ensure('declares two constraints', T.eq(t_of(k.attr(j, 'num_constraints')), TWO))
    k.ensure('two rows', J1.shape_ == (2, 3))
    r = rows(k, J1, w1); e = pointvel(w1, k.vec('pos1', 2).terms())
    if two:
        k.ensure('two rows for body 2', J2.shape_ == (2, 3))
        r = [T.add(a, b) for a, b in zip(r, rows(k, J2, w2))]
        e = [T.sub(a, b) for a, b in zip(e, pointvel(w2, k.vec('pos2', 2).terms()))]
    else: k.ensure('no second block', J2 is None)
    k.same('velocity of the anchor on body 1 minus on body 2', r, e)


@contract(CONTRACTS, 'fixed joint', ['constraints.FixedJoint.J', 'constraints.FixedJoint.__init__'])
def fixed(k):
    j = joint(k, True, True)
    J1, J2 = k.inv(j, 'J')
    w1, w2 = k.vec('w1', 3).terms(), k.vec('w2', 3).terms()
    k.ensure('declares three constraints', T.eq(t_of(k.attr(j, 'num_constraints')), THREE))
    k.ensure('three rows', J1.shape_ == (3, 3) and J2.shape_ == (3, 3))
    r = [T.add(a, b) for a, b in zip(rows(k, J1, w1), rows(k, J2, w2))]
    e = [T.sub(a, b) for a, b in zip(pointvel(w1, k.vec('pos1', 2).terms()), pointvel(w2, k.vec('pos2', 2).terms()))] + [T.sub(w1[0], w2[0])]
    k.same('relative velocity of the anchor and of the angles', r, e)


@contract(CONTRACTS, 'constraints of one body', ['constraints.XConstraint', 'constraints.YConstraint', 'constraints.RotConstraint', 'constraints.TotalConstraint'])
def single(k):
    b = circle(k, 'a')
    w = k.vec('w', 3).terms()
    for n, e in (('XConstraint', [w[1]]), ('YConstraint', [w[2]]), ('RotConstraint', [w[0]]), ('TotalConstraint', w)):
        j = k.call(k.cls('constraints', n), b)
        J1, J2 = k.inv(j, 'J')
        k.ensure(n + ': no second body', J2 is None)
        k.ensure(n + ': declared rows', T.eq(t_of(k.attr(j, 'num_constraints')), n_(len(e))))
        k.ensure(n + ': rows', J1.shape_ == (len(e), 3))
        k.same(n, rows(k, J1, w), e)


def abs_joints(k, w, nb):
    """any number of joints of any kind"""
    nj = k.int('nj', 0)
    nc = lambda q: T.app('nc', (q,), 'I')
    i1 = lambda q: T.app('i1', (q,), 'I')
    i2 = lambda q: T.app('i2', (q,), 'I')
    has = lambda q: T.app('two', (q,), 'B')
    q = T.var('#q', 'I')
    k.require(T.forall(q, Z, nj, T.and_(T.le(T.num(1, 'I'), nc(q)), T.le(Z, i1(q)), T.lt(i1(q), nb), T.implies(has(q), T.and_(T.le(Z, i2(q)), T.lt(i2(q), nb), T.ne(i1(q), i2(q)))))))
    J1 = lambda o: FT.fn((nc(o.k), 3), lambda r, c: T.app('J1', (o.k, r, c)), 'f64')
    J2 = lambda o: FT.fn((nc(o.k), 3), lambda r, c: T.app('J2', (o.k, r, c)), 'f64')
    fam = Family('joint', nj, None, {}, dict(J=lambda it, o: (J1(o), I.Opt(has(o.k), J2(o)))))
    k.set(w, 'joints', I.SList(nj, lambda q: (SymObj(fam, q), SV(i1(q)), I.Opt(has(q), SV(i2(q))))))
    P = k.prefix('rows', nc, nj)
    k.set(w, 'num_constraints', SV(P(nj)))
    return nj, nc, i1, i2, has, P


@contract(CONTRACTS, 'Je stacks the rows of all joints in the columns of their bodies', ['world.World.Je'], budget=200)
def je(k):
    w, fam, nb = abs_world(k)
    m3 = T.mul(THREE, nb)
    k.set(w, '_M', k.ten('M', (m3, m3)))
    nj, nc, i1, i2, has, P = abs_joints(k, w, nb)
    J = k.inv(w, 'Je')
    k.ensure('as many rows as the joints declare', T.eq(tt(J.shape_[0]), P(nj)))
    k.ensure('three columns per body', T.eq(tt(J.shape_[1]), m3))
    q = skolem(k, 'q', nj); r = skolem(k, 'r', nc(q)); b = skolem(k, 'b', nb)
    for c in range(3):
        e = T.ite(T.eq(b, i1(q)), T.app('J1', (q, r, n_(c))), T.ite(T.and_(has(q), T.eq(b, i2(q))), T.app('J2', (q, r, n_(c))), T.num(0)))
        k.ensure('row r of joint q, column %d of body b' % c, T.eq(J.at(T.add(P(q), r), T.add(T.mul(THREE, b), n_(c))), e))
