"""C03: contact Jacobians and coefficients describe every active contact."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['a contact involves two different bodies of the world, listed by their indices (C16, C17, C21)']


def contacts(k, w, nb):
    """any number of contacts between any bodies"""
    nc = k.int('nc', 0)
    i1 = lambda q: T.app('ci', (q,), 'I')
    i2 = lambda q: T.app('cj', (q,), 'I')
    N, P, Q = (lambda q, f=f: [T.app(f, (q, n_(0))), T.app(f, (q, n_(1)))] for f in ('cn', 'cp1', 'cp2'))
    bv = T.fresh_bv()
    k.require(T.forall(bv, Z, nc, T.and_(T.le(Z, i1(bv)), T.lt(i1(bv), nb), T.le(Z, i2(bv)), T.lt(i2(bv), nb), T.ne(i1(bv), i2(bv)))))
    d = k.dtype
    v = lambda f, q: frozen(FT.fn((2,), lambda c: T.app(f, (q, c)), d))
    pen = lambda q: frozen(FT.fn((), lambda: T.app('pen', (q,)), d))
    k.set(w, 'contacts', I.SList(nc, lambda q: ((v('cn', q), v('cp1', q), v('cp2', q), pen(q)), SV(i1(q)), SV(i2(q)))))
    return nc, i1, i2, N, P, Q


def world(k, **kw):
    w, fam, nb = abs_world(k, **kw)
    m3 = mul3(nb)
    k.set(w, '_M', k.ten('M', (m3, m3)))
    return w, fam, nb


def arm(p, n): return [T.sub(T.mul(p[0], n[1]), T.mul(p[1], n[0])), n[0], n[1]]


def check_block(k, name, J, row, b, i1, i2, e1, e2):
    """columns of body b in a row"""
    for c in range(3):
        e = T.ite(T.eq(b, i1), e1[c], T.ite(T.eq(b, i2), e2[c], T.num(0)))
        k.ensure('%s, column %d of any body' % (name, c), T.eq(J.at(row, T.add(mul3(b), n_(c))), e))


@contract(CONTRACTS, 'Jc: approach velocity of every contact', ['world.World.Jc', 'utils.cross_2d'])
def jc(k):
    w, fam, nb = world(k)
    nc, i1, i2, N, P, Q = contacts(k, w, nb)
    J = k.inv(w, 'Jc')
    k.ensure('one row per contact', T.eq(tt(J.shape_[0]), nc))
    k.ensure('three columns per body', T.eq(tt(J.shape_[1]), mul3(nb)))
    q = skolem(k, 'q', nc); b = skolem(k, 'b', nb)
    check_block(k, 'row of contact q', J, q, b, i1(q), i2(q), arm(P(q), N(q)), [T.neg(x) for x in arm(Q(q), N(q))])


@contract(CONTRACTS, 'Jf: plus and minus the tangential velocity of every contact', ['world.World.Jf', 'utils.left_orthogonal'])
def jf(k):
    w, fam, nb = world(k)
    nc, i1, i2, N, P, Q = contacts(k, w, nb)
    J = k.inv(w, 'Jf')
    k.ensure('two rows per contact', T.eq(tt(J.shape_[0]), T.mul(TWO, nc)))
    k.ensure('three columns per body', T.eq(tt(J.shape_[1]), mul3(nb)))
    q = skolem(k, 'q', nc); b = skolem(k, 'b', nb)
    n = N(q)
    for r, t in ((0, [n[1], T.neg(n[0])]), (1, [T.neg(n[1]), n[0]])):
        check_block(k, 'friction row %d of contact q' % r, J, T.add(T.mul(TWO, q), n_(r)), b, i1(q), i2(q), arm(P(q), t), [T.neg(x) for x in arm(Q(q), t)])


@contract(CONTRACTS, 'mu: mean friction coefficient', ['world.World.mu', 'world.World._memoized_mu'])
def mu(k):
    w, fam, nb = world(k)
    nc, i1, i2, N, P, Q = contacts(k, w, nb)
    m = k.inv(w, 'mu')
    k.ensure('square', T.and_(T.eq(tt(m.shape_[0]), nc), T.eq(tt(m.shape_[1]), nc)))
    q, r = skolem(k, 'q', nc), skolem(k, 'r', nc)
    f = lambda i: T.app('body.fric', (i,))
    k.ensure('diagonal of means', T.eq(m.at(q, r), T.ite(T.eq(q, r), T.div(T.add(f(i1(q)), f(i2(q))), T.num(2)), T.num(0))))


@contract(CONTRACTS, 'E: every contact bounds its own friction directions', ['world.World.E', 'world.World._memoized_E'])
def ee(k):
    w, fam, nb = world(k)
    nc, i1, i2, N, P, Q = contacts(k, w, nb)
    e = k.inv(w, 'E')
    k.ensure('size', T.and_(T.eq(tt(e.shape_[0]), T.mul(TWO, nc)), T.eq(tt(e.shape_[1]), nc)))
    q, r = skolem(k, 'q', nc), skolem(k, 'r', nc)
    for d in (0, 1):
        k.ensure('direction %d of q in column r' % d, T.eq(e.at(T.add(T.mul(TWO, q), n_(d)), r), T.ite(T.eq(q, r), T.num(1), T.num(0))))


@contract(CONTRACTS, 'restitution: mean of the two bodies', ['world.World.restitutions'])
def rest(k):
    w, fam, nb = world(k)
    nc, i1, i2, N, P, Q = contacts(k, w, nb)
    e = k.inv(w, 'restitutions')
    k.ensure('one per contact', len(e.shape_) == 1 and T.eq(tt(e.shape_[0]), nc))
    q = skolem(k, 'q', nc)
    f = lambda i: T.app('body.restitution', (i,))
    k.ensure('mean', T.eq(e.at(q), T.div(T.add(f(i1(q)), f(i2(q))), T.num(2))))


@contract(CONTRACTS, 'the impulses of a contact at a common point change no momentum', ['world.World.Jc', 'world.World.Jf'])
def momentum(k):
    w, fam, nb = world(k)
    nc, i1, i2, N, P, Q = contacts(k, w, nb)
    pos = [lambda i: T.app('body.p', (i, n_(1))), lambda i: T.app('body.p', (i, n_(2)))]
    q = skolem(k, 'q', nc)
    a, b = i1(q), i2(q)
    # both offsets designate the same point
    for c in (0, 1): k.require(T.eq(T.add(pos[c](a), P(q)[c]), T.add(pos[c](b), Q(q)[c])))
    Jc = k.inv(w, 'Jc')
    Jf = k.inv(w, 'Jf')
    for name, J, row in (('normal', Jc, q), ('friction 0', Jf, T.mul(TWO, q)), ('friction 1', Jf, T.add(T.mul(TWO, q), n_(1)))):
        ja = [J.at(row, T.add(mul3(a), n_(c))) for c in range(3)]
        jb = [J.at(row, T.add(mul3(b), n_(c))) for c in range(3)]
        for c in (1, 2): k.ensure('%s: linear momentum %d' % (name, c), T.eq(T.add(ja[c], jb[c]), T.num(0)))
        L = lambda i, j: T.add(j[0], T.sub(T.mul(pos[0](i), j[2]), T.mul(pos[1](i), j[1])))
        k.ensure('%s: angular momentum' % name, T.eq(T.add(L(a, ja), L(b, jb)), T.num(0)))
