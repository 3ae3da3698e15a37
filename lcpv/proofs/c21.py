"""C21: world and bodies share one consistent state."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['the bodies given to a world are different objects', 'Body.set_p stores the pose it is given (C05)']


def set_p(it, o, p, *a, **kw): it.setattr(o, 'p', p)


def joint_list(k, fam, nb):
    nj = k.int('nj', 0)
    nc = lambda q: T.app('nc', (q,), 'I')
    j1 = lambda q: T.app('j1', (q,), 'I')
    j2 = lambda q: T.app('j2', (q,), 'I')
    has = lambda q: T.app('two', (q,), 'B')
    st = lambda q: T.app('static', (q,), 'B')
    q = T.var('#q', 'I')
    k.require(T.forall(q, Z, nj, T.and_(T.le(T.num(1, 'I'), nc(q)), T.le(Z, j1(q)), T.lt(j1(q), nb), T.implies(has(q), T.and_(T.le(Z, j2(q)), T.lt(j2(q), nb))))))
    jf = Family('joint', nj, None, dict(num_constraints=lambda q: SV(nc(q)), body1=lambda q: SymObj(fam, j1(q)), body2=lambda q: I.Opt(has(q), SymObj(fam, j2(q))), static=lambda q: SV(st(q))))
    return nj, nc, j1, j2, has, st, jf, I.SList(nj, lambda q: SymObj(jf, q))


@contract(CONTRACTS, 'a new world: mass matrix, velocities, indices', ['world.World.__init__', 'world.World.set_v', 'world.World.M', 'utils.get_instance'], budget=200)
def init(k):
    nb = k.int('nb', 1)
    gf = Family('geom', nb, None, dict(body=lambda i: SV(T.app('geom.body', (i,), 'I'))))
    fam = bodies_family(k, nb, dict(geom=lambda i: SymObj(gf, i)))
    nj, nc, j1, j2, has, st, jf, js = joint_list(k, fam, nb)
    P = k.prefix('rows', nc, nj)
    spaces = []
    ncon = k.int('ncon', 0)
    def collide(space, arg, cb):
        spaces.append(space)
        w = k.it.iter(arg)[0]
        k.set(w, 'contacts', I.SList(ncon, lambda q: ((None, None, None, FT.fn((), lambda: T.app('pen', (q,)), k.dtype)), SV(T.app('ca', (q,), 'I')), SV(T.app('cb', (q,), 'I')))))
    k.it.collide = collide
    args = [js] if k.it.choose() else []
    if not args: nj = Z
    tol = k.real('tol')
    try: w = k.call(k.cls('world', 'World'), I.SList(nb, lambda i: SymObj(fam, i)), *args, tol=tol)
    except IRaise as e:
        if e.name == 'AssertionError': raise PathEnd()
        raise
    b, c = skolem(k, 'b', nb), skolem(k, 'c', nb)
    M = k.inv(w, 'M')
    k.ensure('square', T.and_(T.eq(tt(M.shape_[0]), mul3(nb)), T.eq(tt(M.shape_[1]), mul3(nb))))
    for r in range(3):
        for s in range(3):
            k.ensure('M: block (b, c), entry %d %d' % (r, s), T.eq(M.at(T.add(mul3(b), n_(r)), T.add(mul3(c), n_(s))), T.ite(T.eq(b, c), T.app('body.M', (b, n_(r), n_(s))), T.num(0))))
    v = k.inv(w, 'get_v')
    k.ensure('length of v', T.eq(tt(v.shape_[0]), mul3(nb)))
    bo = k.it.getitem(k.attr(w, 'bodies'), SV(b))
    for r in range(3):
        k.ensure('v: entry %d of body b' % r, T.eq(v.at(T.add(mul3(b), n_(r))), T.app('body.v', (b, n_(r)))))
    k.same('the bodies keep their velocities', k.attr(bo, 'v'), [T.app('body.v', (b, n_(r))) for r in range(3)])
    k.ensure('geom of body b carries index b', T.eq(t_of(k.attr(bo, 'geom', 'body')), b))
    k.ensure('one broadphase', len({id(s) for s in spaces}) == 1)
    g = spaces[0].geoms
    if nb is not Z:
        k.ensure('every body is in the broadphase once', T.eq(g.n, nb))
        e = g.elem(b); k.ensure('geom b is that of body b', isinstance(e, SymObj) and e.fam is gf and T.eq(e.k, b))
    J = k.attr(w, 'joints')
    n = J.n if I.is_sym(J) else n_(len(J.items))
    k.ensure('every joint is in the world', T.eq(n, nj))
    k.ensure('number of constraints', T.eq(t_of(k.attr(w, 'num_constraints')), P(nj) if args else Z))
    x = T.var('#x', 'I')
    k.ensure('the inverse may be kept iff all joints are static', T.eq(t_of(k.attr(w, 'static_inverse')), T.forall(x, Z, nj, st(x)) if args else T.TRUE))
    if args:
        q = skolem(k, 'q', nj)
        o, a, d = k.it.iter(J.elem(q))
        k.ensure('joint q', isinstance(o, SymObj) and o.fam is jf and T.eq(o.k, q))
        k.ensure('index of body 1', T.eq(t_of(a), j1(q)))
        d2 = k.it.force(d)
        if d2 is None: k.ensure('no second body', T.not_(has(q)))
        else: k.ensure('index of body 2', T.and_(has(q), T.eq(t_of(d2), j2(q))))


@contract(CONTRACTS, 'set_v gives every body its own slice', ['world.World.set_v', 'world.World.get_v'])
def setv(k):
    w, fam, nb = abs_world(k)
    v = k.ten('new', (mul3(nb),))
    if k.it.choose(): k.set(w, 'v', v)      # the vector the world has already, while the bodies have other velocities
    k.inv(w, 'set_v', v)
    b = skolem(k, 'b', nb)
    bo = k.it.getitem(k.attr(w, 'bodies'), SV(b))
    k.same('velocity of body b', k.attr(bo, 'v'), [T.app('new', (T.add(mul3(b), n_(r)),)) for r in range(3)])
    g = k.inv(w, 'get_v')
    i = skolem(k, 'i', mul3(nb))
    k.ensure('the same vector comes back', T.and_(T.eq(tt(g.shape_[0]), mul3(nb)), T.eq(g.at(i), T.app('new', (i,)))))


@contract(CONTRACTS, 'set_p gives every body its own slice', ['world.World.set_p'])
def setp(k):
    w, fam, nb = abs_world(k, methods=dict(set_p=set_p))
    p = k.ten('new', (mul3(nb),))
    k.inv(w, 'set_p', p)
    b = skolem(k, 'b', nb)
    bo = k.it.getitem(k.attr(w, 'bodies'), SV(b))
    k.same('pose of body b', k.attr(bo, 'p'), [T.app('new', (T.add(mul3(b), n_(r)),)) for r in range(3)])
    k.same('velocities stay', k.attr(bo, 'v'), [T.app('body.v', (b, n_(r))) for r in range(3)])
