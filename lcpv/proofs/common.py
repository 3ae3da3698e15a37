"""symbolic inputs shared by the contracts"""
from ..verify import *
Family, SymObj = I.Family, I.SymObj
THREE, TWO, ONE = T.num(3, 'I'), T.num(2, 'I'), T.num(1, 'I')


def n_(x): return T.num(x, 'I')
def mul3(t): return T.mul(THREE, t)


def circle(k, n, **kw):
    r = k.ten(n + '.rad'); k.require(T.lt(T.num(0), r.scalar()))
    kw.setdefault('vel', k.vec(n + '.v', 3))
    return k.call(k.cls('bodies', 'Circle'), k.vec(n + '.p', 3), r, **kw)


def rect(k, n, **kw):
    d = k.vec(n + '.dims', 2)
    for t in d.terms(): k.require(T.lt(T.num(0), t))
    kw.setdefault('vel', k.vec(n + '.v', 3))
    return k.call(k.cls('bodies', 'Rect'), k.vec(n + '.p', 3), d, **kw)


def skolem(k, name, n):
    """an arbitrary index below n"""
    i = T.var('sk_' + name, 'I')
    k.require(T.and_(T.le(Z, i), T.lt(i, n)))
    return i


def bodies_family(k, nb, attrs=None, methods=None, cls=None):
    d = k.dtype
    a = dict(p=lambda i: FT.fn((3,), lambda j: T.app('body.p', (i, j)), d), v=lambda i: FT.fn((3,), lambda j: T.app('body.v', (i, j)), d),
             M=lambda i: FT.fn((3, 3), lambda r, c: T.app('body.M', (i, r, c)), d),
             restitution=lambda i: FT.fn((), lambda: T.app('body.restitution', (i,)), d), fric_coeff=lambda i: FT.fn((), lambda: T.app('body.fric', (i,)), d))
    a.update(attrs or {})
    a = {n: (lambda f: lambda i: frozen(f(i)))(f) for n, f in a.items()}
    return Family('body', nb, cls, a, methods or {})


def frozen(v):
    if isinstance(v, FT): v.store.__dict__['frozen'] = True
    return v


def abs_world(k, attrs=None, methods=None, **wattrs):
    """a World object over an arbitrary number of bodies, with the state its constructor leaves"""
    nb = k.int('nb', 1)
    fam = bodies_family(k, nb, attrs, methods)
    W = k.cls('world', 'World')
    w = k.obj(W, bodies=I.SList(nb, lambda i: SymObj(fam, i)), vec_len=3, fric_dirs=2, joints=k.list(), num_constraints=0)
    for n, v in wattrs.items(): w.attrs[n] = v
    return w, fam, nb


def vec2(name, dtype='f64'):
    return lambda i: frozen(FT.fn((2,), lambda j: T.app(name, (i, j)), dtype))


def hull_args(k, n='h'):
    """the vertices of an arbitrary polygon, as a list of arbitrary length"""
    nv = T.var(n + '.nv', 'I')
    return nv, I.SList(nv, vec2(n + '.vert', k.dtype))


def rot2(a, x, y):
    c, s = T.cos(a), T.sin(a)
    return T.sub(T.mul(c, x), T.mul(s, y)), T.add(T.mul(s, x), T.mul(c, y))


def hull(k, n='h', **kw):
    """a Hull made by its constructor from an arbitrary accepted polygon"""
    nv, vs = hull_args(k, n)
    k.require(T.le(THREE, nv))
    kw.setdefault('vel', k.vec(n + '.v', 3))
    try: b = k.call(k.cls('bodies', 'Hull'), k.vec(n + '.ref', 2), vs, **kw)
    except IRaise as e:
        if e.name == 'AssertionError': raise PathEnd()
        raise
    return b, nv


def moved_hull(k, n='h', **kw):
    """the same in any later state: an arbitrary pose, every vertex its offset rotated by the accumulated angle"""
    b, nv = hull(k, n, **kw)
    p = k.vec(n + '.p', 3)
    k.set(b, 'p', p); k.set(b, 'rot', p.index(slice(0, 1))); k.set(b, 'pos', p.index(slice(1, None)))
    ang = p.at(Z)
    off = vec2(n + '.off', k.dtype)
    def vert(i):
        o = off(i); x, y = rot2(ang, o.at(Z), o.at(ONE))
        return frozen(FT.fn((2,), lambda j: x if int(T.val(j)) == 0 else y, k.dtype))
    k.set(b, 'verts', I.SList(nv, vert))
    return b, nv


class LoopSpec:
    """a loop contract: subclass with inv() (and havoc, next, variant, ...)"""
    name, doc = 'the loop', 'loop invariant (checked on entry and for an arbitrary iteration)'
    def havoc(self): pass


def halves(k, name='half'):
    """half(j) = 2^-j"""
    f = lambda j: T.app(name, (j,))
    k.it.prover.lem.select[name] = lambda j: [T.eq(f(Z), T.num(1)), T.implies(T.le(Z, j), T.and_(T.lt(T.num(0), f(j)), T.le(f(j), T.num(1)), T.eq(f(T.add(j, ONE)), T.div(f(j), T.num(2)))))]
    return f


class Dyn:
    """a world of any number of bodies and joints of any kind, with the contracts of the parts a step calls in place of their bodies:
    Body.move and set_p (C05), Joint.move and update_pos (C19), the engine, and contact detection (arbitrary contacts)"""
    def __init__(self, k, **wattrs):
        self.k = k; it = k.it
        self.w, self.fam, self.nb = w, fam, nb = abs_world(k, methods=dict(move=self.b_move, set_p=self.b_set_p), **wattrs)
        self.nj = nj = k.int('nj', 0)
        I_ = lambda n: (lambda q: T.app(n, (q,), 'I')); B_ = lambda n: (lambda q: T.app(n, (q,), 'B'))
        self.j1, self.j2, self.two, self.rev, self.axis = I_('j1'), I_('j2'), B_('two'), B_('rev'), B_('axis')
        q = T.var('#q', 'I')
        sc = lambda n: (lambda o: frozen(FT.fn((), lambda: T.app(n, (o,)), k.dtype)))
        self.jf = Family('joint', nj, None, dict(rot1=sc('rot1'), rot2=lambda o: I.Opt(self.two(o), sc('rot2')(o)), pos=lambda o: frozen(FT.fn((2,), lambda c: T.app('pos', (o, c)), k.dtype))),
                         dict(move=self.j_move, update_pos=self.j_update))
        k.require(T.forall(q, Z, nj, T.and_(T.le(Z, self.j1(q)), T.lt(self.j1(q), nb), T.le(Z, self.j2(q)), T.lt(self.j2(q), nb))))
        k.set(w, 'joints', I.SList(nj, lambda o: (SymObj(self.jf, o), SV(self.j1(o)), I.Opt(self.two(o), SV(self.j2(o))))))
        # the joints are consistent with the poses to begin with
        f = lambda o: T.and_(*[T.eq(T.app('pos', (o, n_(c))), self.anchor(o, T.app('rot1', (o,)), c)) for c in (0, 1)])
        self.k0 = (f, lambda o: T.implies(self.axis(o), T.eq(T.app('rot1', (o,)), self.p(self.j1(o))[0])))
        k.require(T.forall(q, Z, nj, T.and_(self.k0[0](q), self.k0[1](q))))
        self.m3 = mul3(nb)
        k.set(w, 'v', k.ten('oldv', (self.m3,)))
        self.asked = []
        self.engine = k.obj(None, solve_dynamics=I.Native(self.solve), post_stabilization=I.Native(self.stab))
        k.set(w, 'engine', self.engine)
        self.pens = []
        it.fspecs['World.find_contacts'] = lambda it, a, kw: self.contacts()
        self.new_contacts()

    # current state
    def p(self, b): return self.fam.attrs['p'].ver.at(b).terms()
    def v(self, b): return self.fam.attrs['v'].ver.at(b).terms()
    def anchor(self, q, rot1, c):
        a, b = self.p(self.j1(q)), self.p(self.j2(q))
        z = [T.ite(self.two(q), x, T.num(0)) for x in b]
        return T.app('anchor', (q, rot1, n_(c)) + tuple(a[1:]) + tuple(z[1:]))

    # contracts of the parts
    def b_move(self, it, o, dt, *a, **kw):
        if a or kw: raise Unsupported('arguments of move')
        p, v = self.p(o.k), self.v(o.k); d = t_of(dt.scalar() if isinstance(dt, FT) else dt)
        it.setattr(o, 'p', FT.fn((3,), lambda c: [T.add(x, T.mul(y, d)) for x, y in zip(p, v)][int(T.val(c))], self.k.dtype))
    def b_set_p(self, it, o, p, *a, **kw): it.setattr(o, 'p', p)
    def j_move(self, it, o, dt):
        d = t_of(dt.scalar() if isinstance(dt, FT) else dt); q = o.k
        r1 = self.jf.attrs['rot1'].ver.at(q).scalar(); r2 = self.jf.attrs['rot2'].ver.at(q)
        v1, v2 = self.v(self.j1(q))[0], self.v(self.j2(q))[0]
        sc = lambda t: FT.fn((), lambda: t, self.k.dtype)
        it.setattr(o, 'rot1', sc(T.ite(self.rev(q), T.add(r1, T.mul(v1, d)), r1)))
        if r2 is not None:
            x = (r2.v if isinstance(r2, I.Opt) else r2).scalar()
            y = sc(T.ite(self.rev(q), T.add(x, T.mul(v2, d)), x))
            it.setattr(o, 'rot2', I.Opt(r2.has, y) if isinstance(r2, I.Opt) else y)
        self.j_update(it, o)
    def j_update(self, it, o):
        q = o.k
        r = self.jf.attrs['rot1'].ver.at(q).scalar()
        r = T.ite(T.and_(self.axis(q), T.not_(self.rev(q))), self.p(self.j1(q))[0], r)
        it.setattr(o, 'rot1', FT.fn((), lambda: r, self.k.dtype))
        an = [self.anchor(q, r, c) for c in (0, 1)]
        it.setattr(o, 'pos', FT.fn((2,), lambda c: an[int(T.val(c))], self.k.dtype))
    def solve(self, w, dt):
        self.asked.append((t_of(dt), self.fam.attrs['p'].ver, self.fam.attrs['v'].ver))
        return self.k.ten('newv', (self.m3,))
    def stab(self, w):
        return FT.fn((1, self.m3), lambda a, i: T.app('dp', (i,)), self.k.dtype)
    def new_contacts(self):
        it = self.k.it
        n = T.var(it.fresh_name('ncon'), 'I'); it.assume(T.le(Z, n))
        pen = it.fresh_name('pen')
        self.k.set(self.w, 'contacts', I.SList(n, lambda q: ((None, None, None, FT.fn((), lambda: T.app(pen, (q,)), self.k.dtype)), None, None)))
        it.setattr(self.w, '#for', (self.fam.attrs['p'].ver,))
        it.setattr(self.w, '#pens', (n, pen))
    def contacts(self): self.new_contacts()

    def within(self):
        """no recorded contact exceeds the tolerance"""
        n, pen = self.w.attrs['#pens']
        q = T.var('#q', 'I')
        return T.forall(q, Z, n, T.le(T.app(pen, (q,)), t_of(self.w.attrs['tol'])))
