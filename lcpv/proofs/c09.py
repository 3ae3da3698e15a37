"""C09: polygon-polygon contacts."""
import math
from ..verify import *
from .common import *
from .c07 import Lookup
CONTRACTS = []
ASSUMES = ['polygons are strictly convex, counter-clockwise (as the constructor accepts them), their position lies in them, and everything is nearer than 1e10']
ZERO = T.num(0)


def dot(a, b): return T.add(T.mul(a[0], b[0]), T.mul(a[1], b[1]))
def cross(a, b): return T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))
def plus(a, b): return [T.add(x, y) for x, y in zip(a, b)]
def minus(a, b): return [T.sub(x, y) for x, y in zip(a, b)]
def inr(i, n): return T.and_(T.le(Z, i), T.lt(i, n))
def vec_(ts, d='f64'): return FT.fn((2,), lambda j: ts[int(T.val(j))], d)


class Poly:
    """the vertices of a polygon about its position"""
    def __init__(self, k, name, pos=True):
        self.k, self.name = k, name
        self.n = n = T.var(name + '.n', 'I'); k.require(T.le(THREE, n))
        self.P = lambda i: [T.app(name + '.P', (i, n_(0))), T.app(name + '.P', (i, n_(1)))]
        self.pos = [T.var('%s.pos[%d]' % (name, c)) for c in (0, 1)]
        self.verts = I.SList(n, lambda i: frozen(vec_(self.P(i), k.dtype)))
        self.start = T.var(name + '.last', 'I'); k.require(inr(self.start, n))
        self.obj = k.obj(k.cls('bodies', 'Hull'), verts=self.verts, pos=frozen(vec_(self.pos, k.dtype)), last_sat_idx=SV(self.start))
        pr = k.it.prover
        pr.examples[name] = self.example
        pr.lem.defs[name + '.support'] = lambda a, env: max(range(max(1, env(name + '.n', (), 'I'))), key=lambda j: sum(env(name + '.P', (j, c), 'R') * a[c] for c in (0, 1)))

    def nxt(self, i):
        i = T.add(i, ONE)
        return T.ite(T.lt(i, self.n), i, T.sub(i, self.n))
    def edge(self, i): return minus(self.P(self.nxt(i)), self.P(i))

    def regular(self):
        q = T.fresh_bv()
        self.k.require(T.forall(q, Z, self.n, T.lt(ZERO, dot(self.edge(q), self.edge(q)))))

    def real_edge(self, i):
        """decide which vertex follows the i-th, and use that its edge has a length (required for all)"""
        n = T.add(i, ONE); c = T.lt(n, self.n)
        if not self.k.it.decide(c): c = T.not_(c); n = T.sub(n, self.n)
        self.k.it.assume(c)
        e = minus(self.P(n), self.P(i))
        self.k.it.assume(T.implies(inr(i, self.n), T.lt(ZERO, dot(e, e))))
        return n

    def support(self, d):
        """the vertex furthest in a direction; not behind the position, which lies in the polygon"""
        j = T.app(self.name + '.support', tuple(d), 'I'); q = T.fresh_bv()
        self.k.it.assume(inr(j, self.n)); self.k.it.assume(T.forall(q, Z, self.n, T.le(dot(self.P(q), d), dot(self.P(j), d)))); self.k.it.assume(T.le(ZERO, dot(self.P(j), d)))
        return j

    def example(self, rnd):
        """some convex polygon around the origin"""
        n = rnd.randint(3, 5); t0 = rnd.uniform(0, 6)
        ts = [t0 + 2 * math.pi * (i + rnd.uniform(-.2, .2)) / n for i in range(n)]
        w, h = rnd.uniform(1, 2), rnd.uniform(1, 2)
        v = {(self.name + '.n', ()): n, (self.name + '.last', ()): rnd.randrange(n)}
        for i, t in enumerate(ts):
            v[self.name + '.P', (i, 0)] = w * math.cos(t); v[self.name + '.P', (i, 1)] = h * math.sin(t)
        for c in (0, 1): v['%s.pos[%d]' % (self.name, c), ()] = rnd.uniform(-2, 2)
        return v


def points_of(verts):
    return lambda i: verts.elem(i).terms()


def support_loop(points, d, n):
    class Loop(LoopSpec):
        name = 'get_support'; doc = 'best is the last of the furthest points seen, or none when all are behind the origin by more than 1'
        def __init__(self, it, sc, seq):
            self.it, self.sc, self.m, self.seq = it, sc, Z, seq
        def inv(self):
            q = T.fresh_bv(); P = points_of(points)
            v = self.sc.vars
            bn = v['best_norm']; bn = t_of(bn.scalar() if isinstance(bn, FT) else bn)
            if v['best_point'] is None:
                return T.and_(T.eq(bn, T.num(-1)), T.forall(q, Z, self.m, T.lt(dot(P(q), d), T.num(-1))))
            b = t_of(v['best_idx'])
            return T.and_(T.le(Z, b), T.lt(b, self.m), T.eq(bn, dot(P(b), d)), T.le(T.num(-1), bn), *[T.eq(x, y) for x, y in zip(v['best_point'].terms(), P(b))],
                          T.forall(q, Z, self.m, T.le(dot(P(q), d), bn)))
        def havoc(self):
            it, sc = self.it, self.sc
            self.m = T.var('sk_m', 'I'); it.assume(T.and_(T.le(Z, self.m), T.le(self.m, n)))
            if it.choose():
                it.put_in(sc, sc.vars, 'best_point', None); it.put_in(sc, sc.vars, 'best_norm', SV(T.var('bn')))
            else:
                b = T.var('sk_best', 'I')
                it.assume(inr(b, self.m))
                it.put_in(sc, sc.vars, 'best_point', points.elem(b)); it.put_in(sc, sc.vars, 'best_idx', SV(b)); it.put_in(sc, sc.vars, 'best_norm', SV(T.var('bn')))
        def more(self): return T.lt(self.m, n)
        def item(self): return self.seq.elem(self.m)
        def next(self): self.m = T.add(self.m, ONE)
        def after(self):
            if self.sc.vars['best_point'] is None and self.it.prover.check(self.it.pc, []) == 'unsat': raise PathEnd()
    return Loop


@contract(CONTRACTS, 'get_support: a vertex furthest in the direction', ['contacts.DiffContactHandler.get_support'])
def support(k):
    A = Poly(k, 'A')
    d = k.vec('d', 2)
    k.require(T.and_(inr(T.var('sk_w', 'I'), A.n), T.le(T.num(-1), dot(A.P(T.var('sk_w', 'I')), d.terms()))))
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    k.it.loops[('DiffContactHandler.get_support', 'For', 0)] = support_loop(A.verts, d.terms(), A.n)
    p, i = k.it.iter(k.inv(h, 'get_support', A.verts, d))
    k.ensure('a point is found', p is not None)
    if p is None: return
    i = t_of(i)
    k.ensure('an index', inr(i, A.n))
    k.same('the point with that index', p, A.P(i))
    q = skolem(k, 'q', A.n)
    k.ensure('none is further', T.le(dot(A.P(q), d.terms()), dot(A.P(i), d.terms())))


BIG = T.num(10 ** 10)


def support_spec(k, polys):
    """the contract of get_support (proved above)"""
    def spec(it, a, kw):
        if len(a) != 2 or kw: raise Unsupported('arguments of get_support')
        pts, d = a
        A = [p for p in polys if p.verts is pts or p.obj.attrs['verts'] is pts]
        if not A: raise Unsupported('points of get_support')
        A = A[0]
        j = A.support(d.terms())
        return (A.verts.elem(j), SV(j))
    k.it.fspecs['DiffContactHandler.get_support'] = spec


def normal(e):
    """the outward unit normal of an edge"""
    l = T.sqrt(T.add(T.powi(e[0], 2), T.powi(e[1], 2)))
    return [T.div(e[1], l), T.div(T.neg(e[0]), l)]


class Sep:
    """the separation of B along the edge normals of A"""
    def __init__(self, k, A, B, name):
        self.k, self.A, self.B, self.name = k, A, B, name
        lem = k.it.prover.lem
        lem.select[name] = self.facts
        ev = lambda t, q, env: T.evaluate(T.subst(t, {T.var('#s', 'I'): T.num(q, 'I')}), env)
        lem.defs[name] = lambda a, env: min(T.evaluate(self.at(n_(a[0]), n_(j)), env) for j in range(max(1, env(B.name + '.n', (), 'I'))))
        lem.defs[name + '.arg'] = lambda a, env: min(range(max(1, env(B.name + '.n', (), 'I'))), key=lambda j: T.evaluate(self.at(n_(a[0]), n_(j)), env))
    def N(self, q): return normal(self.A.edge(q))
    def at(self, q, j):
        """distance of vertex j of B to the line of edge q of A"""
        return dot(self.N(q), minus(plus(self.B.P(j), minus(self.B.pos, self.A.pos)), self.A.P(q)))
    def s(self, q): return T.app(self.name, (q,))
    def arg(self, q): return T.app(self.name + '.arg', (q,), 'I')
    def facts(self, q):
        j = T.fresh_bv()
        return [T.implies(inr(q, self.A.n), T.and_(inr(self.arg(q), self.B.n), T.eq(self.s(q), self.at(q, self.arg(q))), T.forall(j, Z, self.B.n, T.le(self.s(q), self.at(q, j)))))]


def val(x):
    return t_of(x.scalar() if isinstance(x, FT) else x)


def sep_loop(k, S, eps):
    A, B = S.A, S.B
    class Loop(LoopSpec):
        name = 'test_separations'; doc = 'best is the edge with the largest separation seen, none of which exceeds the margin'
        V = ('best_dist', 'best_normal', 'best_pt1', 'best_pt2', 'best_vertex', 'best_edge_norm', 'best_edge')
        def __init__(self, it, sc, seq): self.it, self.sc, self.m, self.seq = it, sc, Z, seq
        def seen(self, f):
            """f(q) for the edges seen: start .. start + m - 1 modulo n"""
            q = T.fresh_bv(); r = T.fresh_bv()
            top = T.add(A.start, self.m)
            return T.and_(T.forall(q, A.start, T.ite(T.lt(top, A.n), top, A.n), f(q)), T.forall(r, Z, T.sub(top, A.n), f(r)))
        def inv(self):
            v = self.sc.vars
            if v['best_normal'] is None: return T.and_(T.eq(self.m, Z), T.eq(val(v['best_dist']), T.neg(BIG)))
            e, w, d = val(v['best_edge']), val(v['best_vertex']), val(v['best_dist'])
            return T.and_(inr(e, A.n), inr(w, B.n), T.eq(d, S.s(e)), T.eq(d, S.at(e, w)), T.le(d, eps), *[T.eq(x, y) for x, y in zip(v['best_normal'].terms(), S.N(e))], self.seen(lambda q: T.le(S.s(q), d)))
        def havoc(self):
            it, sc = self.it, self.sc
            put = lambda n, v: it.put_in(sc, sc.vars, n, v)
            if it.choose():
                self.m = Z; put('best_normal', None); put('best_dist', FT.fn((), lambda: T.neg(BIG), k.dtype)); put('best_vertex', -1)
                return
            self.m = T.var('sk_m', 'I'); it.assume(T.and_(T.le(ONE, self.m), T.le(self.m, A.n)))
            e, w = T.var('sk_be', 'I'), T.var('sk_bv', 'I')
            A.real_edge(e)
            put('best_edge', SV(e)); put('best_vertex', SV(w)); put('best_dist', k.ten('best_dist')); put('best_normal', FT.fn((2,), lambda c: S.N(e)[int(T.val(c))], k.dtype))
            put('best_pt1', k.vec('best_pt1', 2)); put('best_pt2', k.vec('best_pt2', 2)); put('best_edge_norm', k.ten('best_edge_norm'))
        def more(self): return T.lt(self.m, A.n)
        def item(self):
            e = T.add(A.start, self.m)
            if not self.it.decide(T.lt(e, A.n)): e = T.sub(e, A.n)
            A.real_edge(e)
            self.it.assume(T.lt(T.neg(BIG), S.s(e)))          # an instance of what is required
            return self.seq.elem(self.m)
        def next(self): self.m = T.add(self.m, ONE)
        def after(self):
            self.it.assume(T.eq(self.m, A.n))
            if self.it.prover.check(self.it.pc, []) == 'unsat': raise PathEnd()
    return Loop


@contract(CONTRACTS, 'test_separations: the edge of largest separation', ['contacts.DiffContactHandler.test_separations', 'utils.left_orthogonal'], triggers=True, linear=True, split_mod=True, unroll=0)
def separations(k):
    A, B = Poly(k, 'A'), Poly(k, 'B')
    S = Sep(k, A, B, 'sep')
    A.regular(); q = T.fresh_bv()
    k.require(T.forall(q, Z, A.n, T.lt(T.neg(BIG), S.s(q))))
    if k.it.unroll:
        k.require(T.eq(A.n, THREE))
        for j in range(3): k.require(T.lt(T.neg(BIG), S.s(n_(j))))
    eps = k.real('eps')
    support_spec(k, [A, B])
    k.it.loops[('DiffContactHandler.test_separations', 'For', 0)] = sep_loop(k, S, eps.t)
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    r = k.it.iter(k.inv(h, 'test_separations', A.obj, B.obj, eps=eps))
    k.ensure('seven results', len(r) == 7)
    d, e = val(r[0]), val(r[6])
    k.ensure('an edge', inr(e, A.n))
    k.ensure('its separation', T.eq(d, S.s(e)))
    if r[3] is None:
        k.ensure('left early only for an edge beyond the margin', T.lt(eps.t, d)); return
    p = skolem(k, 'p', A.n)
    k.ensure('none is larger', T.le(S.s(p), d))
    k.ensure('within the margin', T.le(d, eps.t))
    k.same('minus its normal', r[3], [T.neg(x) for x in S.N(e)])
    k.ensure('the vertex of the other polygon that is deepest', T.and_(inr(val(r[4]), B.n), T.eq(S.at(e, val(r[4])), d)))


@contract(CONTRACTS, 'edge normals are unit vectors orthogonal to their edges', ['utils.left_orthogonal'])
def normals(k):
    e = k.vec('e', 2); ex, ey = e.terms()
    k.require(T.lt(ZERO, dot([ex, ey], [ex, ey])))
    k.same('left_orthogonal', k.call(k.cls('utils', 'left_orthogonal'), e), [ey, T.neg(ex)])
    N = normal([ex, ey]); l = T.sqrt(T.add(T.powi(ex, 2), T.powi(ey, 2)))
    k.ensure('has a length', T.lt(ZERO, l))
    k.ensure('unit', T.eq(dot(N, N), T.num(1)))
    k.ensure('the edge is its length times the normal turned by a quarter', T.and_(T.eq(ex, T.mul(l, T.neg(N[1]))), T.eq(ey, T.mul(l, N[0]))))


@contract(CONTRACTS, 'get_incident_edge: of the two edges at the vertex the one facing most', ['contacts.DiffContactHandler.get_incident_edge'], linear=True, triggers=True, split_mod=True)
def incident(k):
    A = Poly(k, 'A'); A.regular()
    n = k.vec('ref', 2); v = T.var('v', 'I'); k.require(inr(v, A.n))
    p = T.sub(v, ONE)
    if not k.decide(T.le(Z, p)): p = T.add(p, A.n)
    A.real_edge(p); A.real_edge(v)
    f = lambda q: dot(n.terms(), normal(A.edge(q)))
    for q in (p, v): k.require(T.lt(f(q), BIG))
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    r = val(k.inv(h, 'get_incident_edge', n, A.obj, SV(v)))
    k.ensure('one of the two edges', T.or_(T.eq(r, p), T.eq(r, v)))
    for q in (p, v): k.ensure('no other faces more', T.implies(T.or_(T.eq(r, p), T.eq(r, v)), T.le(f(r), f(q))))


@contract(CONTRACTS, 'clip_segment_to_line: the part of the segment on one side', ['contacts.DiffContactHandler.clip_segment_to_line'])
def clip(k):
    a, b, n, o = k.vec('a', 2), k.vec('b', 2), k.vec('n', 2), k.ten('o')
    d = [T.add(dot(n.terms(), x.terms()), o.scalar() if not isinstance(o.scalar(), SV) else t_of(o.scalar())) for x in (a, b)]
    k.require(T.or_(T.le(ZERO, d[0]), T.le(ZERO, d[1]), T.ne(d[0], d[1])))
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    r = k.it.iter(k.inv(h, 'clip_segment_to_line', k.list(a, b), n, o))
    t = T.div(d[0], T.sub(d[0], d[1]))
    X = [T.add(x, T.mul(t, T.sub(y, x))) for x, y in zip(a.terms(), b.terms())]
    kept = [x for x, e in zip((a, b), d) if k.decide(T.le(ZERO, e))]
    if len(kept) == 2: want = [x.terms() for x in kept]
    else:
        want = [x.terms() for x in kept] + [X]
        k.ensure('the point is on the line', T.eq(T.add(dot(n.terms(), X), val(o)), ZERO))
        if kept: k.ensure('the point is on the segment', T.and_(T.le(ZERO, t), T.le(t, T.num(1))))
    k.ensure('number of points', len(r) == len(want))
    if len(r) == len(want):
        flip = len(r) == 2 and not k.it.prover.implied(k.it.pc, T.and_(*[T.eq(x, y) for x, y in zip(r[0].terms(), want[0])])) and k.it.prover.implied(k.it.pc, T.and_(*[T.eq(x, y) for x, y in zip(r[1].terms(), want[0])]))
        for j, (x, y) in enumerate(zip(r[::-1] if flip else r, want)): k.same('point %d' % j, x, y)


# --- the foot of the deepest vertex lies on the reference edge: a lemma about vectors, used below
def unit(a): return T.eq(dot(a, a), T.num(1))
def nrm(u): return [u[1], T.neg(u[0])]


def corner(U, Up, Ub, r1, v, zj, zi, D):
    """U, Up: the reference edge and the one before it, meeting in r1; Ub: the edge of the other polygon that ends in v, its vertex nearest
    to the reference edge, at distance D; zj, zi: the vertices that realise the separations of the two edges"""
    N, Np, Nb = nrm(U), nrm(Up), nrm(Ub)
    hyps = [('unit vectors', T.and_(unit(U), unit(Up), unit(Ub))), ('turns', T.lt(ZERO, cross(Up, U))), ('descends', T.lt(dot(N, Ub), ZERO)),
            ('distance', T.eq(D, dot(N, minus(v, r1)))), ('overlap', T.le(D, ZERO)), ('none is deeper', T.le(ZERO, dot(N, minus(zj, v)))), ('convex there', T.le(ZERO, cross(Ub, minus(zj, v)))),
            ('the previous edge separates no more', T.le(dot(Np, minus(zj, r1)), D)), ('the other edge separates no more', T.le(dot(Nb, minus(zi, v)), D)),
            ('behind the edge', T.le(ZERO, cross(U, minus(zi, r1)))), ('behind the previous edge', T.le(ZERO, cross(Up, minus(zi, r1))))]
    return hyps, T.le(ZERO, dot(U, minus(v, r1)))


@contract(CONTRACTS, 'lemma: the deepest vertex is not beyond a corner')
def corner2(k):
    vec2 = lambda n: [T.var(n + '[0]'), T.var(n + '[1]')]
    U, Up, Ub, r1, v, zj, zi = [vec2(n) for n in 'U Up Ub r1 v zj zi'.split()]; D = T.var('D')
    hyps, concl = corner(U, Up, Ub, r1, v, zj, zi, D)
    for n, f in hyps: k.require(f)
    k.ensure('not beyond', concl)


class Hull2(Poly):
    """a strictly convex polygon in terms of its unit edge vectors U and edge lengths (the lemma on edge normals)"""
    def __init__(self, k, name, shift=None):
        Poly.__init__(self, k, name)
        self.same = {}           # index terms proved equal to simpler ones
        at = lambda i: frozen(vec_(self.P(self.same.get(i, i)), k.dtype))
        self.verts = self.obj.attrs['verts'] = I.SList(self.n, at)
        self.L = lambda i: T.app(name + '.L', (i,))
        self.U = lambda i: [T.app(name + '.U', (i, n_(0))), T.app(name + '.U', (i, n_(1)))]
        self.N = lambda i: nrm(self.U(i))
        pr = k.it.prover
        def ed(i, env):
            n = max(1, env(name + '.n', (), 'I')); j = i + 1 if i + 1 < n else i + 1 - n
            d = [env(name + '.P', (j, c), 'R') - env(name + '.P', (i, c), 'R') for c in (0, 1)]
            return math.hypot(*d), d
        pr.lem.defs[name + '.L'] = lambda a, env: ed(a[0], env)[0]
        def unit_(a, env):
            l, d = ed(a[0], env)
            return d[a[1]] / l if l else 1. - a[1]
        pr.lem.defs[name + '.U'] = unit_
        q, j = T.fresh_bv(), T.fresh_bv()
        pr.guards[name + ' is convex'] = T.forall(q, Z, self.n, T.and_(T.lt(ZERO, self.L(q)), T.lt(ZERO, cross(self.U(q), self.U(self.nxt(q)))), T.forall(j, Z, self.n, T.le(ZERO, cross(self.U(q), minus(self.P(j), self.P(q)))))))

    def use(self, *cs):                              # instances of the requirements
        for c in cs: self.k.it.assume(c)
        return list(cs)
    def next(self, i):
        """the index that follows"""
        n = self.nxt(i); n = self.same.get(n, n)
        self.use(inr(n, self.n))
        return n
    def prev(self, i):
        p = T.sub(i, ONE); p = T.ite(T.le(Z, p), p, T.add(p, self.n))
        self.k.have('the index before', T.and_(inr(p, self.n), T.eq(self.nxt(p), i)))
        self.same[self.nxt(p)] = i
        return p
    def unit(self, i): return self.use(unit(self.U(i)))
    def link(self, i, n): return self.use(T.lt(ZERO, self.L(i)), *[T.eq(b, T.add(a, T.mul(self.L(i), u))) for a, b, u in zip(self.P(i), self.P(n), self.U(i))])
    def inside(self, i, j): return self.use(T.le(ZERO, cross(self.U(i), minus(self.P(j), self.P(i)))))
    def turn(self, i, n): return self.use(T.lt(ZERO, cross(self.U(i), self.U(n))))


class Sep2(Sep):
    """the same, in terms of the unit normals; with the results of test_separations"""
    def N(self, q): return self.A.N(q)
    def tight(self, q):
        """the vertex that realises the separation of edge q"""
        a = self.arg(q)
        f = T.eq(self.s(q), self.at(q, a))
        self.k.it.assume(T.and_(inr(a, self.B.n), f))
        return a, [f]
    def than(self, q, j): return self.A.use(T.le(self.s(q), self.at(q, j)))


def separations_spec(k, pair):
    def spec(it, a, kw):
        kw = dict(kw)
        eps = kw.pop('eps', a[2] if len(a) > 2 else wrap(Z))
        if kw or len(a) < 2: raise Unsupported('arguments of test_separations')
        S = [s for s in pair if s.A.obj is a[0] and s.B.obj is a[1]]
        if not S: raise Unsupported('hulls of test_separations')
        S = S[0]; A, B = S.A, S.B; eps = t_of(eps)
        it.oblige('test_separations starts at an edge of the polygon', inr(t_of(A.obj.attrs['last_sat_idx']), A.n))
        def best(ar, env):
            n = max(1, env(A.name + '.n', (), 'I')); l = env(A.name + '.last', (), 'I')
            sep = lambda q: env(S.name, (q,), 'R')
            order = [q % n for q in range(l, l + n)]
            far = [q for q in order if sep(q) > ar[0]]
            return far[0] if far else max(order, key=sep)
        it.prover.lem.defs[S.name + '.best'] = best
        e = T.app(S.name + '.best', (eps,), 'I'); d = S.s(e)
        it.assume(inr(e, A.n))
        dist = FT.fn((), lambda: d, k.dtype); no = Poison('result of test_separations')
        if it.choose():
            it.assume(T.lt(eps, d))
            return (dist, None, None, None, None, None, SV(e))
        w, S.t = S.tight(e)
        it.assume(T.le(d, eps))
        S.result = dict(e=e, d=d, w=w)
        S.done(S)
        return (dist, no, no, frozen(vec_([T.neg(x) for x in S.N(e)], k.dtype)), SV(w), no, SV(e))
    k.it.fspecs['DiffContactHandler.test_separations'] = spec


class Overlap:
    """the reference edge, the vertex nearest to it, and where the two lie"""
    def __init__(self, k, S, other, D, q, v, overlap):
        self.k, self.S, self.other, self.D, self.q, self.v = k, S, other, D, q, v
        R, O = self.R, self.O = S.A, S.B
        it = k.it
        shift = minus(O.pos, R.pos)
        self.Z = Zp = lambda j: plus(O.P(j), shift)
        self.U, self.N = R.U(q), R.N(q)
        self.qn = R.next(q); self.qp = R.prev(q)
        self.r1, self.r2 = R.P(q), R.P(self.qn)
        self.x = O.next(v); self.u = O.prev(v)
        self.at = lambda z: dot(self.N, minus(z, self.r1))
        self.unit = R.unit(q); self.edge = R.link(q, self.qn)
        self.lu, self.lv = O.link(self.u, v), O.link(v, self.x)
        self.uu, self.uv = O.unit(self.u), O.unit(v)
        self.near = [f for j in (self.u, self.x) for f in S.than(q, j)]
        self.overlap = it.decide(T.le(D, ZERO)); self.sides = []
        self.left = self.right = False
        if self.overlap != overlap: raise PathEnd()         # the subject of another contract
        eq = T.eq(D, self.at(Zp(v)))
        k.derive('the nearest vertex', S.t, eq); self.dist = [eq]
        if not self.overlap: return
        lap = [T.le(D, ZERO)]
        hu, hx = dot(self.N, O.U(self.u)), dot(self.N, O.U(v))
        f1, f2 = T.le(hu, ZERO), T.le(ZERO, hx)
        k.derive('the edge to the nearest vertex descends', self.lu + self.dist + S.than(q, self.u), f1)
        k.derive('the edge from the nearest vertex ascends', self.lv + self.dist + S.than(q, self.x), f2)
        tv = O.turn(self.u, v)
        # the vertex is not beyond the corner on either side, or the edge on that side is parallel and its other end is not
        c1, c2 = T.eq(hu, ZERO), T.eq(hx, ZERO)
        self.left = it.decide(c1); self.right = it.decide(c2)
        if not self.left: self.corner(False, self.u, self.v, self.dist, [f1, T.not_(c1)], self.lu, lap)
        if not self.right: self.corner(True, v, self.v, self.dist, [f2, T.not_(c2)], self.lv, lap)
        if self.left:
            op = T.eq(dot(self.U, O.U(self.u)), T.num(-1)); d = T.eq(D, self.at(Zp(self.u)))
            k.derive('the parallel edge is opposite', self.unit + self.uu + [c1, f2] + tv, op)
            k.derive('the next edge is not', self.unit + self.uu + self.uv + [op] + tv, T.lt(T.num(-1), dot(self.U, O.U(v))))
            k.derive('the other end is as near', [c1] + self.lu + self.dist, d)
            uu = O.prev(self.u); l = O.link(uu, self.u)
            h = dot(self.N, O.U(uu)); g1, g2 = T.le(h, ZERO), T.lt(h, ZERO)
            k.derive('the edge before it does not rise', l + [d] + S.than(q, uu), g1)
            k.derive('the edge before it descends', [g1, op] + O.turn(uu, self.u) + self.unit + self.uu + O.unit(uu), g2)
            self.corner(False, uu, self.u, [d], [g2], l, lap)
        if self.right:
            op = T.eq(dot(self.U, O.U(v)), T.num(-1)); d = T.eq(D, self.at(Zp(self.x)))
            k.derive('the parallel edge is opposite (right)', self.unit + self.uv + [c2, f1] + tv, op)
            k.derive('the previous edge is not', self.unit + self.uu + self.uv + [op] + tv, T.lt(T.num(-1), dot(self.U, O.U(self.u))))
            k.derive('the other end is as near (right)', [c2] + self.lv + self.dist, d)
            xx = O.next(self.x); l = O.link(self.x, xx)
            h = dot(self.N, O.U(self.x)); g1, g2 = T.le(ZERO, h), T.lt(ZERO, h)
            k.derive('the edge after it does not descend', l + [d] + S.than(q, xx), g1)
            k.derive('the edge after it rises', [g1, op] + O.turn(v, self.x) + self.unit + self.uv + O.unit(self.x), g2)
            self.corner(True, self.x, self.x, [d], [g2], l, lap)

    def corner(self, mirrored, e, z, dist, desc, link, lap):
        """apply the lemma to the vertex z of the other polygon and its edge e on the left (right) side"""
        k, S, R, O, q = self.k, self.S, self.R, self.O, self.q
        p = self.qn if mirrored else self.qp
        jp, tp = S.tight(p); i, ti = self.other.tight(e)
        small = self.R.use(T.le(S.s(p), self.D), T.le(self.other.s(e), self.D))    # the largest separation
        rl = self.edge if mirrored else R.link(p, q)
        turn = R.turn(q, p) if mirrored else R.turn(p, q)
        F, G = (lambda a: [T.neg(a[0]), a[1]], lambda a: [a[0], T.neg(a[1])]) if mirrored else (lambda a: a,) * 2
        hyps, concl = corner(G(self.U), G(R.U(p)), G(O.U(e)), F(self.r2 if mirrored else self.r1), F(self.Z(z)), F(self.Z(jp)), F(R.P(i)), self.D)
        fs = dict(zip([n for n, f in hyps], [self.unit + R.unit(p) + O.unit(e), turn, desc, dist + rl if mirrored else dist, lap, dist + rl + S.than(q, jp), O.inside(e, jp) + link, small + tp + rl, small + ti + link, R.inside(q, i) + rl, R.inside(p, i) + rl]))
        for n, f in hyps: k.derive('lemma: ' + n, fs[n], f)
        self.k.it.assume(concl); self.sides.append(concl)


def hulls(k, second, overlap):
    it = k.it
    A, B = Hull2(k, 'A'), Hull2(k, 'B')
    SA, SB = Sep2(k, A, B, 'sepA'), Sep2(k, B, A, 'sepB')
    eps = k.real('eps'); k.require(T.le(ZERO, eps.t))
    pA, pB = skolem(k, 'pA', A.n), skolem(k, 'pB', B.n)
    st = {}
    def done(S):
        """both separations are known: compare them, and look where the polygons overlap"""
        if not all(hasattr(s, 'result') for s in (SA, SB)) or 'ref' in st: return
        for s, p in ((SA, pA), (SB, pB)): it.assume(T.le(s.s(p), s.result['d']))
        b = it.decide(T.lt(SA.result['d'], SB.result['d']))
        if b != second: raise PathEnd()                     # the subject of another contract
        ref, oth = (SB, SA) if b else (SA, SB)
        r = ref.result
        st['ref'] = ref; st['o'] = Overlap(k, ref, oth, r['d'], r['e'], r['w'], overlap)
    SA.done = SB.done = done
    separations_spec(k, [SA, SB])
    def inc(it, a, kw):
        """get_incident_edge (proved above)"""
        n, h, v = a; o = st.get('o')
        H = [p for p in (A, B) if p.obj is h]
        if not H or o is None or H[0] is not o.O or t_of(v) is not o.v: raise Unsupported('arguments of get_incident_edge')
        n = n.terms()
        f = lambda q: dot(n, o.O.N(q))
        st['mark'] = len(it.pc)
        for q, un in ((o.u, o.uu), (o.v, o.uv)): k.derive('the edges face the direction by less than 1e10', o.unit + un, T.lt(f(q), BIG))
        r, s = (o.u, o.v) if it.choose() else (o.v, o.u)
        it.assume(T.le(f(r), f(s)))
        if it.prover.check_linear([g for p in it.pc for g in (p.args if p.op == 'and' else (p,))], 2000): raise PathEnd()
        st['r'] = r; st['end'] = o.x if r is o.v else o.v
        return SV(r)
    it.fspecs['DiffContactHandler.get_incident_edge'] = inc
    def clip_(it, a, kw):
        """clip_segment_to_line (proved above)"""
        vs, n, off = a; vs = [v.terms() for v in it.iter(vs)]; n = n.terms(); off = val(off)
        if len(vs) != 2: raise Unsupported('arguments of clip_segment_to_line')
        g = lambda x: T.add(dot(n, x), off)
        kept = [v for v in vs if it.decide(T.le(ZERO, g(v)))]
        o = st['o']
        if not kept and o.overlap and it.prover.small(list(it.pc[st['mark']:]) + o.sides + o.edge + o.unit, T.FALSE): raise PathEnd()
        if len(kept) < 2:
            nm = it.fresh_name('clip')
            X = [T.var('%s[%d]' % (nm, c)) for c in (0, 1)]
            if kept:
                it.assume(T.eq(g(X), ZERO))
                W = o.O.U(st['r'])
                for f in (lambda z: dot(o.N, z), lambda z: dot(o.U, z), lambda z: dot(W, z), lambda z: cross(W, z)):
                    a_, b_ = [f(v) for v in vs]
                    it.assume(T.or_(T.and_(T.le(a_, f(X)), T.le(f(X), b_)), T.and_(T.le(b_, f(X)), T.le(f(X), a_))))
            kept.append(X)
        return k.list(*[frozen(vec_(v, k.dtype)) for v in kept])
    it.fspecs['DiffContactHandler.clip_segment_to_line'] = clip_
    g = [k.obj(None, no_contact=(), body=SV(T.var('i%d' % j, 'I'))) for j in (0, 1)]
    world = k.obj(None, eps=eps, contacts=k.list(), bodies=Lookup([(T.var('i0', 'I'), A.obj), (T.var('i1', 'I'), B.obj)]))
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    k.call(h, k.list(world), *g)
    cs = [it.iter(c) for c in it.iter(k.attr(world, 'contacts'))]
    if cs: k.ensure('no contact when some edge separates by more than the margin', T.and_(T.le(SA.s(pA), eps.t), T.le(SB.s(pB), eps.t)))
    for p in (A, B): k.ensure('the cached edge is one of the polygon', inr(t_of(p.obj.attrs['last_sat_idx']), p.n))
    k.ensure('at most two contacts', len(cs) <= 2)
    o = st.get('o')
    if o is None or not o.overlap:
        k.ensure('no contact is missing', T.or_(T.boolc(len(cs) > 0), T.TRUE if o is None else T.lt(ZERO, o.D)))
    tail = [] if o is None else list(it.pc[st.get('mark', len(it.pc)):]) + [T.le(ZERO, eps.t)]
    if o is not None and o.overlap: k.from_('polygons that overlap touch', tail + o.sides + o.dist + o.edge + o.unit, T.boolc(len(cs) > 0))
    if o is None: return
    first = st['ref'] is SA
    pens = []
    r = st.get('r'); rl = [] if r is None else o.lu if r is o.u else o.lv
    for c, i, j in cs:
        n, p1, p2, pen = it.iter(c); pen = val(pen); pens.append(pen)
        k.ensure('between the two bodies', T.and_(T.eq(t_of(i), T.var('i0', 'I')), T.eq(t_of(j), T.var('i1', 'I'))))
        sg = T.num(-1 if first else 1)
        k.same('the normal is that of the reference edge, from body 2 to body 1', n, [T.mul(sg, x) for x in o.N])
        w1, w2 = plus(p1.terms(), A.pos), plus(p2.terms(), B.pos)
        k.same('the offsets designate the same point', FT.fn((2,), lambda c: w1[int(T.val(c))], k.dtype), w2)
        z = minus(w1, o.R.pos)
        k.from_('on the line of the edge', o.unit, T.eq(o.at(z), ZERO))
        if not o.overlap: continue
        k.from_('no deeper than the least overlap', tail + o.near + o.dist, T.le(pen, T.neg(o.D)))
        y = minus(z, [T.mul(pen, x) for x in o.N]); W = o.O.U(r); d = minus(y, o.Z(r))
        for nm, g in (('line', T.eq(cross(W, d), ZERO)), ('start', T.le(ZERO, dot(W, d))), ('end', T.le(dot(W, d), o.O.L(r)))):
            k.from_('along the normal lies the supporting edge (%s)' % nm, tail + rl + o.O.unit(r), g)
        k.from_('between the sides of the reference edge (first)', tail + o.edge + o.unit, T.le(dot(o.U, o.r1), dot(o.U, y)))
        k.from_('between the sides of the reference edge (second)', tail + o.edge + o.unit, T.le(dot(o.U, y), dot(o.U, o.r2)))
    k.ensure('no edge has less overlap', T.and_(T.le(SA.s(pA), o.D), T.le(SB.s(pB), o.D)))
    if o.overlap and pens: k.from_('the deepest has the least overlap', tail + o.near + o.dist + o.sides + o.edge + o.unit, T.or_(*[T.eq(p, T.neg(o.D)) for p in pens]))


def mk(second, overlap):
    @contract(CONTRACTS, 'two polygons, %s: contacts on the edge of least overlap, %s' % ('overlapping' if overlap else 'apart', 'of the second' if second else 'of the first'), ['contacts.DiffContactHandler.__call__'], budget=180, linear=True, triggers=True, unroll=0, limit=1000)
    def c(k): hulls(k, second, overlap)
for second in (False, True):
    for overlap in (False, True): mk(second, overlap)
