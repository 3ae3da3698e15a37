"""C08: circle-polygon contacts."""
import math
from ..verify import *
from ..verify import Few
from .common import *
from .c07 import Lookup
from .c09 import dot, cross, plus, minus, inr, vec_, unit, nrm, val, ZERO, BIG, Poly, Hull2, normal, support_spec
from . import c09
CONTRACTS = [c for c in c09.CONTRACTS if c.name.startswith(('get_support', 'edge normals'))]
ASSUMES = ['polygons are strictly convex, counter-clockwise (as the constructor accepts them), their position lies in them, and everything is nearer than 1e10', 'the search for the closest point ends (termination is not proved)',
           'tensors hash and compare by identity inside a set, as torch documents (no two vertices of a polygon are the same object)']
R1 = T.num(1)


class Bary:
    """barycentric coordinates of a point with respect to up to three points: w2[i, j] the weight of i on the line through i and j, w3[i]"""
    def __init__(self, k, p, pts, name='w'):
        self.k, self.p, self.pts = k, p, pts
        n = len(pts)
        self.w2 = {(i, j): T.var('%s%d%d' % (name, i, j)) for i in range(n) for j in range(n) if i != j}
        self.w3 = [T.var('%s_%d' % (name, i)) for i in range(3)]
        defs = k.it.prover.lem.defs
        def num(t): return lambda a, env: T.evaluate(t, env, {})
        for (i, j), w in self.w2.items():
            d = minus(pts[i], pts[j]); defs[w.args[0]] = num(T.div(dot(minus(p, pts[j]), d), dot(d, d)))
        if n == 3:
            det = self.det = cross(minus(pts[1], pts[0]), minus(pts[2], pts[0]))
            for i, w in enumerate(self.w3): defs[w.args[0]] = num(T.div(self.sub(i), det))
    def sub(self, i):
        b, c = [minus(self.pts[j % 3], self.p) for j in (i + 1, i + 2)]
        return cross(b, c)
    def f2(self, i, j):
        d = minus(self.pts[i], self.pts[j])
        return self.use(T.lt(ZERO, dot(d, d)), T.eq(T.mul(self.w2[i, j], dot(d, d)), dot(minus(self.p, self.pts[j]), d)), T.eq(T.add(self.w2[i, j], self.w2[j, i]), R1))
    def f3(self, *I_):
        return self.use(T.ne(self.det, ZERO), *[T.eq(T.mul(self.w3[i], self.det), self.sub(i)) for i in I_]) + self.use(T.eq(T.add(*self.w3), R1))
    def only(self, fs):
        """those of the facts that are about the weights alone"""
        ws = {w.args[0] for w in list(self.w2.values()) + self.w3}
        return [f for f in fs if {x.args[0] for x in T.subterms([f]) if x.op == 'var'} <= ws]
    def use(self, *fs):
        for f in fs: self.k.it.assume(f)
        return list(fs)


def same_point(a, b): return all(x is y for x, y in zip(a, b))


@contract(CONTRACTS, 'get_barycentric_coords: the weights of the points', ['contacts.DiffContactHandler.get_barycentric_coords'])
def bary(k):
    n = 3 if k.it.choose() else 2
    p = k.vec('p', 2); ps = [k.vec('s%d' % i, 2) for i in range(n)]
    P, S = p.terms(), [s.terms() for s in ps]
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    if n == 2:
        d = minus(S[1], S[0]); k.require(T.lt(ZERO, dot(d, d)))
        u, v = [val(x) for x in k.it.iter(k.inv(h, 'get_barycentric_coords', p, k.list(*ps)))]
        k.ensure('the first weight', T.eq(T.mul(u, dot(d, d)), dot(minus(S[1], P), d)))
        k.ensure('the second weight', T.eq(T.mul(v, dot(d, d)), dot(minus(P, S[0]), d)))
        return
    det = cross(minus(S[1], S[0]), minus(S[2], S[0])); k.require(T.ne(det, ZERO))
    r = k.inv(h, 'get_barycentric_coords', p, k.list(*ps))
    ws = [val(k.it.getitem(x, 0)) if isinstance(x, FT) and x.shape_ != () else val(x) for x in k.it.iter(r)]
    k.ensure('three weights', len(ws) == 3)
    for i, w in enumerate(ws):
        b, c = [minus(S[j % 3], P) for j in (i + 1, i + 2)]
        k.ensure('weight %d' % i, T.eq(w, T.div(cross(b, c), det)))


def bary_spec(k, B):
    def spec(it, a, kw):
        if kw or len(a) != 2 or not isinstance(a[0], FT) or not same_point(a[0].terms(), B.p): raise Unsupported('arguments of get_barycentric_coords')
        ix = []
        for v in it.iter(a[1]):
            m = [i for i, s in enumerate(B.pts) if same_point(v.terms(), s)]
            if not m: raise Unsupported('points of get_barycentric_coords')
            ix.append(m[0])
        sc = lambda t: FT.fn((), lambda: t, k.dtype)
        if len(ix) == 2:
            B.f2(*ix); return k.list(*[sc(B.w2[i, j]) for i, j in (ix, ix[::-1])])
        if len(ix) != 3: raise Unsupported('points of get_barycentric_coords')
        B.f3(0, 1, 2)
        return k.list(*[FT.fn((1,), lambda _, i=i: B.w3[i], k.dtype) for i in ix])
    k.it.fspecs['DiffContactHandler.get_barycentric_coords'] = spec


class Lemma:
    """clauses about the weights: proved once, for any triangle and point, and used after that"""
    def __init__(self, k, prove): self.k, self.prove = k, prove
    def step(self, *a):
        if self.prove: self.k.derive(*a)
    def clause(self, name, facts, g):
        if self.prove: self.k.derive(name, facts(), g)
        else: self.k.it.assume(g)


def voronoi(k, B, prove):
    """the regions of the vertices, edges and the interior of a triangle cover the plane"""
    L = Lemma(k, prove)
    for x in range(3):
        for y in range(3):
            if x == y: continue
            z = 3 - x - y
            a, b = T.le(B.w3[z], ZERO), T.le(B.w2[x, y], ZERO)
            L.clause('beyond the end of an edge', lambda: B.f3(z, x) + B.f2(x, y) + B.f2(z, y), T.not_(T.and_(a, b, T.lt(ZERO, B.w2[z, y]), T.lt(ZERO, B.w3[x]))))
            g = T.not_(T.and_(a, b, T.le(B.w2[y, z], ZERO), T.lt(ZERO, B.w2[x, z])))
            if not prove: k.it.assume(g); continue
            X, Y, Z_ = B.pts[x], B.pts[y], B.pts[z]
            e, f, q = minus(Y, X), minus(Z_, Y), minus(B.p, Y)
            H = ends(e, f, q, B.w3[z])
            fs = [(B.f3(z), H[0]), (B.f3(z), H[1]), ([], T.implies(a, H[2])), (B.f2(x, y), T.implies(b, H[3])), (B.f2(y, z), T.implies(T.le(B.w2[y, z], ZERO), H[4])), (B.f2(x, z), T.implies(T.lt(ZERO, B.w2[x, z]), H[5]))]
            for hyp, h in fs: k.derive('lemma: beyond the end of two edges', hyp, h)
            no = T.not_(T.and_(*H)); k.it.assume(no)
            k.derive('beyond the end of two edges', [h for _, h in fs] + [no], g)


def obtuse(k, B, prove):
    """a point of the triangle is not beyond the end of two edges in a row (a triangle has at most one obtuse angle)"""
    if not prove:
        for x in range(3):
            for y in range(3):
                if x != y: k.it.assume(T.not_(T.and_(T.le(B.w2[x, y], ZERO), T.le(B.w2[y, 3 - x - y], ZERO), *[T.lt(ZERO, w) for w in B.w3])))
        return
    W = []
    for i in range(3):
        w = T.eq(B.w3[i], T.div(B.sub(i), B.det)); k.derive('weight as a quotient', B.f3(i), w); W.append(w)
    sides = {}
    for i, j in ((0, 1), (1, 2), (0, 2)):
        d = minus(B.pts[j], B.pts[i]); l, dl = k.let('#l%d%d' % (i, j), dot(d, d))
        pos = T.lt(ZERO, l); k.derive('an edge has a length', B.f2(i, j)[:1] + [dl], pos)
        sides[i, j] = sides[j, i] = (l, dl, pos)
    for x in range(3):
        for y in range(3):
            if x == y: continue
            z = 3 - x - y
            e, f = minus(B.pts[y], B.pts[x]), minus(B.pts[z], B.pts[y])
            s, ds = k.let('#s%d%d' % (x, y), dot(e, f))
            E, F = sides[x, y], sides[y, z]; a, c = B.w3[x], B.w3[z]
            r1 = T.eq(T.mul(B.w2[x, y], E[0]), T.sub(T.mul(a, E[0]), T.mul(c, s)))
            r2 = T.eq(T.mul(B.w2[y, z], F[0]), T.sub(T.add(F[0], T.mul(a, s)), T.mul(c, F[0])))
            k.derive('weight on the first edge', B.f2(x, y) + [W[x], W[z], E[1], ds], r1)
            k.derive('weight on the second edge', B.f2(y, z) + [W[x], W[z], F[1], ds], r2)
            g = T.not_(T.and_(T.le(B.w2[x, y], ZERO), T.le(B.w2[y, z], ZERO), *[T.lt(ZERO, w) for w in B.w3]))
            k.derive('not beyond two ends', [r1, r2, E[2], F[2]] + B.f3()[-1:], g)


def ends(e, f, q, w):
    """a point q (from the common end of edges e and f of a triangle) beyond the far ends of both, on the outer side of e"""
    d = cross(e, f)
    r = minus(q, f); g = [T.neg(T.add(x, y)) for x, y in zip(e, f)]
    return [T.ne(d, ZERO), T.eq(T.mul(w, d), cross(e, q)), T.le(w, ZERO), T.le(ZERO, dot(q, e)), T.le(ZERO, dot(r, f)), T.lt(ZERO, dot(r, g))]


@contract(CONTRACTS, 'lemma: nothing lies beyond the ends of two edges of a triangle and not at its corner')
def ends_lemma(k):
    e, f, q = [[T.var('%s[%d]' % (n, c)) for c in (0, 1)] for n in 'efq']
    H = ends(e, f, q, T.var('w'))
    for h in H[:5]: k.require(h)
    k.from_('no such point', H[:5], T.not_(H[5]))


@contract(CONTRACTS, 'lemma: where a point can lie with respect to the vertices, edges and interior of a triangle', budget=150)
def regions(k):
    P = k.vec('p', 2).terms()
    S = [plus(P, [T.var('a%d[%d]' % (i, c)) for c in (0, 1)]) for i in range(3)]
    B = Bary(k, P, S)
    k.require(T.ne(B.det, ZERO))
    voronoi(k, B, True); obtuse(k, B, True)


def closest(n):
    @contract(CONTRACTS, 'get_closest: the point of the simplex nearest to the point (%d points)' % n, ['contacts.DiffContactHandler.get_closest'])
    def c(k):
        p = k.vec('p', 2); P = p.terms()
        S = [plus(P, [T.var('a%d[%d]' % (i, c)) for c in (0, 1)]) for i in range(n)]     # any points, relative to p
        ps = [vec_(s, k.dtype) for s in S]
        B = Bary(k, P, S)
        if n == 2: k.require(T.lt(ZERO, dot(minus(S[1], S[0]), minus(S[1], S[0]))))
        if n == 3:
            k.require(T.ne(B.det, ZERO))
            voronoi(k, B, False); obtuse(k, B, False)
        bary_spec(k, B)
        h = k.call(k.cls('contacts', 'DiffContactHandler'))
        cl, ids = k.it.iter(k.inv(h, 'get_closest', p, k.list(*ps)))
        cl = cl.terms(); ids = [int(T.val(t_of(i))) for i in k.it.iter(ids)]
        k.ensure('points of the simplex', len(set(ids)) == len(ids) and all(0 <= i < n for i in ids) and 1 <= len(ids) <= 3)
        tail = list(k.it.pc)
        if len(ids) == 1:
            k.same('that point', vec_(cl, k.dtype), S[ids[0]])
            for j in range(n):
                if j != ids[0]: k.from_('no point is nearer', tail, T.le(dot(minus(P, S[ids[0]]), minus(S[j], S[ids[0]])), ZERO))
        elif len(ids) == 2:
            a, b = ids; w = B.w2[a, b]
            k.same('between the two points', vec_(cl, k.dtype), plus(S[b], [T.mul(w, x) for x in minus(S[a], S[b])]))
            k.from_('strictly between', tail, T.and_(T.lt(ZERO, w), T.lt(w, R1)))
            k.from_('at a right angle', B.f2(a, b), T.eq(dot(minus(P, plus(S[b], [T.mul(w, x) for x in minus(S[a], S[b])])), minus(S[a], S[b])), ZERO))
            if n == 3:
                z = 3 - a - b; q = plus(S[b], [T.mul(w, x) for x in minus(S[a], S[b])])
                d = minus(S[a], S[b]); d2 = dot(d, d)
                w2 = T.eq(w, T.div(dot(minus(P, S[b]), d), d2)); w3 = T.eq(B.w3[z], T.div(B.sub(z), B.det))
                k.derive('weight on the edge', B.f2(a, b), w2); k.derive('weight of the third point', B.f3(z), w3)
                out = T.le(B.w3[z], ZERO); k.derive('on the outer side of the edge', B.only(tail), out)
                x, dx = k.let('#x%d' % z, dot(minus(P, q), minus(S[z], q))); e, de = k.let('#e', d2); det, dd = k.let('#det', B.det)
                pos = T.lt(ZERO, e); k.derive('the edge has a length', B.f2(a, b)[:1] + [de], pos)
                xx = T.eq(T.mul(x, e), T.mul(B.w3[z], T.mul(det, det)))
                k.derive('how much nearer the third point is', [w2, w3, dx, de, dd], xx)
                k.from_('the third point is not nearer', [pos, xx, out], T.le(x, ZERO))
        else:
            k.same('the point itself', vec_(cl, k.dtype), P)
            k.from_('inside', tail, T.and_(*[T.lt(ZERO, B.w3[i]) for i in range(3)]))
            W = []
            for i in range(3):
                w = T.eq(B.w3[i], T.div(B.sub(i), B.det)); k.derive('weight %d' % i, B.f3(i), w); W.append(w)
            for c in (0, 1): k.from_('the combination of the three points with these weights', W + B.f3(0), T.eq(P[c], T.add(*[T.mul(B.w3[i], S[i][c]) for i in range(3)])))
    return c
for n in (1, 2, 3): closest(n)


# --- the whole search
def turn_right(e): return [e[1], T.neg(e[0])]


@contract(CONTRACTS, 'is_outside: whether the point is strictly on the outer side of some edge', ['contacts.DiffContactHandler.is_outside', 'utils.left_orthogonal'], triggers=True, split_mod=True)
def outside(k):
    A = Poly(k, 'A')
    p = k.vec('p', 2); P = p.terms()
    g = lambda q: dot(turn_right(A.edge(q)), minus(P, A.P(q)))
    class Loop(LoopSpec):
        name = 'is_outside'; doc = 'the point is on the inner side of the edges seen'
        def __init__(self, it, sc, seq): self.it, self.sc, self.m, self.seq = it, sc, Z, seq
        def inv(self):
            q = T.fresh_bv()
            return T.forall(q, Z, self.m, T.le(g(q), ZERO))
        def havoc(self): self.m = T.var('sk_m', 'I'); self.it.assume(T.and_(T.le(Z, self.m), T.le(self.m, A.n)))
        def more(self): return T.lt(self.m, A.n)
        def item(self):
            A.last = self.m; self.it.decide(T.lt(T.add(self.m, ONE), A.n))
            return self.seq.elem(self.m)
        def next(self): self.m = T.add(self.m, ONE)
        def after(self): self.it.assume(T.eq(self.m, A.n))
    k.it.loops[('DiffContactHandler.is_outside', 'For', 0)] = Loop
    A.last = None
    r = k.inv(k.call(k.cls('contacts', 'DiffContactHandler')), 'is_outside', p, A.verts)
    q = skolem(k, 'q', A.n)
    if k.truth(r): k.ensure('some edge has the point on its outer side', T.boolc(A.last is not None) if A.last is None else T.and_(inr(A.last, A.n), T.lt(ZERO, g(A.last))))
    else: k.ensure('no edge has', T.le(g(q), ZERO))


class Hull8(Hull2):
    """the polygon, its vertices distinct objects"""
    def __init__(self, k, name):
        Hull2.__init__(self, k, name)
        def at(i):
            v = frozen(vec_(self.P(self.same.get(i, i)), k.dtype)); v.ident = (self, i)
            return v
        self.verts = self.obj.attrs['verts'] = I.SList(self.n, at)


def foot(U, Up, v, p):
    """edges with unit vectors Up, U meet in v; p lies inside and no deeper behind the first than behind the second"""
    N, Np = nrm(U), nrm(Up); d = minus(p, v)
    return [T.and_(unit(U), unit(Up)), T.lt(ZERO, cross(Up, U)), T.le(dot(N, d), ZERO), T.le(dot(Np, d), dot(N, d))], T.le(ZERO, dot(U, d))


@contract(CONTRACTS, 'lemma: the foot of the perpendicular on the nearest edge is not beyond its corner')
def foot_lemma(k):
    U, Up, v, p = [[T.var(n + '[%d]' % c) for c in (0, 1)] for n in 'U Up v p'.split()]
    H, g = foot(U, Up, v, p)
    for h in H: k.require(h)
    k.ensure('not beyond', g)


def search(k, swap, deep):
    it = k.it
    A = Hull8(k, 'A')
    rad = k.ten('rad'); R = t_of(rad.scalar()); k.require(T.lt(ZERO, R))
    eps = k.real('eps'); k.require(T.le(ZERO, eps.t))
    cp = k.vec('c', 2); C = cp.terms()
    circle = k.obj(k.cls('bodies', 'Circle'), rad=rad, pos=frozen(cp))
    p = minus(C, A.pos)
    q = skolem(k, 'q', A.n)                           # any edge or vertex
    st = {}
    sc = lambda t: FT.fn((), lambda: t, k.dtype)
    num = lambda t: (lambda a, env: T.evaluate(t, env, {}))
    def regular(ix):
        """instances of strict convexity: vertices are different, and no three are on a line"""
        S = [A.P(i) for i in ix]
        if len(ix) == 2: d = minus(S[1], S[0]); return A.use(T.lt(ZERO, dot(d, d)))
        if len(ix) == 3: return A.use(T.ne(cross(minus(S[1], S[0]), minus(S[2], S[0])), ZERO))
        return []
    def ids(vs):
        out = []
        for v in vs:
            if not isinstance(v, FT) or not v.ident or v.ident[0] is not A: raise Unsupported('a simplex of other points')
            out.append(v.ident[1])
        return out
    class Search(LoopSpec):
        name = 'the search for the closest point'; doc = 'the simplex consists of one to three different vertices'
        def __init__(self, it, sc, seq): self.it, self.sc = it, sc
        def havoc(self):
            n = 3
            if it.choose(): n = 1
            elif it.choose(): n = 2
            ix = [T.var('sk_%d' % i, 'I') for i in range(n)]
            for i in ix: it.assume(inr(i, A.n))
            for a in range(n):
                for b in range(a): it.assume(T.ne(ix[a], ix[b]))
            it.put_in(self.sc, self.sc.vars, 'simplex', k.list(*[A.verts.items.ver.at(i) for i in ix]))
        def inv(self):
            v = self.sc.vars.get('simplex')
            if not isinstance(v, I.PList): raise Unsupported('no simplex')
            ix = ids(it.iter(v))
            return T.and_(T.boolc(1 <= len(ix) <= 3), *[inr(i, A.n) for i in ix], *[T.ne(ix[a], ix[b]) for a in range(len(ix)) for b in range(a)])
    class Left(LoopSpec):
        name = 'the search for the closest point'; doc = 'its result is only used when the centre is outside'; cut = True
        def __init__(self, it, sc, seq): self.it, self.sc = it, sc
        def inv(self): return T.TRUE
        def havoc(self):
            st['r'] = [A.start]
            it.put_in(self.sc, self.sc.vars, 'closest', k.vec('closest', 2))
            it.put_in(self.sc, self.sc.vars, 'ids_used', k.list(*range(3 if it.choose() else 2)))
    it.loops[('DiffContactHandler.__call__', 'While', 0)] = Left if deep else Search
    def closest_spec(it, a, kw):
        """get_closest (proved above)"""
        if kw or len(a) != 2 or not isinstance(a[0], FT) or not same_point(a[0].terms(), p): raise Unsupported('arguments of get_closest')
        ix = ids(it.iter(a[1])); n = len(ix)
        S = [A.P(i) for i in ix]
        for f in regular(ix): it.oblige('get_closest is given points that are not on a line', f)
        if n == 1: r = (0,)
        else:
            rs = [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(n) if i != j] + ([(0, 1, 2)] if n == 3 else [])
            while len(rs) > 1:
                if it.choose(): break
                rs = rs[1:]
            r = rs[0]
        st.clear(); st['mark'] = len(it.pc)
        st['r'] = [ix[i] for i in r]; fs = []
        def let(nm, t):
            v = T.var(it.fresh_name(nm)); it.prover.lem.defs[v.args[0]] = num(t); return v
        if len(r) == 1:
            cl = S[r[0]]; fs = [T.le(dot(minus(p, cl), minus(S[j], cl)), ZERO) for j in range(n) if j != r[0]]
        elif len(r) == 2:
            a, b = [S[i] for i in r]; d = minus(a, b)
            w = let('w', T.div(dot(minus(p, b), d), dot(d, d)))
            t = plus(b, [T.mul(w, x) for x in d]); cl = [let('cl%d' % c, t[c]) for c in (0, 1)]
            st['w0'] = w; st['on'] = A.use(*[T.eq(x, y) for x, y in zip(cl, t)])
            st['w'] = A.use(T.lt(ZERO, w), T.lt(w, R1)); st['perp'] = A.use(T.eq(dot(minus(p, cl), d), ZERO))
            fs = [T.le(dot(minus(p, cl), minus(S[j], cl)), ZERO) for j in range(n) if j not in r]
            st['d'] = d
        else:
            cl = p
            B = Bary(k, p, S, it.fresh_name('bary'))
            st['w'] = A.use(*[T.lt(ZERO, w) for w in B.w3], T.eq(T.add(*B.w3), R1)); st['ws'] = B.w3
            st['p'] = A.use(*[T.eq(p[c], T.add(*[T.mul(B.w3[i], S[i][c]) for i in range(3)])) for c in (0, 1)])
        st['cl'] = cl; st['near'] = A.use(*fs); st['S'] = {i: x for i, x in zip(ix, S)}
        return (frozen(vec_(cl, k.dtype)), k.list(*r))
    it.fspecs['DiffContactHandler.get_closest'] = closest_spec
    def supp(it, a, kw):
        """get_support (proved in C09): a vertex furthest in the direction"""
        if kw or len(a) != 2 or a[0] is not A.verts: raise Unsupported('arguments of get_support')
        d = st['dir'] = a[1].terms()
        j = st['j'] = T.var(it.fresh_name('sk_j'), 'I')
        it.prover.lem.defs[j.args[0]] = lambda _, env: max(range(max(1, env('A.n', (), 'I'))), key=lambda i: T.evaluate(dot(A.P(n_(i)), d), env, {}))
        it.assume(inr(j, A.n)); st['far'] = T.le(dot(A.P(q), d), dot(A.P(j), d)); it.assume(st['far'])
        return (A.verts.items.ver.at(j), SV(j))
    it.fspecs['DiffContactHandler.get_support'] = supp
    def nearest(u, cl, path):
        """no vertex q lies beyond the line through the closest point: the furthest vertex j in that direction, one of the simplex, does not"""
        d, j = st['dir'], st['j']
        names = {}
        def let(nm, t):
            v, f = k.let('#' + nm, t); names[nm] = (v, f)
            return v
        dd, m, c = let('dd', dot(d, d)), let('m', dot(u, d)), let('c', cross(d, u))
        D_ = [f for _, f in names.values()]
        par, side, pos = T.eq(c, ZERO), T.le(ZERO, m), T.lt(ZERO, dd)
        k.derive('the direction of the search is that of the centre (parallel)', [names['c'][1]] + st.get('perp', []), par)
        k.derive('the direction of the search is that of the centre (side)', [names['m'][1]] + path, side)
        k.derive('the direction of the search is one', [names['dd'][1]] + path, pos)
        def split(nm, i):
            v = minus(A.P(i), cl)
            x, y, z = let('x' + nm, dot(u, v)), let('y' + nm, dot(d, v)), let('z' + nm, cross(d, v))
            f = T.eq(T.mul(dd, x), T.add(T.mul(m, y), T.mul(c, z)))
            k.derive('product along and across', [names[n][1] for n in ('dd', 'm', 'c', 'x' + nm, 'y' + nm, 'z' + nm)], f)
            return x, y, f
        x, y, f = split('', q)
        goal = T.le(x, ZERO); cases = []
        for n, i in enumerate(st['S']):
            xi, yi, fi = split(str(n), i)
            same = T.eq(j, i)
            g1, g2 = T.implies(same, T.le(y, yi)), T.le(xi, ZERO)
            h = T.implies(same, T.le(dot(A.P(q), d), dot(A.P(i), d)))
            it.assume(h)                               # what is known of j, for an equal index
            k.derive('none is further than that vertex', [h, names['y'][1], names['y%d' % n][1]], g1)
            if i in st['r']: 
                g2 = T.eq(xi, ZERO); fs = [names['x%d' % n][1]]
                if len(st['r']) == 2:
                    e = T.eq(xi, T.mul(T.sub(R1, st['w0']) if i is st['r'][0] else T.neg(st['w0']), dot(u, st['d'])))
                    k.derive('along the line', fs + st['on'], e); fs = [e]
                k.derive('the points used are on the line', fs + st.get('perp', []), g2)
            else: k.derive('the others are not beyond it', [names['x%d' % n][1]] + st['near'], g2)
            g = T.implies(same, goal); cases.append(g)
            k.derive('case', [par, side, pos, f, fi, g1, g2], g)
        k.derive('no vertex is beyond', cases + [T.or_(*[T.eq(j, i) for i in st['S']])], goal)
        return [goal, names['x'][1]]
    def behind(e):
        """the centre is behind edge e"""
        if deep:                                         # as proved of the search
            f = T.le(dot(A.N(e), minus(p, A.P(e))), ZERO); it.assume(f); return f
        n = st.get(('edge', e))
        f = T.le(dot(A.N(e), minus(p, A.P(e))), ZERO)
        if n is not None: return f
        st['edge', e] = 1
        ins = [g for i in st['r'] for g in A.inside(e, i)]
        if st.get('out') is False:                     # an instance of what is_outside found
            x = A.nxt(e); x = A.same.get(x, x); l = A.link(e, x)
            g = A.use(T.le(dot(turn_right(minus(A.P(x), A.P(e))), minus(p, A.P(e))), ZERO))
            k.derive('behind an edge', l + g, f); return f
        if len(st['r']) == 3:
            # as a combination of vertices that are
            vs = [dot(A.N(e), minus(A.P(i), A.P(e))) for i in st['r']]
            k.derive('behind an edge', ins + st['w'] + st['p'], f); return f
        eq = T.and_(*[T.eq(x, y) for x, y in zip(p, st['cl'])])
        rooted = [(f, x) for f in it.pc[st['mark']:] for x in T.subterms([f]) if x.op == 'sqrt']
        if rooted:
            (x, fx), (y, fy) = [k.let('#d%d' % c, minus(p, st['cl'])[c]) for c in (0, 1)]
            f, root = rooted[0]
            r, fr = k.let('#root', root)
            h1, h2 = T.eq(T.mul(r, r), T.add(T.mul(x, x), T.mul(y, y))), T.and_(T.le(ZERO, r), T.le(r, ZERO))
            k.derive('the square of the distance', [fx, fy, fr], h1); k.derive('the distance is not positive', [f, fr], h2)
            z = T.and_(T.eq(x, ZERO), T.eq(y, ZERO)); k.derive('no distance', [h1, h2], z)
            k.derive('the centre is the closest point', [z, fx, fy], eq)
        else: k.derive('the centre is the closest point', list(it.pc[st['mark']:]), eq)
        k.derive('behind an edge', [eq] + ins + st.get('w', []) + st.get('on', []), f)
        return f
    def outside_spec(it, a, kw):
        """is_outside (proved above)"""
        if kw or len(a) != 2 or not same_point(a[0].terms(), p) or a[1] is not A.verts: raise Unsupported('arguments of is_outside')
        if deep: return False
        if it.choose():
            x = T.app('A.beyond', (), 'I'); it.assume(inr(x, A.n)); st['out'] = True; st['x'] = x
            n = A.next(x); l = A.link(x, n)
            g = A.use(T.lt(ZERO, dot(turn_right(minus(A.P(n), A.P(x))), minus(p, A.P(x)))))
            f = T.lt(ZERO, dot(A.N(x), minus(p, A.P(x)))); k.derive('on the outer side', l + g, f); st['beyond'] = f
            return True
        st['out'] = False
        return False
    it.fspecs['DiffContactHandler.is_outside'] = outside_spec
    it.prover.lem.defs['A.beyond'] = lambda a, env: max(range(max(1, env('A.n', (), 'I'))), key=lambda j: T.evaluate(dot(A.N(n_(j)), minus(p, A.P(n_(j)))), env))
    depth = lambda e: T.sub(dot(A.N(e), minus(p, A.P(e))), R)
    D = lambda e: T.app('A.dist', (e,))                 # by definition the above; used at the edges that matter
    it.prover.lem.defs['A.dist'] = lambda a, env: T.evaluate(depth(n_(a[0])), env)
    def D_(e): return A.use(T.eq(D(e), depth(e)))
    class Sat(LoopSpec):
        name = 'the search for the nearest edge'; doc = 'best is the edge of largest distance seen, and cached'
        def __init__(self, it, sc, seq):
            self.it, self.sc, self.m, self.seq = it, sc, Z, seq
            st['deep'] = True
            if not deep:
                k.ensure('the nearest edge is only searched for when the centre is not outside', behind(q))
                raise PathEnd()            # the subject of another contract
        def seen(self, f, e): 
            """f(e) if e is among start .. start + m - 1 modulo n"""
            top = T.add(A.start, self.m)
            return T.implies(T.or_(T.and_(T.le(A.start, e), T.lt(e, top)), T.lt(e, T.sub(top, A.n))), f(e))
        def inv(self):
            v = self.sc.vars
            if self.m is Z: return T.eq(val(v['best_dist']), T.neg(BIG))
            e, d = t_of(A.obj.attrs['last_sat_idx']), val(v['best_dist'])
            return T.and_(inr(e, A.n), T.eq(d, D(e)), *[T.eq(a, b) for a, b in zip(v['best_normal'].terms(), A.N(e))],
                          *[T.eq(a, T.sub(b, T.mul(T.add(d, R), c))) for a, b, c in zip(v['best_pt2'].terms(), p, A.N(e))],
                          *[T.eq(T.add(a, C[i]), T.add(b, A.pos[i])) for i, (a, b) in enumerate(zip(v['best_pt1'].terms(), v['best_pt2'].terms()))], self.all(lambda e: T.le(D(e), d)))
        def all(self, f):
            y = T.fresh_bv(); z = T.fresh_bv(); top = T.add(A.start, self.m)
            return T.and_(T.forall(y, A.start, T.ite(T.lt(top, A.n), top, A.n), f(y)), T.forall(z, Z, T.sub(top, A.n), f(z)))
        def havoc(self):
            put = lambda n, v: it.put_in(self.sc, self.sc.vars, n, v)
            if it.choose():
                self.m = Z; put('best_dist', sc(T.neg(BIG))); it.setattr(A.obj, 'last_sat_idx', SV(A.start))
                return
            self.m = T.var('sk_m', 'I'); it.assume(T.and_(T.le(ONE, self.m), T.le(self.m, A.n)))
            e = st['e'] = T.var('sk_e', 'I')
            it.setattr(A.obj, 'last_sat_idx', SV(e))
            put('best_dist', k.ten('best_dist')); put('best_normal', frozen(vec_(A.N(e), k.dtype)))
            put('best_pt1', k.vec('best_pt1', 2)); put('best_pt2', k.vec('best_pt2', 2))
        def more(self): return T.lt(self.m, A.n)
        def item(self):
            e = T.add(A.start, self.m)
            if not it.decide(T.lt(e, A.n)): e = T.sub(e, A.n)
            n = T.add(e, ONE); c = T.lt(n, A.n)
            if not it.decide(c): n = T.sub(n, A.n)
            it.assume(inr(n, A.n))
            link, un = A.link(e, n), A.unit(e)
            # the edge normal as computed (the lemma on edge normals, C09)
            N = normal(minus(A.P(n), A.P(e)))
            eq = A.use(*[T.eq(x, y) for x, y in zip(N, A.N(e))])
            raw = T.sub(dot(N, minus(p, A.P(e))), R); de = D_(e)
            k.derive('the distance from the edge', eq + de, T.eq(raw, D(e)))
            k.derive('of an edge behind which the centre is', de + [behind(e)], T.le(D(e), T.neg(R)))
            self.now = e, eq + de + [T.eq(raw, D(e))], dict(zip(N, A.N(e)))
            it.assume(T.lt(T.neg(BIG), D(e)))
            return self.seq.elem(self.m)
        def next(self):
            """the new best, in simpler terms"""
            v = self.sc.vars; e, eq, m = self.now
            if t_of(A.obj.attrs['last_sat_idx']) is e:
                foot = [T.sub(x, T.mul(T.add(D(e), R), y)) for x, y in zip(p, A.N(e))]
                for n, t in (('best_dist', [D(e)]), ('best_normal', A.N(e)), ('best_pt2', foot), ('best_pt1', [T.sub(T.add(x, A.pos[c]), C[c]) for c, x in enumerate(foot)])):
                    for x, y in zip(v[n].terms(), t):
                        z = T.subst(x, m); it.assume(T.eq(x, z))          # the normal as computed is that of the edge
                        k.derive('the new ' + n, eq, T.eq(z, y))
                    it.put_in(self.sc, v, n, frozen(vec_(t, k.dtype)) if len(t) == 2 else sc(t[0]))
            self.m = T.add(self.m, ONE)
        def after(self):
            it.assume(T.eq(self.m, A.n))
            if self.m is Z: raise PathEnd()
    it.loops[('DiffContactHandler.__call__', 'For', 0)] = Sat
    g = [k.obj(None, no_contact=(), body=SV(T.var('i%d' % j, 'I'))) for j in (0, 1)]
    pair = [A.obj, circle] if swap else [circle, A.obj]
    world = k.obj(None, eps=eps, contacts=k.list(), bodies=Lookup([(T.var('i0', 'I'), pair[0]), (T.var('i1', 'I'), pair[1])]))
    k.call(k.call(k.cls('contacts', 'DiffContactHandler')), k.list(world), *g)
    if bool(st.get('deep')) != deep: raise PathEnd()
    cs = [it.iter(c) for c in it.iter(k.attr(world, 'contacts'))]
    k.ensure('at most one contact', len(cs) <= 1)
    k.ensure('the cached edge is one of the polygon', inr(t_of(A.obj.attrs['last_sat_idx']), A.n))
    path = list(it.pc[st.get('mark', 0):])
    if not deep:
        cl = st['cl']; d = minus(p, cl)
        dist = T.sqrt(T.add(T.powi(d[0], 2), T.powi(d[1], 2)))
    if cs:
        (c, i, j) = cs[0]
        k.ensure('indices', T.and_(T.eq(t_of(i), T.var('i0', 'I')), T.eq(t_of(j), T.var('i1', 'I'))))
        n, p1, p2, pen = it.iter(c); pen = val(pen); n = n.terms(); p1, p2 = p1.terms(), p2.terms()
        if swap: n = [T.neg(x) for x in n]; p1, p2 = p2, p1
        w1, w2 = plus(p1, C), plus(p2, A.pos)
        for c in (0, 1): k.from_('the offsets designate the same point', path, T.eq(w1[c], w2[c]))
    if not deep:
        k.ensure('the centre is outside', st.get('out') is True)
        near = T.lt(ZERO, dist) if True else None
        within = T.le(T.sub(dist, R), eps.t)
        k.ensure('a contact iff the closest point is within the margin', T.eq(T.boolc(len(cs) == 1), within))
        if 'j' not in st:
            # the direction is not zero
            rt = [any(x.op == 'sqrt' for x in T.subterms([f])) for f in path]
            plain = [f for f, r in zip(path, rt) if not r]
            if len(st['r']) == 2: k.from_('the search does not end between two vertices', plain + A.use(T.lt(ZERO, dot(st['d'], st['d']))), T.FALSE); return
            eq = [T.eq(x, ZERO) for x in d]
            for e in eq: k.derive('the search ends at the centre only', plain, e)
            k.from_('and the centre is not outside then', eq + [f for f, r in zip(path, rt) if r], T.FALSE); return
        # no point of the polygon is nearer: none of its vertices lies beyond the line through the closest point
        k.from_('no point of the polygon is nearer', nearest(d, cl, path), T.le(dot(d, minus(A.P(q), cl)), ZERO))
        if cs:
            for c in (0, 1):
                k.ensure('the contact is at the closest point', T.eq(p2[c], cl[c]))
                k.ensure('the normal points from there to the centre', T.eq(n[c], T.div(d[c], dist)))
            k.ensure('the penetration is the radius less the distance', T.eq(pen, T.sub(R, dist)))
        return
    k.ensure('a contact', len(cs) == 1)
    if not cs: return
    e = st['e']; it.assume(inr(e, A.n)); best = T.var('best_dist')
    k.ensure('no edge is nearer', T.le(D(q), best))
    k.same('the penetration', [pen], [T.neg(best)])
    k.ensure('of that edge', T.eq(best, D(e)))
    k.same('the outward normal of the edge', n, A.N(e))
    ft = [T.eq(p2[c], T.sub(p[c], T.mul(T.add(best, R), A.N(e)[c]))) for c in (0, 1)]
    for f in ft: k.derive('the foot of the perpendicular', path, f)
    de, un = D_(e), A.unit(e); b = T.eq(best, D(e)); ub = [behind(e)]
    k.from_('on the line of the edge', ft + de + un + [b], T.eq(dot(A.N(e), minus(p2, A.P(e))), ZERO))
    # not beyond the corners: the edges before and after it are not nearer
    def corner(o, turn, flip, v, g):
        F = (lambda a: [T.neg(a[0]), a[1]]) if flip else (lambda a: a)
        G = (lambda a: [a[0], T.neg(a[1])]) if flip else (lambda a: a)
        H, concl = foot(G(A.U(e)), G(A.U(o)), F(v), F(p))
        le = A.use(T.le(D(o), best)); do = D_(o)
        facts = [un + A.unit(o), turn, ub + (g if flip else []), le + do + de + [b] + g]
        for h, f in zip(H, facts): k.derive('lemma: nearest edge', f, h)
        it.assume(concl)
        return concl
    y = A.prev(e); z = A.next(e); l = A.link(e, z)
    k.ensure('the edges beside it are not nearer', T.and_(T.le(D(y), best), T.le(D(z), best)))
    c1 = corner(y, A.turn(y, e), False, A.P(e), A.link(y, e))
    c2 = corner(z, A.turn(e, z), True, A.P(z), l)
    k.from_('not beyond its start', ft + un + [c1], T.le(ZERO, dot(A.U(e), minus(p2, A.P(e)))))
    k.from_('not beyond its end', ft + un + [c2], T.le(dot(A.U(e), minus(p2, A.P(z))), ZERO))


def mk(swap, deep):
    @contract(CONTRACTS, '%s, the centre %s' % (('polygon and circle' if swap else 'circle and polygon'), 'inside' if deep else 'outside'), ['contacts.DiffContactHandler.__call__'], budget=180, linear=True, triggers=True, split_mod=deep, unroll=0, limit=1000)
    def c(k): search(k, swap, deep)
for swap in (False, True):
    for deep in (False, True): mk(swap, deep)
