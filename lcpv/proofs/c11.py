"""C11: the interior-point solver keeps strict feasibility and returns its best iterate."""
from .common import *
from ..eng import terms as T
CONTRACTS = []
PD = 'lcp_physics.lcp.solvers.pdipm'
ASSUMES = ['solve_kkt returns some search direction of the right sizes and changes none of its arguments; factor_kkt changes S_LU only (what they compute: C10)',
           'a division by a zero component of a search direction gives some number (torch: an infinity or not-a-number, overwritten by the next statement)',
           'the iteration limit is at least 1']
i1, i2 = T.num(1, 'I'), T.num(2, 'I')
ZERO = T.num(0)


class Lcp:
    """an arbitrary problem: sizes, data"""
    def __init__(self, k, batch, eq):
        I_ = lambda n, lo: (k.require(T.le(T.num(lo, 'I'), T.var(n, 'I'))), T.var(n, 'I'))[1]
        self.B = I_('B', 2) if batch else 1
        self.N, self.nz = I_('N', 1), I_('nz', 1)
        self.ne = I_('neq', 1) if eq else 0
        self.k, self.eq = k, eq
        t = k.ten
        B, N, nz, ne = self.B, self.N, self.nz, self.ne
        self.Q, self.p, self.G, self.h, self.F = t('Q', (B, nz, nz)), t('p', (B, nz)), t('G', (B, N, nz)), t('h', (B, N)), t('F', (B, N, N))
        self.A = t('A', (B, ne, nz)) if eq else k.num(0, (0,))
        self.b = t('b', (B, ne)) if eq else k.num(0, (0,))

    def new(self, n, name): return self.k.ten(self.k.it.fresh_name(name), (self.B, n))

    def resid(self, x, s, z, y, b):
        """|stationarity| + |primal feasibility| + complementarity at (x, s, z, y); x, ... give the entries of row b"""
        Q, p, G, h, A, bb, F = (v.snap() for v in (self.Q, self.p, self.G, self.h, self.A, self.b, self.F))
        S = lambda n, f: (lambda v: T.summ(v, Z, n, f(v)))(T.fresh_bv())
        norm = lambda n, f: T.sqrt(S(n, lambda j: (lambda e: T.mul(e, e))(f(j))))
        rx = lambda j: T.add(S(self.ne, lambda q: T.mul(y(q), A(b, q, j))) if self.eq else ZERO, S(self.N, lambda q: T.mul(z(q), G(b, q, j))), S(self.nz, lambda q: T.mul(x(q), Q(b, j, q))), p(b, j))
        rz = lambda j: T.add(S(self.nz, lambda q: T.mul(x(q), G(b, j, q))), s(j), T.neg(h(b, j)), T.neg(S(self.N, lambda q: T.mul(z(q), F(b, j, q)))))
        r = T.add(norm(self.N, rz), norm(self.nz, rx))
        if self.eq: r = T.add(norm(self.ne, lambda j: T.sub(S(self.nz, lambda q: T.mul(x(q), A(b, j, q))), bb(b, j))), r)
        n = T.toR(self.N)
        return T.add(r, T.mul(n, T.abs_(T.div(S(self.N, lambda j: T.mul(s(j), z(j))), n))))


def callees(k, P, visits):
    it = k.it
    def solve(it_, a, kw):
        return tuple(P.new(n, 'd' + c) if n is not None else None for c, n in zip('xszy', (P.nz, P.N, P.N, P.ne if P.eq else None)))
    it.fspecs['solve_kkt'] = solve
    def factor(it_, a, kw):
        if visits and visits.get('inloop') and it.choose():
            visits['cut'] = True
            raise IRaise('RuntimeError', 'singular')
    it.fspecs['factor_kkt'] = factor
    def step(it_, a, kw):
        v, dv = a[0], a[1]
        b, i = T.fresh_bv(), T.fresh_bv()
        fv, fd = v.snap(), dv.snap()
        it.oblige('get_step is called on positive values', forall2(P, b, i, T.lt(ZERO, fv(b if P.B != 1 else Z, i))))
        if not shape_eq(v.shape_, (P.B, P.N)) or not shape_eq(dv.shape_, (P.B, P.N)): raise Unsupported('get_step of other sizes')
        n = it.fresh_name('step')
        if P.B == 1:
            t = T.var(n); r = FT.fn((), lambda: t, v.dtype_)
            it.assume(T.lt(ZERO, t)); it.assume(T.forall(i, Z, P.N, T.le(ZERO, T.add(fv(Z, i), T.mul(t, fd(Z, i))))))
        else:
            r = FT.fn((P.B,), lambda b: T.app(n, (b,)), v.dtype_); t = T.app(n, (b,))
            it.assume(T.forall(b, Z, P.B, T.lt(ZERO, t)))
            it.assume(T.forall(b, Z, P.B, T.forall(i, Z, P.N, T.le(ZERO, T.add(fv(b, i), T.mul(t, fd(b, i)))))))
        return r
    it.fspecs['get_step'] = step


def forall2(P, b, i, body):
    r = T.forall(i, Z, P.N, body)
    return r if P.B == 1 else T.forall(b, Z, P.B, r)


def each(P, f):
    """f(b) for all rows b"""
    if P.B == 1: return f(Z)
    b = T.fresh_bv()
    return T.forall(b, Z, P.B, f(b))


def pos(P, x):
    i = T.fresh_bv(); f = x.snap()
    return each(P, lambda b: T.forall(i, Z, P.N, T.lt(ZERO, f(b, i))))


def stores(xs): return [x.store for x in xs if x is not None]


def main_loop(P, visits, entry):
    class Iter:
        name = 'forward'; doc = 'iterates stay strictly positive; best is the visited iterate with the smallest residual, in storage of its own'
        def __init__(self, it, sc, seq):
            self.it, self.sc = it, sc
            self.n = None
            self.bi = None
            for v in ('x', 's', 'z', 'y', 'best'):
                if v not in sc.vars: raise Unsupported('the loop of forward has no variable %s' % v)
            self.seq = seq
            visits['vars'] = sc
        # state
        def cur(self): return [self.sc.vars[v] for v in 'xszy']
        def best(self): return [self.it.getitem(self.sc.vars['best'], v) for v in ('x', 's', 'z', 'y', 'resids')]
        def sizes(self): return [P.nz, P.N, P.N, P.ne if P.eq else None]
        def rshape(self): return () if P.B == 1 else (P.B,)
        def r_(self, k, b): return T.app('RES', (k, b))
        def h_(self, c, k, b, j): return T.app('H' + c, (k, b, j))
        def history(self, k, b): return [(lambda c: lambda j: self.h_(c, k, b, j))(c) for c in 'xszy']
        def shaped(self):
            for v, n in zip(self.cur(), self.sizes()):
                if (v is None) != (n is None) or v is not None and not (isinstance(v, FT) and shape_eq(v.shape_, (P.B, n))): return False
            return True
        def inv(self):
            """at the start of an iteration: n iterates have been visited before the current one"""
            if not self.shaped(): return T.FALSE
            x, s, z, y = self.cur()
            st = stores([x, s, z, y]) + entry
            c = [pos(P, s), pos(P, z)]
            best = self.best()
            if self.n is None:        # entry
                if any(v is not None for v in best): return T.FALSE
                return T.and_(T.boolc(len(set(map(id, st))) == len(st)), *c)
            if self.n is Z and all(v is None for v in best): return T.and_(*c)
            if any((v is None) != (n is None) or v is not None and not (isinstance(v, FT) and shape_eq(v.shape_, sh)) for v, n, sh in zip(best, self.sizes() + [1], [(P.B, n) for n in self.sizes()] + [self.rshape()])): return T.FALSE
            st += stores(best)
            c += [pos(P, best[1]), pos(P, best[2])]
            c.append(T.boolc(len(set(map(id, st))) == len(st)))
            fr = best[4].snap()
            def row(b):
                bi = self.bi(b)
                d = [T.le(Z, bi), T.lt(bi, self.n), T.eq(fr() if P.B == 1 else fr(b), self.r_(bi, b))]
                q = T.fresh_bv()
                d.append(T.forall(q, Z, self.n, T.le(self.r_(bi, b), self.r_(q, b))))
                for v, ch, n in zip(best, 'xszy', self.sizes()):
                    if v is None: continue
                    f = v.snap(); j = T.fresh_bv()
                    d.append(T.forall(j, Z, n, T.eq(f(b, j), self.h_(ch, bi, b, j))))
                return T.and_(*d)
            return T.and_(each(P, row), *c)
        def havoc(self):
            it, sc = self.it, self.sc
            for v, n in zip('xszy', self.sizes()):
                it.put_in(sc, sc.vars, v, P.new(n, v) if n is not None else None)
            it.put_in(sc, sc.vars, 'nNotImproved', SV(T.var(it.fresh_name('nni'), 'I')))
            first = bool(it.choose())
            d = I.PDict({v: None for v in ('resids', 'x', 'z', 's', 'y')})
            self.n = Z
            if not first:
                self.n = T.var('sk_n', 'I'); it.assume(T.le(i1, self.n))
                for v, n in zip('xszy', self.sizes()): d.d[v] = P.new(n, 'best_' + v) if n is not None else None
                d.d['resids'] = P.k.ten(it.fresh_name('best_r'), self.rshape())
                self.bi = (lambda b: T.app('BI', (b,), 'I'))
            it.put_in(sc, sc.vars, 'best', d)
            # ghost: the current iterate is entry n of the history, RES its residual
            x, s, z, y = self.cur()
            for v, ch, n in zip(self.cur(), 'xszy', self.sizes()):
                if v is None: continue
                f = v.snap(); j = T.fresh_bv()
                it.assume(each(P, lambda b: T.forall(j, Z, n, T.eq(self.h_(ch, self.n, b, j), f(b, j)))))
            fs = [v.snap() if v is not None else None for v in self.cur()]
            row = lambda b: [(lambda f: (lambda j: f(b, j)))(f) if f is not None else None for f in fs]
            it.assume(each(P, lambda b: T.eq(self.r_(self.n, b), P.resid(*row(b), b))))
            visits.update(st=self, n=self.n, bi=self.bi, cut=False, inloop=True)
        def more(self):
            return T.TRUE if self.it.choose() else T.FALSE
        def item(self):
            self.it.assume(T.lt(self.n, t_of(self.seq.n)))
            return wrap(self.n)
        def after(self):
            # after the last iteration every one of max_iter iterates has been visited: some number of them, at least one
            self.it.assume(T.eq(self.n, t_of(self.seq.n)))
            if self.n is Z: raise PathEnd()
            visits.update(inloop=False)
        def next(self):
            n, bi = self.n, self.bi
            self.n = T.add(n, i1)
            self.bi = (lambda b: Z) if bi is None else (lambda b: T.ite(T.lt(self.r_(n, b), self.r_(bi(b), b)), n, bi(b)))
        # unrolled: the history itself
        def visit(self):
            if not self.shaped(): raise Unsupported('iterates of another shape')
            visits.setdefault('list', []).append([v.m_clone().snap() if v is not None else None for v in self.cur()])
            for v, c in zip(self.cur()[1:3], ('slack', 'multiplier')): self.it.obls.append(('ensures every %s of an iterate is positive' % c, list(self.it.pc), pos(P, v)))
    return Iter


def mk(batch, eq):
    @contract(CONTRACTS, 'forward (%s, %s equalities)' % ('a batch' if batch else 'one problem', 'with' if eq else 'no'), ['pdipm.forward'], budget=150, divisors=False, triggers=True, inf=True, unroll=0 if batch else 2, limit=3000)
    def forward(k):
        P = Lcp(k, batch, eq)
        visits = {'cut': False}
        ins = [P.Q, P.p, P.G, P.h, P.A, P.b, P.F]
        before = [v.store.ver for v in ins]
        callees(k, P, visits if not k.it.unroll else None)
        if k.it.unroll: k.require(T.le(T.var('max_iter', 'I'), T.num(3, 'I')))
        k.it.loops[('forward', 'For', 0)] = main_loop(P, visits, stores(ins))
        k.require(T.le(i1, T.var('max_iter', 'I')))
        r = k.call(k.fn(PD, 'forward'), *ins, object(), object(), object(), eps=SV(T.var('eps')), verbose=SV(T.var('verbose', 'I')) if not k.it.unroll else -1, not_improved_lim=SV(T.var('lim', 'I')), max_iter=SV(T.var('max_iter', 'I')))
        k.ensure('the problem is left as it was', all(a is v.store.ver for a, v in zip(before, ins)))
        out = list(k.it.iter(r))
        k.ensure('x, y, z, s are returned', len(out) == 4)
        x, y, z, s = out
        if visits['cut'] and visits.get('bi') is None: return      # the first factorisation failed: nothing to return
        k.ensure('multipliers of the equalities if there are any', (y is not None) == eq)
        b = T.var('sk_b', 'I') if batch else Z
        if batch: k.require(T.and_(T.le(Z, b), T.lt(b, P.B)))
        got = [v for v in (x, s, z, y)]
        js = [T.var('sk_j%d' % q, 'I') for q in range(4)]
        for j, n in zip(js, (P.nz, P.N, P.N, P.ne)):
            if isinstance(n, int): continue
            k.require(T.and_(T.le(Z, j), T.lt(j, n)))
        if any(v is None and (q < 3 or eq) for q, v in enumerate(got)):
            k.ensure('an iterate is returned', not (visits.get('cut') is False)); return
        k.ensure('one row per problem', all(v is None or shape_eq(v.shape_, (P.B, n)) for v, n in zip(got, (P.nz, P.N, P.N, P.ne))))
        val = [v.at(b, j) if v is not None else None for v, j in zip(got, js)]
        k.ensure('the slacks returned are positive', T.lt(ZERO, val[1]))
        k.ensure('the multipliers returned are positive', T.lt(ZERO, val[2]))
        if 'list' in visits:
            L = visits['list']
            row = lambda e: [(lambda f: (lambda j: f(b, j)))(f) if f is not None else None for f in e]
            R = [P.resid(*row(e), b) for e in L]
            alts = [T.and_(*[T.eq(v, f(b, j)) for v, f, j in zip(val, e, js) if v is not None], *[T.le(R[q], t) for t in R]) for q, e in enumerate(L)]
            k.ensure('the point returned is the visited iterate with the smallest residual', T.or_(*alts))
            return
        st = visits['st']; n, bi = visits['n'], visits['bi']
        # the iterates visited: 0..n-1, and n when the loop was left in iteration n after its residual was known
        hi = T.add(n, i1) if visits['inloop'] and not visits['cut'] else n
        if visits['inloop'] and not visits['cut']:
            w = n if bi is None else T.ite(T.lt(st.r_(n, b), st.r_(bi(b), b)), n, bi(b))
        else:
            if bi is None: k.ensure('an iterate is returned', visits['cut']); return
            w = bi(b)
        q = T.fresh_bv()
        k.ensure('the point returned has the smallest residual of all visited iterates', T.and_(T.le(Z, w), T.lt(w, hi), T.forall(q, Z, hi, T.le(st.r_(w, b), st.r_(q, b)))))
        for v, c, j in zip(val, 'xszy', js):
            if v is not None: k.ensure('%s is that of the same visited iterate' % c, T.eq(v, st.h_(c, w, b, j)))


for batch in (False, True):
    for eq in (False, True): mk(batch, eq)


def mk_step(batch):
    @contract(CONTRACTS, 'get_step: stays in the positive orthant (%s)' % ('a batch' if batch else 'one problem'), ['pdipm.get_step'], divisors=False, triggers=True, inf=True, unroll=2)
    def step(k):
        P = Lcp(k, batch, False)
        v, dv = k.ten('v', (P.B, P.N)), k.ten('dv', (P.B, P.N))
        k.require(pos(P, v))
        v0, d0 = v.store.ver, dv.store.ver
        t = k.call(k.fn(PD, 'get_step'), v, dv)
        k.ensure('v and dv are left as they were', v.store.ver is v0 and dv.store.ver is d0)
        k.ensure('one step per problem', shape_eq(t.shape_, (P.B,) if batch else ()))
        b = T.var('sk_b', 'I') if batch else Z
        if batch: k.require(T.and_(T.le(Z, b), T.lt(b, P.B)))
        i = T.var('sk_i', 'I'); k.require(T.and_(T.le(Z, i), T.lt(i, P.N)))
        r = t.at(b) if batch else t.at()
        k.ensure('the step is positive', T.lt(ZERO, r))
        k.ensure('v + step dv stays non-negative', T.or_(T.le(ZERO, dv.at(b, i)), T.le(ZERO, T.add(v.at(b, i), T.mul(r, dv.at(b, i))))))


for batch in (False, True): mk_step(batch)
