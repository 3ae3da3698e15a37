"""C10: the factorised KKT solve solves the KKT system."""
from .mat import *
from .common import skolem
CONTRACTS = []
ASSUMES = ['torch.linalg.lu_factor / lu_solve act as specified (P L U = X; solution of P L U X = B), efficient_btriunpack by its contract', 'Q, A Q^-1 A^T and R + D^-1 are invertible, Q is symmetric']
PD = 'solvers.pdipm.'


class Prob:
    def __init__(self, k, eq, sym=True, prefix='', sizes=None):
        self.k = k
        sizes = prefix if sizes is None else sizes
        self.B, self.nx, self.ni = k.size(sizes + 'B'), k.size(sizes + 'nx'), k.size(sizes + 'nineq')
        self.ne = k.size(sizes + 'neq') if eq else None
        self.eq = eq
        self.Q = k.atom(prefix + 'Q', self.nx, self.nx, sym=True, inv=True)
        self.G = k.atom(prefix + 'G', self.ni, self.nx)
        self.F = k.atom(prefix + 'F', self.ni, self.ni, ev=lambda env: env.rng.uniform(-5, 5, (env.size(self.ni),) * 2))
        self.A = k.atom(prefix + 'A', self.ne, self.nx) if eq else None
    def w(self, *atoms): return norm_word(Fraction(1), R1, tuple(atoms))
    def tQ(self): return self.k.mat(self.Q, self.B)
    def tG(self): return self.k.mat(self.G, self.B)
    def tF(self): return self.k.mat(self.F, self.B)
    def tA(self): return self.k.mat(self.A, self.B) if self.eq else self.k.empty()
    # the blocks of the reduced matrix
    def AA(self): return self.w(self.A, self.Q.inv, B.transposed(self.A))
    def AG(self): return self.w(self.A, self.Q.inv, B.transposed(self.G))
    def GA(self): return self.w(self.G, self.Q.inv, B.transposed(self.A))
    def GG(self, F): return p_add(self.w(self.G, self.Q.inv, B.transposed(self.G)), F)
    def R(self, F):
        """G Q^-1 G^T + F less its projection on the equalities"""
        r = self.GG(F)
        if self.eq: r = p_add(r, p_mul(self.GA(), p_mul(self.lu1().solve_poly(), self.AG())), Fraction(-1))
        return r
    def lu1(self): return lu_of(self.ne, self.AA())
    def state(self, k2, done=False):
        """S_LU after pre_factor_kkt and any number of refreshes; k2: the last factorisation of the lower block, or None"""
        k = self.k
        Bx = B.axis(self.B)
        blocks = {}; piv = {}
        segs = ((self.ne,) if self.eq else ()) + (self.ni,)
        m = len(segs) - 1
        if self.eq:
            k1 = self.lu1()
            blocks[0, 0] = Packed(k1); piv[(0,)] = Piv(k1, Z)
            blocks[0, 1] = p_mul(p_atom(k1.U), p_mul(k1.solve_poly(), self.AG()))
            l21 = p_mul(self.GA(), p_atom(k1.Ui))
            blocks[1, 0] = l21 if k2 is None else p_mul(p_atom(k2.P.t), l21)
        if k2 is not None: blocks[m, m] = Packed(k2)
        piv[(m,)] = Piv(k2, self.ne if self.eq else Z)
        return I.PList([BT(Val((Bx, segs, segs), True, blocks)), BT(Val((Bx, segs), True, piv, kind='piv'))])
    def check_state(self, what, S, k2, zero22=False):
        """the state predicate: S_LU is that of self.state(k2)"""
        k = self.k
        data, piv = k.it.iter(S)
        ref = self.state(k2)
        d0, p0 = ref.items
        segs = d0.val.content()[0]
        if not (isinstance(data, BT) and isinstance(piv, BT) and len(data.val.content()) == 2 and len(piv.val.content()) == 1):
            k.it.obls.append(('invariant of ' + what, list(k.it.pc), UNDECIDED)); return
        v, u = data.val, piv.val
        for ax in (0, 1): v = B.refine(v, ax, segs)
        u = B.refine(u, 0, segs)
        for i in range(len(segs)):
            x, y = u.blocks.get((i,)), p0.val.blocks[(i,)]
            good = isinstance(x, Piv) and x.k is y.k and k.it.implied(T.eq(x.off, y.off))
            k.it.obls.append(('invariant of %s: pivots of block %d' % (what, i), list(k.it.pc), T.TRUE if good else self.other_piv(x, y)))
            for j in range(len(segs)):
                x, y = v.blocks.get((i, j), Poly()), d0.val.blocks.get((i, j), Poly())
                n = '%s: block %d,%d' % (what, i, j)
                if isinstance(y, Packed) or isinstance(x, Packed):
                    good = isinstance(x, Packed) and isinstance(y, Packed) and x.k is y.k
                    if good or not isinstance(y, Packed): k.it.obls.append(('invariant of ' + n, list(k.it.pc), T.TRUE if good else UNDECIDED))
                    else:
                        xX = x.k.X if isinstance(x, Packed) else x
                        k.equal(n, xX, y.k.X, (segs[i], segs[j]), kind='invariant of ')
                        k.it.obls.append(('invariant of ' + n + ' factors', list(k.it.pc), UNDECIDED))
                else: k.equal(n, x, y, (segs[i], segs[j]), kind='invariant of ')
    def other_piv(self, x, y):
        """pivots that differ from the specified ones: compare them on numbers"""
        k = self.k
        if not isinstance(x, Piv): return UNDECIDED
        for seed in range(20):
            env = B.Env(seed)
            if not all(T.evaluate(c, env.look, {}) for c in k.it.pc): continue
            n = 3
            f = lambda q: B.perm_num(Val(((T.num(n, 'I') if q.k is None else q.k.size,),), False, {(0,): q}, kind='piv'), (T.num(n, 'I') if q.k is None else q.k.size,), env)
            a, b = f(x), f(y)
            if a.shape != b.shape or (a != b).any(): return T.FALSE
        return UNDECIDED


def lu_of(n, p):
    key = (n, p.key())
    if key not in B._lus: B._lus[key] = LU(p, n)
    return B._lus[key]


def setup(k, eq):
    P = Prob(k, eq)
    k.it.fspecs['efficient_btriunpack'] = lambda it, a, kw: B.unpack(*a, **kw)
    k.it.used_specs['efficient_btriunpack: the permutation and the triangular factors of packed factors and pivots'] = 1
    return P


def old_mask(k, P):
    """factor_kkt_eye as any earlier call may have left it: nothing, or a mask for other or the same sizes"""
    m = k.it.load(LCP + 'solvers.pdipm')
    if 'factor_kkt_eye' not in m.env: return
    c = k.it.choose(3)
    if c == 0: v = None
    else:
        b, n = (k.size('B_old'), k.size('nineq_old')) if c == 1 else (P.B, P.ni)
        v = B.BT(Val((B.axis(b), B.axis(n), B.axis(n)), True, {(0, 0): p_one()}))
    k.it.put_in(m, m.env, 'factor_kkt_eye', v)


def dinv(d): return diag_poly(B.recip(p_atom(d)))


def mk_pre(eq):
    @contract(CONTRACTS, 'pre_factor_kkt establishes the partial factorisation (%s equalities)' % ('with' if eq else 'no'), [PD + 'pre_factor_kkt', PD + 'btrifact_hack', PD + 'btrisolve', 'util.get_sizes'], kclass=KM)
    def pre(k):
        P = setup(k, eq)
        f = k.fn(LCP + 'solvers.pdipm', 'pre_factor_kkt')
        q, s, r = k.it.iter(k.call(f, P.tQ(), P.tG(), P.tF(), P.tA()))
        qd, qp = k.it.iter(q)
        b = qd.val.blocks.get((0, 0)); kq = lu_of(P.nx, p_atom(P.Q))
        k.ensure('Q_LU are the factors of Q', isinstance(b, Packed) and b.k is kq and qp.val.blocks[(0,)].k is kq and qp.val.blocks[(0,)].off is Z)
        k.sized('size of R', r, P.B, P.ni, P.ni)
        k.equal('R', k.only(r), P.R(p_atom(P.F)), (P.ni, P.ni))
        P.check_state('S_LU', s, None)


def mk_factor(eq):
    @contract(CONTRACTS, 'factor_kkt completes the factorisation from any earlier state (%s equalities)' % ('with' if eq else 'no'), [PD + 'factor_kkt', PD + 'btrifact_hack'], kclass=KM)
    def factor(k):
        P = setup(k, eq)
        f = k.fn(LCP + 'solvers.pdipm', 'factor_kkt')
        old_mask(k, P)
        d = k.pos('d', P.ni)
        k2 = lu_of(P.ni, p_atom(k.atom('T_old', P.ni, P.ni))) if k.it.choose() else None
        S = P.state(k2)
        R = k.atom('R', P.ni, P.ni)
        r = k.mat(R, P.B); dd = k.vecm(d, P.B)
        k.call(f, S, r, dd)
        Tn = p_add(p_atom(R), dinv(d))
        P.check_state('S_LU', S, lu_of(P.ni, Tn))
        k.equal('R is unchanged', k.only(r), p_atom(R), (P.ni, P.ni))
        k.equal('d is unchanged', k.only(dd), p_atom(d), (P.ni, ONE_D))


def kkt(k, P, out, d, rx, rs, rz, ry, F=None):
    """the four equations"""
    dx, ds, dz, dy = out
    eq = P.eq
    k.sized('size of dx', dx, P.B, P.nx); k.sized('size of ds', ds, P.B, P.ni); k.sized('size of dz', dz, P.B, P.ni)
    k.sized('size of dy', dy, *([P.B, P.ne] if eq else []))
    x, s, z = k.only(dx), k.only(ds), k.only(dz)
    t = B.transposed
    F = p_atom(P.F) if F is None else F
    e1 = sum_([p_mul(p_atom(P.Q), x), p_mul(p_atom(t(P.G)), z), rx])
    if eq: e1 = p_add(e1, p_mul(p_atom(t(P.A)), k.only(dy)))
    k.zero('Q dx + G^T dz + A^T dy = -rx', e1, (P.nx, ONE_D))
    D = diag_poly(p_atom(d))
    k.zero('d ds + dz = -rs', sum_([p_mul(D, s), z, rs]), (P.ni, ONE_D))
    k.zero('G dx + ds - F dz = -rz', sum_([p_mul(p_atom(P.G), x), s, p_scale(p_mul(F, z), T.num(-1)), rz]), (P.ni, ONE_D))
    if eq: k.zero('A dx = -ry', sum_([p_mul(p_atom(P.A), x), ry]), (P.ne, ONE_D))


def rhs(k, P, zero):
    rx, rs, rz = k.atom('rx', P.nx), k.atom('rs', P.ni), k.atom('rz', P.ni)
    ry = k.atom('ry', P.ne) if P.eq else None
    vec = lambda a: k.vecm(a, P.B)
    trs = B.zeros(wrap(P.B), wrap(P.ni)) if zero else vec(rs)
    yin = vec(ry) if P.eq else (None if k.it.choose() else 0.)
    return [vec(rx), trs, vec(rz), yin], [p_atom(rx), Poly() if zero else p_atom(rs), p_atom(rz), p_atom(ry) if P.eq else Poly()]


def mk_solve(eq):
    @contract(CONTRACTS, 'solve_kkt solves the KKT system (%s equalities)' % ('with' if eq else 'no'), [PD + 'solve_kkt', PD + 'btrisolve', 'util.get_sizes'], kclass=KM)
    def solve(k):
        P = setup(k, eq)
        f = k.fn(LCP + 'solvers.pdipm', 'solve_kkt')
        d = k.pos('d', P.ni)
        F = p_atom(P.F)
        S = P.state(lu_of(P.ni, p_add(P.R(F), dinv(d))))
        kq = lu_of(P.nx, p_atom(P.Q)); Bx = B.axis(P.B)
        QLU = (BT(Val((Bx, (P.nx,), (P.nx,)), True, {(0, 0): Packed(kq)})), BT(Val((Bx, (P.nx,)), True, {(0,): Piv(kq, Z)}, kind='piv')))
        a, r = rhs(k, P, k.it.choose())
        out = k.it.iter(k.call(f, QLU, k.vecm(d, P.B), P.tG(), P.tA(), S, *a))
        kkt(k, P, out, d, *r)
        for n, b, at in zip(('rx', 'rs', 'rz', 'ry'), a, r):
            if isinstance(b, BT): k.equal('%s is unchanged' % n, k.only(b), at, (B.seg_sum(b.val.content()[0]), ONE_D))


def mk_whole(eq):
    @contract(CONTRACTS, 'pre_factor_kkt, up to three refreshes, solve_kkt together (%s equalities)' % ('with' if eq else 'no'), [PD + 'pre_factor_kkt', PD + 'factor_kkt', PD + 'solve_kkt'], kclass=KM)
    def whole(k):
        P = setup(k, eq)
        pre, fac, solve = (k.fn(LCP + 'solvers.pdipm', n) for n in ('pre_factor_kkt', 'factor_kkt', 'solve_kkt'))
        old_mask(k, P)
        q, s, r = k.it.iter(k.call(pre, P.tQ(), P.tG(), P.tF(), P.tA()))
        tr = k.it.choose()
        if tr: r = r.m_transpose(1, 2)
        n = k.it.choose(3)
        ds = [k.pos('d%d' % i, P.ni) for i in range(n)] + [k.pos('d', P.ni)]
        for d in ds: k.call(fac, s, r, k.vecm(d, P.B))
        a, rr = rhs(k, P, False)
        out = k.it.iter(k.call(solve, q, k.vecm(ds[-1], P.B), P.tG(), P.tA(), s, *a))
        kkt(k, P, out, ds[-1], *rr, F=p_t(p_atom(P.F)) if tr else None)


def sum_(ps):
    r = Poly()
    for p in ps: r = p_add(r, p)
    return r


for eq in (True, False): mk_pre(eq); mk_factor(eq); mk_solve(eq); mk_whole(eq)


def valid_pivots(n):
    import itertools
    return list(itertools.product(*[range(i, n) for i in range(n)]))


@contract(CONTRACTS, 'efficient_btriunpack: unit lower and upper factors of packed data of any size', ['util.efficient_btriunpack'])
def unpack_data(k):
    nb, n = k.int('nB', 1), k.int('sz', 1)
    d = k.ten('LU', (nb, n, n))
    P, L, U = k.it.iter(k.call(k.fn(LCP + 'util', 'efficient_btriunpack'), d, k.ten('piv', (nb, n), 'i64'), unpack_pivots=False))
    k.ensure('no permutation asked for', P is None)
    b, i, j = skolem(k, 'b', nb), skolem(k, 'i', n), skolem(k, 'j', n)
    x = T.app('LU', (b, i, j)); one, zero = T.num(1), T.num(0)
    for nm, t in (('L', L), ('U', U)): k.ensure('size of ' + nm, len(t.shape_) == 3 and T.and_(T.eq(tt(t.shape_[0]), nb), T.eq(tt(t.shape_[1]), n), T.eq(tt(t.shape_[2]), n)))
    k.ensure('L is unit lower triangular and below the diagonal the data', T.eq(L.at(b, i, j), T.ite(T.lt(j, i), x, T.ite(T.eq(i, j), one, zero))))
    k.ensure('U is upper triangular, from the diagonal on the data', T.eq(U.at(b, i, j), T.ite(T.le(i, j), x, zero)))
    k.ensure('the data are unchanged', T.eq(d.at(b, i, j), x))


def mk_perm(n):
    @contract(CONTRACTS, 'bounded: efficient_btriunpack, the permutation of %d pivots' % n, ['util.efficient_btriunpack'])
    def perm(k):
        """P^T applies the interchanges of the pivots in order: rows i and piv[i], for i = 0, 1, ..."""
        vs = valid_pivots(n); one, zero = T.num(1), T.num(0)
        f = k.fn(LCP + 'util', 'efficient_btriunpack')
        for a in range(0, len(vs), 2):
            ps = [vs[a], vs[(a * 7 + 3) % len(vs)]]
            piv = FT.fn((2, n), lambda b, i: T.num(ps[int(T.val(b))][int(T.val(i))] + 1, 'I'), 'i64')
            P, L, U = k.it.iter(k.call(f, k.ten('LU', (2, n, n)), piv, unpack_data=False))
            k.ensure('no factors asked for', L is None and U is None)
            for b in (0, 1):
                o = list(range(n))
                for i, j in enumerate(ps[b]): o[i], o[j] = o[j], o[i]
                k.same('P for pivots %s' % (ps[b],), P.index(b), [one if o[c] == r else zero for r in range(n) for c in range(n)])


BOUNDED = ['efficient_btriunpack: the permutation matrix, for all pivots of up to 4 rows in batches of two (its triangular factors are proved for all sizes)']
for n in (1, 2, 3, 4): mk_perm(n)
