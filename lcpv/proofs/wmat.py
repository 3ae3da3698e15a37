"""a world seen by the engine: matrices and vectors of any sizes, by the contracts of the methods that assemble them (C03-C05, C07)"""
import itertools
from .mat import *
from .common import Family, SymObj
from ..eng.interp import SList
GOT = 'the matrices of the world by their contracts (C03, C04, C05, C06, C07)'


def merged(x):
    """the same tensor with each axis one segment"""
    return x


class MWorld:
    """one state of a world: bodies, joints, contacts as given; n: name of the state"""
    def __init__(self, k, eq, con, empty_contacts=True):
        self.k, self.eq, self.con = k, eq, con
        self.nb = k.size('nb'); self.nv = T.mul(T.num(3, 'I'), self.nb)
        self.ne = k.size('neq') if eq else None
        self.nc = k.size('ncon'); self.fd = k.size('fric_dirs'); self.nf = T.mul(self.fd, self.nc)
        self.M = k.atom('M', self.nv, self.nv, sym=True, inv=True)
        W = k.cls('world', 'World')
        self.w = w = k.obj(W)
        fam = Family('body', self.nb)
        w.attrs.update(bodies=SList(self.nb, lambda i: SymObj(fam, i)), vec_len=3, fric_dirs=wrap(self.fd), num_constraints=wrap(self.ne) if eq else 0, dt=.03)
        self.fam = fam
        sp = k.it.fspecs
        sp['World.M'] = lambda it, a, kw: self.tM()
        sp['World.Je'] = lambda it, a, kw: self.tJe()
        sp['World.Jc'] = lambda it, a, kw: self.touching('Jc', k.mat(self.Jc))
        sp['World.Jf'] = lambda it, a, kw: self.touching('Jf', k.mat(self.Jf))
        sp['World.restitutions'] = lambda it, a, kw: self.touching('restitutions', k.vecm(self.e))
        sp['World.mu'] = lambda it, a, kw: self.touching('mu', k.mat((p_atom(B.diag_of_atom(self.mu)), self.nc, self.nc)))
        sp['World.E'] = lambda it, a, kw: self.touching('E', k.mat(self.E))
        sp['World.apply_forces'] = lambda it, a, kw: self.forces(a, kw)
        k.it.used_specs[GOT] = 1
        self.t = SV(T.var('t'))
        self.E = k.atom('E', self.nf, self.nc, ev=lambda env: np.kron(np.eye(env.size(self.nc)), np.ones((env.size(self.fd), 1))))
        self.state(0, con)
    def touching(self, n, v):
        if not self.con: raise IRaise('RuntimeError', n + ' of a world without contacts')
        return v
    def forces(self, a, kw):
        t = (list(a[1:]) + list(kw.values()))
        ok = len(t) == 1 and isinstance(t[0], (SV, FT, int, float)) and (t[0] is self.t or (isinstance(t[0], SV) and t[0].t is self.t.t))
        self.k.ensure('forces are those at the time of the world', ok)
        return self.k.vecm(self.f)
    def state(self, i, con, moved=True):
        """another state of the same world: velocities, forces and, unless every joint is static, the joint Jacobian"""
        k = self.k; self.con = con
        n = lambda s: '%s%d' % (s, i)
        self.v, self.f = k.atom(n('v'), self.nv), k.atom(n('f'), self.nv)
        if self.eq: self.Je = k.atom(n('Je') if moved else 'Je', self.ne, self.nv)
        self.Jc, self.Jf = k.atom(n('Jc'), self.nc, self.nv), k.atom(n('Jf'), self.nf, self.nv)
        self.e, self.mu = k.atom(n('e'), self.nc), k.pos(n('mu'), self.nc)
        w = self.w.attrs
        w['v'] = k.vecm(self.v); w['_M'] = self.tM(); w['t'] = self.t
        w['contacts'] = SList(self.nc, lambda i: tuple(SymObj(Family('contact', self.nc), i) for _ in range(3))) if con else k.list()
        self.dt = SV(T.var(n('dt')))
        k.it.assume(T.lt(T.num(0), self.dt.t))
    def tM(self): return self.k.mat(self.M)
    def tJe(self):
        if self.eq: return self.k.mat(self.Je)
        return BT(Val(((), (self.nv,)), False, {}))
    def range_je(self):
        """words that start with Je^T do not matter, and the projection that removes them"""
        if not self.eq: return None
        jt = B.transposed(self.Je)
        def proj(env):
            J = B.a_val(self.Je, env)
            return np.eye(J.shape[1]) - J.T @ np.linalg.pinv(J.T)
        return (lambda w: bool(w) and w[0] is jt, proj)
    def P(self):
        """[[M, -Je^T], [Je, 0]]"""
        if not self.eq: return BT(Val(((self.nv,), (self.nv,)), False, {(0, 0): p_atom(self.M)}))
        s = (self.nv, self.ne)
        return BT(Val((s, s), False, {(0, 0): p_atom(self.M), (0, 1): p_scale(p_atom(B.transposed(self.Je)), T.num(-1)), (1, 0): p_atom(self.Je)}))
    def w_(self, *a): return norm_word(Fraction(1), R1, a)


class Solver:
    """LCPFunction by its contract: Q x + p + G^T z + A^T y = 0, G x + s = h + F z, A x = b, z >= 0, s >= 0, z s = 0 (C11)"""
    def __init__(self, k, ne):
        self.k, self.ne, self.calls = k, ne, []
        k.it.fspecs['LCPFunction.__call__'] = lambda it, a, kw: self.solve(a[1:], kw)
        k.it.used_specs['LCPFunction: x, z, s, y with Q x + p + G^T z + A^T y = 0, G x + s = h + F z, A x = b, z >= 0, s >= 0, z s = 0 (C11)'] = 1
    def solve(self, a, kw):
        k = self.k
        Q, p, G, h, A, b, F = a
        n = len(self.calls)
        for x, d, nm in ((Q, 3, 'Q'), (p, 2, 'p'), (G, 3, 'G'), (h, 2, 'h'), (F, 3, 'F')):
            k.ensure('%s is given as a batch of one' % nm, isinstance(x, BT) and x.ndim() == d and k.it.implied(T.eq(T.toR(tt(B.seg_sum(x.val.shape[0]))), T.num(1))))
        un = lambda x: Val(x.val.content(), False, x.val.blocks, x.val.cut)
        Qv, pv, Gv, hv, Fv = un(Q), un(p), un(G), un(h), un(F)
        nx = B.seg_sum(Qv.shape[0])
        for ax in (0, 1): Qv = B.refine(Qv, ax, (nx,)) if len(Qv.shape[ax]) == 1 else Qv
        if any(len(s) != 1 for s in Qv.shape) or len(pv.shape[0]) != 1 or len(Gv.shape[1]) != 1: raise Unsupported('blocks')
        segs = Gv.shape[0]
        for u, ax in ((hv, 0), (Fv, 0), (Fv, 1)): segs = B.common(segs, u.shape[ax])
        Gv = B.refine(Gv, 0, segs); hv = B.refine(hv, 0, segs); Fv = B.refine(B.refine(Fv, 0, segs), 1, segs)
        m = len(segs)
        eq = isinstance(A, BT) and A.ndim() > 1 and len(B.drop0(A.val.content()[0])) > 0
        ne = None
        if eq:
            Av, bv = un(A), un(b)
            if len(Av.shape[0]) != 1: raise Unsupported('blocks')
            ne = Av.shape[0][0]
        g = lambda v, *i: B.poly(v.blocks.get(i, Poly())) if v.blocks.get(i) else Poly()
        key = 'q%d' % n
        def num(env, part):
            r = env.vals.get(key)
            if r is None:
                f = lambda p, a, b_: B.p_val(p, env, (a, b_))
                z = [np.maximum(env.rng.uniform(-1, 2, (env.size(s), 1)), 0) for s in segs]
                N = env.size(nx); c = -f(g(pv, 0), nx, ONE_D)
                for i, s in enumerate(segs): c = c - f(g(Gv, i, 0), s, nx).T @ z[i]
                K = f(g(Qv, 0, 0), nx, nx)
                if eq:
                    a_ = f(g(Av, 0, 0), ne, nx); E = a_.shape[0]
                    K = np.block([[K, a_.T], [a_, np.zeros((E, E))]]); c = np.concatenate([c, f(g(bv, 0), ne, ONE_D)])
                xy = np.linalg.solve(K, c)
                x = xy[:N]; s_ = []
                for i, s in enumerate(segs):
                    t = f(g(hv, i), s, ONE_D) - f(g(Gv, i, 0), s, nx) @ x
                    for j, s2 in enumerate(segs): t = t + f(g(Fv, i, j), s, s2) @ z[j]
                    s_.append(t)
                r = env.vals[key] = dict(x=x, y=xy[N:], z=z, s=s_)
            return r[part] if isinstance(part, str) else r[part[0]][part[1]]
        at = lambda nm, sz, part: k.atom('%s %s' % (key, nm), sz, ev=lambda env: num(env, part))
        x = at('x', nx, 'x'); z = [at('z%d' % i, s, ('z', i)) for i, s in enumerate(segs)]; sl = [at('s%d' % i, s, ('s', i)) for i, s in enumerate(segs)]
        y = at('y', ne, 'y') if eq else None
        e = p_add(p_mul(g(Qv, 0, 0), p_atom(x)), g(pv, 0))
        for i in range(m): e = p_add(e, p_mul(p_t(g(Gv, i, 0)), p_atom(z[i])))
        if eq: e = p_add(e, p_mul(p_t(g(Av, 0, 0)), p_atom(y)))
        hy = [e]
        for i in range(m):
            e = p_add(p_add(p_mul(g(Gv, i, 0), p_atom(x)), p_atom(sl[i])), g(hv, i), Fraction(-1))
            for j in range(m): e = p_add(e, p_mul(g(Fv, i, j), p_atom(z[j])), Fraction(-1))
            hy.append(e)
        if eq: hy.append(p_add(p_mul(g(Av, 0, 0), p_atom(x)), g(bv, 0), Fraction(-1)))
        k.given(*hy)
        self.calls.append(dict(x=x, y=y, z=z, s=sl, segs=segs))
        return BT(Val((B.axis(ONE_D), (nx,)), True, {(0,): p_atom(x)}))


def try_all(k, goals_of, options):
    """goals for one of the options: the first that is proved, else refuted only if every option is"""
    best = None
    for o in options:
        gs = goals_of(o); n0 = len(k.it.obls)
        for name, p, shape, kw in gs: k.zero(name, p, shape, **kw)
        new = k.it.obls[n0:]; del k.it.obls[n0:]
        if all(x[2] is T.TRUE for x in new): k.it.obls += new; return
        bad = sum(x[2] is T.FALSE for x in new)
        if best is None or bad < best[0]: best = (bad, new)
    if best is None: k.ensure('the blocks of the problem are those of contacts, friction directions and friction cones', False)
    else: k.it.obls += best[1]
