"""C12: gradients of the LCP solution are exact."""
from .mat import *
from ..eng.interp import Static
from .c10 import Prob, setup, old_mask, lu_of, sum_, dinv
CONTRACTS = []
ASSUMES = ['torch.linalg.lu_factor / lu_solve act as specified, efficient_btriunpack by its contract (C10)', 'the implicit function theorem: the derivatives of a strictly complementary, locally unique solution are those of its linearised optimality conditions',
           'Q, A Q^-1 A^T and R^T + D^-1 are invertible, Q is symmetric, multipliers and slacks at the returned point are not zero (C11)']
X = LCP + 'lcp'


class Lin(Prob):
    """a problem, a point, and an arbitrary perturbation of the problem together with the derivative of the point"""
    def __init__(self, k, eq, prefix='', sizes=None):
        Prob.__init__(self, k, eq, prefix=prefix, sizes=sizes)
        q = prefix
        self.z, self.lam, self.s = k.atom(q + 'z', self.nx), k.pos(q + 'lam', self.ni), k.pos(q + 's', self.ni)
        self.nu = k.atom(q + 'nu', self.ne) if eq else None
        self.p, self.h = k.atom(q + 'p', self.nx), k.atom(q + 'h', self.ni)
        self.b = k.atom(q + 'b', self.ne) if eq else None
    def inputs(self):
        k = self.k; v = lambda a: k.vecm(a, self.B)
        return (self.tQ(), v(self.p), self.tG(), v(self.h), self.tA(), v(self.b) if self.eq else k.empty(), self.tF())
    def point(self):
        k = self.k; v = lambda a: k.vecm(a, self.B)
        return v(self.z), v(self.nu) if self.eq else None, v(self.lam), v(self.s)
    def derivative(self, q=''):
        """perturbations dX of the inputs and the derivative of the point along them"""
        k = self.k; t = B.transposed
        sy = lambda env: (lambda x: x + x.T)(env.rng.uniform(-1, 1, (env.size(self.nx),) * 2))
        dQ = k.atom(q + 'dQ', self.nx, self.nx, sym=True, ev=sy)
        dp, dG, dh, dF = k.atom(q + 'dp', self.nx), k.atom(q + 'dG', self.ni, self.nx), k.atom(q + 'dh', self.ni), k.atom(q + 'dF', self.ni, self.ni)
        dA, db = (k.atom(q + 'dA', self.ne, self.nx), k.atom(q + 'db', self.ne)) if self.eq else (None, None)
        def num(env, part):
            key = ('lin', q)
            r = env.vals.get(key)
            if r is None:
                a = lambda x: B.a_val(x, env)
                nx, ni, ne = env.size(self.nx), env.size(self.ni), env.size(self.ne) if self.eq else 0
                M = np.zeros((nx + 2 * ni + ne,) * 2); r = np.zeros(nx + 2 * ni + ne)
                i1, i2, i3 = nx, nx + ni, nx + 2 * ni
                M[:nx, :nx] = a(self.Q); M[:nx, i1:i2] = a(self.G).T
                M[i1:i2, i1:i2] = np.diag(a(self.s)[:, 0]); M[i1:i2, i2:i3] = np.diag(a(self.lam)[:, 0])
                M[i2:i3, :nx] = a(self.G); M[i2:i3, i2:i3] = np.eye(ni); M[i2:i3, i1:i2] = -a(self.F)
                r[:nx] = -(a(dQ) @ a(self.z) + a(dp) + a(dG).T @ a(self.lam))[:, 0]
                r[i2:i3] = (a(dh) + a(dF) @ a(self.lam) - a(dG) @ a(self.z))[:, 0]
                if self.eq:
                    M[:nx, i3:] = a(self.A).T; M[i3:, :nx] = a(self.A)
                    r[:nx] -= (a(dA).T @ a(self.nu))[:, 0]; r[i3:] = (a(db) - a(dA) @ a(self.z))[:, 0]
                y = np.linalg.solve(M, r)[:, None]
                r = env.vals[key] = dict(z=y[:nx], lam=y[i1:i2], s=y[i2:i3], nu=y[i3:])
            return r[part]
        D = {n: k.atom(q + 'd_' + n, sz, ev=lambda env, n=n: num(env, n)) for n, sz in (('z', self.nx), ('lam', self.ni), ('s', self.ni)) + ((('nu', self.ne),) if self.eq else ())}
        w = self.w; m = lambda p: p_scale(p, T.num(-1))
        E1 = [w(dQ, self.z), w(self.Q, D['z']), w(dp), w(t(dG), self.lam), w(t(self.G), D['lam'])]
        if self.eq: E1 += [w(t(dA), self.nu), w(t(self.A), D['nu'])]
        E2 = [w(D['s']), w(B.diag_of_atom(self.lam, True), B.diag_of_atom(self.s), D['lam'])]
        E3 = [w(dG, self.z), w(self.G, D['z']), w(D['s']), m(w(dh)), m(w(dF, self.lam)), m(w(self.F, D['lam']))]
        hy = [sum_(E1), sum_(E2), sum_(E3)]
        if self.eq: hy.append(sum_([w(dA, self.z), w(self.A, D['z']), m(w(db))]))
        k.given(*hy)
        return (dQ, dp, dG, dh, dA, db, dF), D
    def pairing(self, grad, dX):
        """<grad, dX> as a 1x1 polynomial"""
        k = self.k; r = Poly()
        v = grad.val
        if len(v.content()) == 1:
            return p_mul(p_t(k.only(grad)), p_atom(dX))
        p = k.only(grad)
        for (s, w), c in p.d.items():
            cut = [i for i in range(1, len(w)) if B.is_one(w[i].rows)]
            cut = [i for i in cut if not B.is_one(w[0].rows)]
            if not cut: raise Unsupported('gradient that is not a sum of outer products')
            a, b = w[:cut[0]], w[cut[0]:]
            t = B.transposed
            m = norm_word(c, R1, tuple(t(x) for x in reversed(a)) + (dX,) + tuple(t(x) for x in reversed(b)))
            r = p_add(r, m if s is R1 else p_scale(m, s))
        return r
    def check(self, name, grads, g, q=''):
        k = self.k
        grads = k.it.iter(grads)
        if len(grads) != 7: k.ensure(name + ': one gradient per input', False); return
        dX, D = self.derivative(q)
        sizes = [(self.nx, self.nx), (self.nx,), (self.ni, self.nx), (self.ni,), (self.ne, self.nx), (self.ne,), (self.ni, self.ni)]
        tot = p_mul(p_t(p_atom(g)), p_atom(D['z']))
        for x, gr, sz, nm in zip(dX, grads, sizes, 'QpGhAbF'):
            if x is None: k.ensure('%s: no gradient for the absent %s' % (name, nm), gr is None); continue
            if not isinstance(gr, BT): k.ensure('%s: a gradient for %s' % (name, nm), False); return
            k.sized('%s: size of the gradient of %s' % (name, nm), gr, self.B, *sz)
            # one input at a time
            tot = p_add(tot, self.pairing(gr, x), Fraction(-1))
        k.zero(name + ': the change of the loss along any perturbation of the problem', tot, (ONE_D, ONE_D))


def solved(k, P, k2):
    """a solver object as the forward pass leaves it"""
    o = k.obj(k.cls(X, 'LCPFunction'))
    kq = lu_of(P.nx, p_atom(P.Q)); Bx = B.axis(P.B)
    QLU = (BT(Val((Bx, (P.nx,), (P.nx,)), True, {(0, 0): Packed(kq)})), BT(Val((Bx, (P.nx,)), True, {(0,): Piv(kq, Z)}, kind='piv')))
    x, y, z, s = P.point()
    for n, v in dict(neq=wrap(P.ne) if P.eq else 0, nineq=wrap(P.ni), nz=wrap(P.nx), Q_LU=QLU, S_LU=P.state(k2), R=BT(k.mat((P.R(p_atom(P.F)), P.ni, P.ni), P.B).val), nus=y, lams=z, slacks=s,
                     saved_tensors=(x,) + P.inputs()).items(): o.attrs[n] = v
    return o


def mk_backward(eq):
    @contract(CONTRACTS, 'LCPFunction.backward: the gradient through the optimality conditions (%s equalities)' % ('with' if eq else 'no'), ['lcp.LCPFunction.backward', 'solvers.pdipm.factor_kkt', 'solvers.pdipm.solve_kkt', 'util.bger', 'util.extract_batch_size'], kclass=KM)
    def backward(k):
        setup(k, eq); P = Lin(k, eq)
        old_mask(k, P)
        k2 = lu_of(P.ni, p_atom(k.atom('T_old', P.ni, P.ni))) if k.it.choose() else None
        o = solved(k, P, k2)
        g = k.atom('g', P.nx)
        P.check('gradient', k.inv(o, 'backward', k.vecm(g, P.B)), g)


def ipm(k, problems):
    """pdipm.forward by its contract: given the factorised problem it returns a point; the point is the problem's own"""
    calls = []
    def spec(it, a, kw):
        names = ['Q', 'p', 'G', 'h', 'A', 'b', 'F', 'Q_LU', 'S_LU', 'R', 'eps', 'verbose', 'not_improved_lim', 'max_iter']
        d = dict(zip(names, a)); d.update(kw)
        calls.append(d)
        for P in problems:
            if d['p'] is P.given_p: x, y, z, s = P.point(); return x, y, z, s
        raise Unsupported('pdipm.forward on another problem')
    k.it.fspecs['forward'] = spec
    k.it.used_specs['pdipm.forward: a solution of the LCP it is given (C11)'] = 1
    return calls


def arguments(k, P):
    a = P.inputs(); P.given_p = a[1]; P.args = a
    return a


def check_call(k, P, o, c):
    """pdipm.forward got the problem, its factorisations and the options of the solver"""
    for n, x in zip(('Q', 'p', 'G', 'h', 'A', 'b', 'F'), P.args):
        if n in ('A', 'b') and not P.eq: continue
        y = c.get(n)
        k.ensure('pdipm.forward gets %s' % n, isinstance(y, BT) and len(y.sizes()) == len(x.sizes()))
        if isinstance(y, BT): k.equal('pdipm.forward gets the %s of the problem' % n, k.only(y), k.only(x), k.shape_of(k.only(x)))
    q = k.it.iter(c['Q_LU']); b = q[0].val.blocks.get((0, 0)); kq = lu_of(P.nx, p_atom(P.Q))
    k.ensure('Q_LU are the factors of Q', isinstance(b, Packed) and b.k is kq and q[1].val.blocks[(0,)].k is kq)
    k.equal('R', k.only(c['R']), P.R(p_atom(P.F)), (P.ni, P.ni))
    P.check_state('S_LU', c['S_LU'], None)
    for n in ('eps', 'max_iter', 'verbose', 'not_improved_lim'):
        if n in c: k.ensure('option %s' % n, c[n] is o.attrs[n] or c[n] == o.attrs[n])
    k.ensure('every option that bounds the iteration is passed on', all(n in c for n in ('eps', 'max_iter', 'not_improved_lim')))


def new_solver(k):
    o = k.call(k.cls(X, 'LCPFunction'))
    for n, v in (('eps', 1e-7), ('max_iter', 77), ('not_improved_lim', 5)): k.set(o, n, v)
    return o


def mk_forward(eq):
    @contract(CONTRACTS, 'LCPFunction.forward: factorise, solve, keep the multipliers and slacks (%s equalities)' % ('with' if eq else 'no'), ['lcp.LCPFunction.__init__', 'lcp.LCPFunction.forward', 'solvers.pdipm.pre_factor_kkt'], kclass=KM)
    def forward(k):
        setup(k, eq); P = Lin(k, eq)
        calls = ipm(k, [P])
        o = new_solver(k); a = arguments(k, P)
        r = k.inv(o, 'forward', *a)
        k.ensure('one solve', len(calls) == 1)
        check_call(k, P, o, calls[0])
        x, y, z, s = P.point()
        same = lambda nm, u, v: k.equal(nm, k.only(u), k.only(v), k.shape_of(k.only(v))) if isinstance(u, BT) else k.ensure(nm, False)
        same('the primal solution is returned', r, x)
        same('multipliers are kept', k.attr(o, 'lams'), z); same('slacks are kept', k.attr(o, 'slacks'), s)
        if eq: same('multipliers of the equalities are kept', k.attr(o, 'nus'), y)
        for n, v in (('neq', P.ne if eq else Z), ('nineq', P.ni), ('nz', P.nx)): k.ensure('size ' + n, k.attr(o, n) == 0 if v is Z and isinstance(k.attr(o, n), int) else T.eq(wrap(v).t, tt(k.attr(o, n).t if isinstance(k.attr(o, n), SV) else k.attr(o, n))))


def context(k):
    c = k.obj(None)
    c.attrs['save_for_backward'] = I.Native(lambda *a: k.it.setattr(c, 'saved_tensors', tuple(a)), 'save_for_backward')
    c.attrs['needs_input_grad'] = (False,) + (True,) * 7
    return c


def mk_history(eqs):
    @contract(CONTRACTS, 'LCPApply: gradients of solves that share one solver object, in any order (%s)' % ', '.join('%s equalities' % ('with' if e else 'no') for e in eqs), ['lcp.LCPApply.forward', 'lcp.LCPApply.backward', 'lcp.LCPFunction.forward', 'lcp.LCPFunction.backward'], kclass=KM, limit=400)
    def history(k):
        setup(k, True)
        one = len(eqs) > 1 and k.it.choose(2)      # problems of the same sizes, too
        Ps = [Lin(k, e, 'ab'[i] + '.', 'ab'[0 if one else i] + '.') for i, e in enumerate(eqs)]
        ipm(k, Ps)
        old_mask(k, Ps[0]) if len(Ps) == 1 else None
        o = new_solver(k); A = k.cls(X, 'LCPApply')
        fw, bw = k.it.getattr(A, 'forward'), k.it.getattr(A, 'backward')
        cs = []
        for P in Ps:
            c = context(k); cs.append(c)
            k.equal('the solution is returned', k.only(k.call(fw, c, o, *arguments(k, P))), p_atom(P.z), (P.nx, ONE_D))
        order = [(0, 0)] if len(Ps) == 1 else [(0, 1, 0), (1, 0, 1)][k.it.choose(2)]
        if len(Ps) == 1: order = (0, 0)
        for m, i in enumerate(order):
            P = Ps[i]; q = '%s.' % m
            g = k.atom(q + 'g', P.nx)
            r = k.it.iter(k.call(bw, cs[i], k.vecm(g, P.B)))
            k.ensure('one gradient per input and none for the solver', len(r) == 8 and r[0] is None)
            if len(r) == 8: P.check('gradient %d' % m, I.PList(r[1:]), g, q)


for eq in (True, False): mk_backward(eq); mk_forward(eq); mk_history((eq,))
for eqs in ((True, True), (True, False), (False, False)): mk_history(eqs)


@contract(CONTRACTS, 'LCPFunction called: its differentiable solve on all seven inputs', ['lcp.LCPFunction.__call__'], kclass=KM)
def call(k):
    A = k.cls(X, 'LCPApply'); got = []; out = k.obj(None)
    def apply(*a): got.append(a); return out
    k.it.put_in(A, A.attrs, 'apply', Static(I.Native(apply, 'apply')))
    o = new_solver(k); a = [k.obj(None) for _ in range(7)]
    r = k.call(o, *a)
    k.ensure('the result of the solve', r is out)
    k.ensure('the solver and its inputs, in order', len(got) == 1 and len(got[0]) == 8 and got[0][0] is o and all(x is y for x, y in zip(got[0][1:], a)))
