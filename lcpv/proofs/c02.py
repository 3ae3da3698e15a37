"""C02: a step with contacts poses and solves the Coulomb contact problem."""
from .wmat import *
CONTRACTS = []
EN = 'engines.PdipmEngine.'
ASSUMES = ['LCPFunction solves its problem exactly (C11 bounds what a real solve returns)', 'E sums the friction directions of a contact, mu is diagonal (C05)']


def coulomb(k, W, S, v2):
    """v' = -x of the problem posed; ln, lf, g are three blocks of its multipliers, and their slacks are the contact speeds"""
    k.ensure('one problem is solved', len(S.calls) == 1)
    k.sized('size of the velocities', v2, W.nv)
    if len(S.calls) != 1: return
    c = S.calls[0]
    x = k.only(v2)
    segs, Z_, SL = c['segs'], c['z'], c['s']
    def goals(perm):
        n, f, m = perm
        if not (T.eq(segs[n], W.nc) is T.TRUE and T.eq(segs[f], W.nf) is T.TRUE and T.eq(segs[m], W.nc) is T.TRUE): return None
        ln, lf, g = (p_atom(Z_[i]) for i in perm)
        sn, sf, sg = (p_atom(SL[i]) for i in perm)
        t = lambda a: p_atom(B.transposed(a))
        minus = lambda p: p_scale(p, T.num(-1))
        add = lambda *ps: __import__('functools').reduce(p_add, ps)
        e = add(p_mul(p_atom(W.M), p_add(x, p_atom(W.v), Fraction(-1))), p_scale(p_atom(W.f), T.mul(T.num(-1), W.dt.t)), minus(p_mul(t(W.Jc), ln)), minus(p_mul(t(W.Jf), lf)))
        gs = [("M v' = M v + dt f + Jc^T ln + Jf^T lf + J^T l", e, (W.nv, ONE_D), dict(ignore=W.range_je()))]
        if W.eq: gs.append(("J v' = 0", p_mul(p_atom(W.Je), x), (W.ne, ONE_D), {}))
        ev = p_mul(p_atom(B.diag_of_atom(W.e)), p_mul(p_atom(W.Jc), p_atom(W.v)))
        gs.append(("Jc v' + e Jc v is the slack of ln", add(p_mul(p_atom(W.Jc), x), ev, minus(sn)), (W.nc, ONE_D), {}))
        gs.append(("Jf v' + g is the slack of lf", add(p_mul(p_atom(W.Jf), x), p_mul(p_atom(W.E), g), minus(sf)), (W.nf, ONE_D), {}))
        gs.append(('mu ln less the sum of lf is the slack of g', add(p_mul(p_atom(B.diag_of_atom(W.mu)), ln), minus(p_mul(t(W.E), lf)), minus(sg)), (W.nc, ONE_D), {}))
        return gs
    opts = [p for p in itertools.permutations(range(len(segs))) if goals(p)] if len(segs) == 3 else []
    opts.sort(key=lambda p: p != (0, 1, 2))
    try_all(k, goals, opts)


def mk(eq, cached):
    @contract(CONTRACTS, 'solve_dynamics with contacts (%s joints%s)' % ('with' if eq else 'no', ', an inverse kept from earlier steps' if cached else ''), [EN + 'solve_dynamics', 'world.World.get_v'], kclass=KM)
    def con(k):
        W = MWorld(k, eq, True); S = Solver(k, W.ne)
        e = k.call(k.cls('engines', 'PdipmEngine'), *([k.int('max_iter', 1)] if k.it.choose(2) else []))
        W.w.attrs['static_inverse'] = bool(k.it.choose(2)) or cached
        if cached and 'cached_inverse' in e.attrs: k.set(e, 'cached_inverse', B.inverse(W.P()))
        v2 = k.inv(e, 'solve_dynamics', W.w, W.dt)
        coulomb(k, W, S, v2)
        k.equal('v is unchanged', k.only(k.attr(W.w, 'v')), p_atom(W.v), (W.nv, ONE_D))
        k.equal('M is unchanged', k.only(k.attr(W.w, '_M')), p_atom(W.M), (W.nv, W.nv))


for eq in (True, False):
    for c in (False, True): mk(eq, c)
