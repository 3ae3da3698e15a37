"""C14: post-stabilisation moves positions only, towards the constraints."""
from .wmat import *
from .common import Dyn, skolem, mul3, n_
from . import c13
CONTRACTS = []
EN = 'engines.PdipmEngine.'
ASSUMES = ['LCPFunction solves its problem exactly (C11)', 'torch.inverse gives the inverse of an invertible matrix; the matrix [[M, -J^T], [J, 0]] is invertible', 'Body.move / set_p and the joints\' move / update_pos act as their contracts say (C05, C19)']


def correction(k, W, S, d, tag=''):
    """J d = -J v, Jc d + (1 - e) Jc v is the slack of ln, M d = J^T l + Jc^T ln"""
    x = k.only(d)
    sizes = d.val.content()
    k.ensure(tag + 'one entry per velocity', len(sizes) == 1 and T.eq(B.seg_sum(sizes[0]), W.nv) is T.TRUE and (not d.val.bat or k.it.implied(T.eq(B.seg_sum(d.val.shape[0]), ONE_D))))
    minus = lambda p: p_scale(p, T.num(-1))
    v = p_atom(W.v)
    if W.eq: k.zero(tag + 'J d = -J v', p_mul(p_atom(W.Je), p_add(x, v)), (W.ne, ONE_D))
    e = p_mul(p_atom(W.M), x)
    if W.con:
        k.ensure(tag + 'one problem is solved', len(S.calls) == 1)
        if len(S.calls) != 1: return
        c = S.calls[0]
        k.ensure(tag + 'one multiplier per contact', len(c['segs']) == 1 and T.eq(c['segs'][0], W.nc) is T.TRUE)
        if len(c['segs']) != 1: return
        ln, sl = p_atom(c['z'][0]), p_atom(c['s'][0])
        e = p_add(e, p_mul(p_atom(B.transposed(W.Jc)), ln), Fraction(-1))
        jv = p_mul(p_atom(W.Jc), v)
        keep = p_add(jv, p_mul(p_atom(B.diag_of_atom(W.e)), jv), Fraction(-1))
        k.zero(tag + 'Jc d + (1 - e) Jc v is the slack of ln', p_add(p_add(p_mul(p_atom(W.Jc), x), keep), sl, Fraction(-1)), (W.nc, ONE_D))
    k.zero(tag + 'M d = J^T l + Jc^T ln', e, (W.nv, ONE_D), ignore=W.range_je())


def frame(k, W, tag=''):
    k.equal(tag + 'v is unchanged', k.only(k.attr(W.w, 'v')), p_atom(W.v), (W.nv, ONE_D))
    k.equal(tag + 'M is unchanged', k.only(k.attr(W.w, '_M')), p_atom(W.M), (W.nv, W.nv))


def mk(eq, con):
    @contract(CONTRACTS, 'post_stabilization (%s joints, %s contacts)' % ('with' if eq else 'no', 'with' if con else 'no'), [EN + 'post_stabilization', 'world.World.get_v'], kclass=KM)
    def stab(k):
        W = MWorld(k, eq, con); S = Solver(k, W.ne)
        e = k.call(k.cls('engines', 'PdipmEngine'))
        static = bool(k.it.choose(2)); W.w.attrs['static_inverse'] = static
        if static and 'cached_inverse' in e.attrs and k.it.choose(2): k.set(e, 'cached_inverse', B.inverse(W.P()))
        correction(k, W, S, k.inv(e, 'post_stabilization', W.w))
        frame(k, W)


def mk_history(eq, static):
    @contract(CONTRACTS, 'post_stabilization after any steps (%s joints, static Jacobian: %s)' % ('with' if eq else 'no', static), [EN + 'solve_dynamics', EN + 'post_stabilization'], kclass=KM)
    def history(k):
        W = MWorld(k, eq, False); S = Solver(k, W.ne)
        e = k.call(k.cls('engines', 'PdipmEngine'))
        W.w.attrs['static_inverse'] = static
        for i in range(2):
            con = bool(k.it.choose(2))
            W.state(i, con, moved=not static)
            k.inv(e, 'solve_dynamics', W.w, W.dt)
            W.state(i + 10, con and bool(k.it.choose(2)), moved=not static)
            S.calls = []
            d = k.inv(e, 'post_stabilization', W.w)
            correction(k, W, S, d, 'step %d: ' % i)


for eq in (True, False):
    for con in (True, False): mk(eq, con)
    for static in (True, False): mk_history(eq, static)


def mk_step(row):
    @contract(CONTRACTS, 'step_dt: displacement by half the correction over the accepted duration, contacts detected again (%s)' % ('a row' if row else 'a vector'), ['world.World.step_dt', 'world.World.set_p', 'world.World.set_v'], budget=200)
    def step(k):
        D, dt0 = c13.setup(k, True)
        b, q = skolem(k, 'b', D.nb), skolem(k, 'q', D.nj)
        p0 = D.p(b); at = []
        def stab(w):
            at.append((D.p(b), D.v(b), D.w.attrs['v']))
            return FT.fn((1, D.m3), lambda a, i: T.app('dp', (i,)), k.dtype) if row else FT.fn((D.m3,), lambda i: T.app('dp', (i,)), k.dtype)
        D.engine.attrs['post_stabilization'] = I.Native(stab)
        k.inv(D.w, 'step_dt', SV(dt0))
        d = c13.accepted(k, D, dt0)
        nv = [T.app('newv', (T.add(mul3(b), n_(c)),)) for c in range(3)]
        dp = [T.app('dp', (T.add(mul3(b), n_(c)),)) for c in range(3)]
        bo = k.it.getitem(k.attr(D.w, 'bodies'), SV(b))
        k.ensure('one correction', len(at) == 1)
        moved = [T.add(p, T.mul(v, d)) for p, v in zip(p0, nv)]
        if at:
            k.same('the correction is that of the new pose', list(at[0][0]), moved)
            k.same('the correction is that of the new velocity of the body', list(at[0][1]), nv)
            k.same('the correction is that of the new velocities', [at[0][2].at(T.add(mul3(b), n_(c))) for c in range(3)], nv)
        k.same('body b is displaced by half the correction times the duration', k.attr(bo, 'p'), [T.add(x, T.mul(T.div(y, T.num(2)), d)) for x, y in zip(moved, dp)])
        k.same('velocity of body b', k.attr(bo, 'v'), nv)
        k.same('velocities of the world', [k.attr(D.w, 'v').at(T.add(mul3(b), n_(c))) for c in range(3)], nv)
        seen = D.w.attrs['#for'][0].at(b).terms()
        k.same('the contacts are those of the final poses', seen, D.p(b))
        kk = T.var('kk', 'I')
        if kk in T.free(T.and_(*k.it.pc)): k.ensure('the elapsed time is that of the accepted duration', T.eq(d, T.mul(dt0, c13.halves(k)(kk))))
        jo = SymObj(D.jf, q)
        k.same('the anchor of joint q belongs to the final poses', k.attr(jo, 'pos'), [D.anchor(q, k.attr(jo, 'rot1').scalar(), c) for c in (0, 1)])


for row in (True, False): mk_step(row)


@contract(CONTRACTS, 'without contacts and joints nothing is displaced', [EN + 'post_stabilization'], kclass=KM)
def nothing(k):
    W = MWorld(k, False, False); Solver(k, None)
    e = k.call(k.cls('engines', 'PdipmEngine'))
    W.w.attrs['static_inverse'] = True
    if 'cached_inverse' in e.attrs and k.it.choose(2): k.set(e, 'cached_inverse', B.inverse(W.P()))
    k.zero('the correction is zero', k.only(k.inv(e, 'post_stabilization', W.w)), (W.nv, ONE_D))
