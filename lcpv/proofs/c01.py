"""C01: a step without contacts solves the constrained Newton-Euler equations."""
from .wmat import *
CONTRACTS = []
EN = 'engines.PdipmEngine.'
ASSUMES = ['torch.inverse gives the inverse of an invertible matrix; the matrix [[M, -J^T], [J, 0]] is invertible (independent joint constraints, M positive definite)']


def newton(k, W, v2, tag=''):
    k.sized(tag + 'size of the velocities', v2, W.nv)
    x = k.only(v2)
    e = p_add(p_mul(p_atom(W.M), p_add(x, p_atom(W.v), Fraction(-1))), p_scale(p_atom(W.f), T.mul(T.num(-1), W.dt.t)))
    k.zero(tag + "M v' = M v + dt f + J^T l", e, (W.nv, ONE_D), ignore=W.range_je())
    if W.eq: k.zero(tag + "J v' = 0", p_mul(p_atom(W.Je), x), (W.ne, ONE_D))


def new_engine(k): return k.call(k.cls('engines', 'PdipmEngine'))


def mk_one(eq, static):
    @contract(CONTRACTS, 'solve_dynamics without contacts (%s joints, static Jacobian: %s)' % ('with' if eq else 'no', static), [EN + '__init__', EN + 'solve_dynamics', 'world.World.get_v'], kclass=KM)
    def one(k):
        W = MWorld(k, eq, False)
        e = new_engine(k)
        W.w.attrs['static_inverse'] = static
        cached = static and k.it.choose(2)
        if 'cached_inverse' in e.attrs and cached: k.set(e, 'cached_inverse', B.inverse(W.P()))
        v2 = k.inv(e, 'solve_dynamics', W.w, W.dt)
        newton(k, W, v2)
        frame(k, W)


def frame(k, W):
    """the world's own matrices and velocities are as they were"""
    k.equal('v is unchanged', k.only(k.attr(W.w, 'v')), p_atom(W.v), (W.nv, ONE_D))
    k.equal('M is unchanged', k.only(k.attr(W.w, '_M')), p_atom(W.M), (W.nv, W.nv))


def mk_history(eq, static):
    @contract(CONTRACTS, 'a history of steps: contacts come and go, joints and bodies move (%s joints, static Jacobian: %s)' % ('with' if eq else 'no', static), [EN + 'solve_dynamics', EN + 'post_stabilization'], kclass=KM)
    def history(k):
        W = MWorld(k, eq, False); S = Solver(k, W.ne)
        e = new_engine(k)
        W.w.attrs['static_inverse'] = static
        for i in range(3):
            W.state(i, i < 2 and bool(k.it.choose(2)), moved=not static)
            v2 = k.inv(e, 'solve_dynamics', W.w, W.dt)
            if not W.con: newton(k, W, v2, 'step %d: ' % i)
            if i < 2 and k.it.choose(2):
                W.state(i + 10, bool(k.it.choose(2)), moved=not static)
                k.inv(e, 'post_stabilization', W.w)


for eq in (True, False):
    for static in (True, False): mk_one(eq, static); mk_history(eq, static)


@contract(CONTRACTS, 'the inverse is kept only when every joint is static', ['world.World.__init__', 'world.World.set_v'], budget=200)
def static_worlds(k):
    from . import c21
    c21.init(k)


def mk_static(name):
    @contract(CONTRACTS, '%s: if it is static, its Jacobian does not change as bodies and joint move' % name, ['constraints.' + name])
    def static_joint(k):
        from .common import circle
        two = name in ('Joint', 'FixedJoint')
        b1 = circle(k, 'a'); b2 = circle(k, 'b') if two else None
        c = k.cls('constraints', name)
        j = k.call(c, b1, b2, k.list(k.real('x'), k.real('y'))) if name == 'Joint' else k.call(c, b1, b2) if two else k.call(c, b1)
        if not k.it.truth(k.attr(j, 'static')): k.ensure('not static', True); return
        J = [list(x.terms()) if x is not None else None for x in k.it.iter(k.inv(j, 'J'))]
        dt = k.real('dt')
        for n in range(2):
            for b in (b1, b2):
                if b is not None: k.set(b, 'p', k.vec('%s.p%d' % (b is b1, n), 3)); k.set(b, 'v', k.vec('%s.v%d' % (b is b1, n), 3))
            k.inv(j, 'move' if n == 0 else 'update_pos', *([dt] if n == 0 else []))
            for m, (x, y) in enumerate(zip(J, k.it.iter(k.inv(j, 'J')))):
                if x is None or y is None: k.ensure('block %d' % m, x is None and y is None)
                else: k.same('block %d after move %d' % (m, n), y, x)


for name in ('Joint', 'FixedJoint', 'XConstraint', 'YConstraint', 'RotConstraint', 'TotalConstraint'): mk_static(name)
