"""C13: a step is an exact transition to the accepted time, also after retries."""
from fractions import Fraction
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['Body.move / set_p and the joints\' move / update_pos act as their contracts say (C05, C19)', 'the engine and contact detection may return anything; they do not change poses or joints']


def retry_loop(D, dt0):
    class Retry(LoopSpec):
        name = 'the retry loop of step_dt'
        doc = 'at the head of the loop all poses and joints are those of the start of the step and dt is the given dt halved k times'
        def __init__(self, it, sc, seq):
            self.it, self.sc = it, sc
            self.kk = Z
            self.half = halves(D.k)
            self.v0 = {n: D.fam.attrs[n].ver for n in ('p', 'v')}
            self.j0 = {n: D.jf.attrs[n].ver for n in ('rot1', 'rot2', 'pos')}
            self.b, self.q = T.var('lb', 'I'), T.var('lq', 'I')
            if 'dt' not in sc.vars: raise Unsupported('no variable dt')
        def havoc(self):
            it = self.it
            self.kk = T.var('kk', 'I'); it.assume(T.le(Z, self.kk))
            it.put_in(self.sc, self.sc.vars, 'dt', SV(T.var('dt_k')))
            for n in ('p',): D.fam.attrs[n].put('ver', self.v0[n])
            for n in ('rot1', 'rot2', 'pos'): D.jf.attrs[n].put('ver', self.j0[n])
            D.new_contacts()
        def inv(self):
            k = D.k
            dt = self.sc.vars['dt']; dt = t_of(dt.scalar() if isinstance(dt, FT) else dt)
            b, q = self.b, self.q
            cs = [T.eq(dt, T.mul(dt0, self.half(self.kk)))]
            inb = T.and_(T.le(Z, b), T.lt(b, D.nb)); inj = T.and_(T.le(Z, q), T.lt(q, D.nj))
            at = lambda f, n, o: f.attrs[n].ver.at(o)
            cs += [T.implies(inb, T.eq(x, y)) for x, y in zip(at(D.fam, 'p', b).terms(), self.v0['p'].at(b).terms())]
            cs += [T.implies(inb, T.eq(x, y)) for x, y in zip(at(D.fam, 'v', b).terms(), self.v0['v'].at(b).terms())]
            cs += [T.implies(inj, T.eq(at(D.jf, 'rot1', q).scalar(), self.j0['rot1'].at(q).scalar()))]
            cs += [T.implies(inj, T.eq(x, y)) for x, y in zip(at(D.jf, 'pos', q).terms(), self.j0['pos'].at(q).terms())]
            a, c = at(D.jf, 'rot2', q), self.j0['rot2'].at(q)
            if a is not c:
                ha, va = (a.has, a.v) if isinstance(a, I.Opt) else (T.TRUE, a)
                cs += [T.implies(inj, T.and_(T.eq(ha, c.has), T.implies(c.has, T.eq(va.scalar(), c.v.scalar()))))]
            return T.and_(*cs)
        def next(self):
            it = self.it
            self.kk = T.add(self.kk, ONE)
            it.oblige('ensures an attempt is rejected only because of penetration', T.not_(D.within()))
            if it.implied(T.not_(t_of(D.w.attrs['strict_no_pen']))):
                it.oblige('ensures without strictness only durations of at least a quarter of dt are rejected', T.le(T.div(t_of(D.w.attrs['dt']), T.num(4)), T.var('dt_k')))
    return Retry


def setup(k, post=False):
    D = Dyn(k, t=k.real('t0'), dt=k.real('wdt'), tol=k.real('tol'), strict_no_pen=k.it.choose(), post_stab=post)
    dt0 = T.var('dt0'); k.require(T.lt(T.num(0), dt0))
    k.it.loops[('World.step_dt', 'While', 0)] = retry_loop(D, dt0)
    return D, dt0


def accepted(k, D, dt0):
    """the accepted duration"""
    d = T.sub(t_of(k.attr(D.w, 't')), T.var('t0'))
    return d


@contract(CONTRACTS, 'step_dt: an exact transition by the accepted duration', ['world.World.step_dt', 'world.World.set_p', 'world.World.set_v'], budget=200)
def step(k):
    D, dt0 = setup(k)
    b, q = skolem(k, 'b', D.nb), skolem(k, 'q', D.nj)
    p0, r1, r2 = D.p(b), T.app('rot1', (q,)), T.app('rot2', (q,))
    v0 = D.fam.attrs['v'].ver
    k.inv(D.w, 'step_dt', SV(dt0))
    d = accepted(k, D, dt0)
    k.ensure('the engine is asked once, for the given dt', len(D.asked) == 1 and T.eq(D.asked[0][0], dt0))
    nv = lambda i: [T.app('newv', (T.add(mul3(i), n_(c)),)) for c in range(3)]
    bo = k.it.getitem(k.attr(D.w, 'bodies'), SV(b))
    k.same('the velocity of body b is the new one', k.attr(bo, 'v'), nv(b))
    k.same('body b has moved for the accepted duration', k.attr(bo, 'p'), [T.add(p, T.mul(v, d)) for p, v in zip(p0, nv(b))])
    jo = SymObj(D.jf, q)
    rev, axis = D.rev(q), D.axis(q)
    e1 = T.ite(rev, T.add(r1, T.mul(nv(D.j1(q))[0], d)), T.ite(axis, D.p(D.j1(q))[0], r1))
    k.same('first angle of joint q', k.attr(jo, 'rot1'), [e1])
    x = k.attr(jo, 'rot2'); x = k.it.force(x)
    if x is None: k.ensure('no second angle', T.not_(D.two(q)))
    else: k.same('second angle of joint q', x, [T.ite(rev, T.add(r2, T.mul(nv(D.j2(q))[0], d)), r2)])
    k.same('the anchor of joint q belongs to the new poses', k.attr(jo, 'pos'), [D.anchor(q, k.attr(jo, 'rot1').scalar(), c) for c in (0, 1)])
    seen = D.w.attrs['#for'][0].at(b).terms()
    k.same('the contacts are those of the new poses', seen, D.p(b))
    strict = D.w.attrs['strict_no_pen']
    within = D.within()
    k.ensure('the tolerance is met' if strict else 'the tolerance is met or the duration is below a quarter of dt', within if strict else T.or_(within, T.lt(d, T.div(T.var('wdt'), T.num(4)))))
    kk = T.var('kk', 'I')
    half = halves(k)
    if kk in T.free(T.and_(*k.it.pc)): k.ensure('the duration is dt halved k times', T.and_(T.le(Z, kk), T.eq(d, T.mul(dt0, half(kk)))))
    else: k.ensure('the duration is dt halved k times', T.or_(*[T.eq(d, T.mul(dt0, T.num(Fraction(1, 2 ** j)))) for j in range(8)]))


@contract(CONTRACTS, 'post-stabilisation leaves velocities and time alone', ['world.World.step_dt'], budget=200)
def post(k):
    D, dt0 = setup(k, True)
    b = skolem(k, 'b', D.nb)
    k.inv(D.w, 'step_dt', SV(dt0))
    d = accepted(k, D, dt0)
    bo = k.it.getitem(k.attr(D.w, 'bodies'), SV(b))
    k.same('velocity', k.attr(bo, 'v'), [T.app('newv', (T.add(mul3(b), n_(c)),)) for c in range(3)])
    kk = T.var('kk', 'I')
    if kk in T.free(T.and_(*k.it.pc)): k.ensure('the duration is dt halved k times', T.eq(d, T.mul(dt0, halves(k)(kk))))
