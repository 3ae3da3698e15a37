"""C15: applied forces are the sum of the attached forces at the step's time."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['force functions are pure functions of time returning a 3-vector']


def ffunc(k, name, dtype='f64'):
    """an arbitrary force function of time"""
    return I.Native(lambda t: FT.fn((3,), lambda j: T.app(name, (t_of(t), j)), dtype), name)


@contract(CONTRACTS, 'ExternalForce: force function times multiplier', ['forces.ExternalForce.__init__', 'forces.ExternalForce.set_body', 'bodies.Body.add_force'])
def ext(k):
    b = circle(k, 'b')
    m = k.ten('mult') if k.it.choose() else k.real('mult')
    f = k.call(k.cls('forces', 'ExternalForce'), ffunc(k, 'ff'), m)
    # the body already carries any number of forces
    old = Family('old', k.int('nold', 0))
    k.set(b, 'forces', I.SList(old.n, lambda j: I.SymObj(old, j)))
    k.inv(b, 'add_force', f)
    l = k.attr(b, 'forces')
    k.ensure('one more force', T.eq(l.n, T.add(old.n, T.num(1, 'I'))))
    k.ensure('the new force is last', l.elem(old.n) is f)
    q = T.var('sk_q', 'I'); k.require(T.and_(T.le(Z, q), T.lt(q, old.n)))
    e = l.elem(q)
    k.ensure('the others stay', isinstance(e, I.SymObj) and e.fam is old and k.it.implied(T.eq(e.k, q)))
    t = k.real('t')
    k.same('force', k.inv(f, 'force', t), [T.mul(T.app('ff', (t.t, T.num(j, 'I'))), T.var('mult')) for j in range(3)])


@contract(CONTRACTS, 'Body.apply_forces: sum of any number of forces', ['bodies.Body.apply_forces'])
def body(k):
    b = circle(k, 'b')
    n = k.int('n', 0)
    fam = Family('force', n, None, {}, dict(force=lambda it, o, t: FT.fn((3,), lambda j: T.app('force', (o.k, t_of(t), j)), 'f64')))
    k.set(b, 'forces', I.SList(n, lambda j: I.SymObj(fam, j)))
    t = k.real('t')
    r = k.inv(b, 'apply_forces', t)
    bv = T.var('#q', 'I')
    k.same('sum of the forces at t', r, [T.summ(bv, Z, n, T.app('force', (bv, t.t, T.num(j, 'I')))) for j in range(3)])


@contract(CONTRACTS, 'Body.apply_forces: zero without forces', ['bodies.Body.apply_forces', 'bodies.Body.__init__'])
def noforce(k):
    b = circle(k, 'b')
    k.same('zero', k.inv(b, 'apply_forces', k.real('t')), [T.num(0)] * 3)


@contract(CONTRACTS, 'World.apply_forces: concatenation in body order', ['world.World.apply_forces'])
def world(k):
    w, bodies, nb = abs_world(k, methods=dict(apply_forces=lambda it, o, t: FT.fn((3,), lambda j: T.app('bf', (o.k, t_of(t), j)), 'f64')))
    t = k.real('t')
    r = k.inv(w, 'apply_forces', t)
    k.ensure('length', len(r.shape_) == 1 and T.eq(tt(r.shape_[0]), T.mul(T.num(3, 'I'), nb)))
    i = skolem(k, 'i', nb)
    for j in range(3):
        k.ensure('entry %d of body i' % j, T.eq(r.at(T.add(T.mul(T.num(3, 'I'), i), T.num(j, 'I'))), T.app('bf', (i, t.t, T.num(j, 'I')))))


@contract(CONTRACTS, 'Gravity: mass times g downward at all times', ['forces.Gravity'])
def gravity(k):
    m = k.ten('mass')
    b = circle(k, 'b', mass=m)
    g = k.ten('g') if k.it.choose() else k.real('g')
    f = k.call(k.cls('forces', 'Gravity'), g)
    k.inv(b, 'add_force', f)
    k.same('gravity', k.inv(f, 'force', k.real('t')), [T.num(0), T.num(0), T.mul(T.var('mass'), T.var('g'))])


@contract(CONTRACTS, 'impulses act in their component before t = 0.1 and vanish after', ['forces.vert_impulse', 'forces.hor_impulse', 'forces.rot_impulse', 'forces.down_force'])
def impulses(k):
    t = k.real('t')
    early = T.lt(t.t, T.num(0.1))
    for name, c in (('rot_impulse', 0), ('hor_impulse', 1), ('vert_impulse', 2)):
        r = k.call(k.cls('forces', name), t)
        k.same(name, r, [T.ite(early, T.num(1), T.num(0)) if j == c else T.num(0) for j in range(3)])
    k.same('down_force', k.call(k.cls('forces', 'down_force'), t), [T.num(0), T.num(0), T.num(1)])


@contract(CONTRACTS, 'the engine evaluates the forces at the start of the step', ['engines.PdipmEngine.solve_dynamics', 'world.World.step_dt'])
def start_time(k):
    w, bodies, nb = abs_world(k)
    t0 = T.var('t0'); k.set(w, 't', SV(t0))
    asked = []
    k.it.fspecs['World.apply_forces'] = lambda it, a, kw: (asked.append(t_of(a[1])), FT.fn((T.mul(T.num(3, 'I'), nb),), lambda q: T.app('f', (t_of(a[1]), q)), 'f64'))[1]
    k.it.fspecs['World.Je'] = lambda it, a, kw: FT.const(0, 'f64', (0, T.mul(T.num(3, 'I'), nb)))
    e = k.call(k.cls('engines', 'PdipmEngine'))
    k.set(e, 'cached_inverse', k.ten('inv', (T.mul(T.num(3, 'I'), nb), T.mul(T.num(3, 'I'), nb))))
    k.set(w, 'contacts', k.list())
    k.set(w, 'v', k.ten('v', (T.mul(T.num(3, 'I'), nb),)))
    k.set(w, '_M', k.ten('M', (T.mul(T.num(3, 'I'), nb), T.mul(T.num(3, 'I'), nb))))
    k.inv(e, 'solve_dynamics', w, k.real('dt'))
    k.ensure('the forces are evaluated', len(asked) > 0)
    for a in asked: k.ensure('at world.t', T.eq(a, t0))
