"""C20: all state follows the type of the tensors the user supplied."""
from ..verify import *
from .common import *
from . import c03, c04
CONTRACTS = []
ASSUMES = ['results of torch operations have the promoted type of their operands']
BOTH = ('f32', 'f64')
FIELDS = ('p', 'rot', 'pos', 'v', 'M', 'mass', 'ang_inertia', 'fric_coeff', 'restitution', 'eps', 'rad', 'dims')


def arg(k, name, n=0, tensor=None):
    """a constructor argument: a number (or list of numbers), or a tensor of the type under consideration"""
    if tensor if tensor is not None else k.it.choose():
        t = k.vec(name, n) if n else k.ten(name)
        k.given[name] = t
        return t
    return k.list(*[SV(T.var('%s[%d]' % (name, j))) for j in range(n)]) if n else k.real(name)


def want(k): return k.dtype if k.given else 'f64'


def is_(k, name, t, d=None):
    d = d or want(k)
    k.ensure('%s has the type of the given tensors' % name, isinstance(t, FT) and t.dtype_ == d)


def checks(k, b, when):
    for a in FIELDS:
        if a in b.attrs: is_(k, '%s (%s)' % (a, when), k.attr(b, a))
    if 'verts' in b.attrs:
        v = k.attr(b, 'verts')
        if I.is_sym(v): is_(k, 'a vertex (%s)' % when, v.elem(skolem(k, 'i' + when, v.n)))
        else:
            for x in v.items: is_(k, 'a vertex (%s)' % when, x)
    is_(k, 'the force on it (%s)' % when, k.inv(b, 'apply_forces', k.real('t')))


def body(k, kind, some=None):
    """the optional arguments that matter to the type, each a number or a tensor"""
    k.given = {}
    C = k.cls('bodies', kind)
    opt = dict(mass=arg(k, 'mass'), fric_coeff=arg(k, 'fric_coeff'), restitution=arg(k, 'restitution'), eps=arg(k, 'eps'))
    n = 2 + k.it.choose(); nv = 2 + k.it.choose()
    vel = arg(k, 'vel', nv)
    if kind == 'Circle':
        k.require(T.lt(T.num(0), T.var('rad')))
        args = [arg(k, 'pos', n), arg(k, 'rad')]
    elif kind == 'Rect':
        for j in range(2): k.require(T.lt(T.num(0), T.var('dims[%d]' % j)))
        args = [arg(k, 'pos', n), arg(k, 'dims', 2)]
    else:
        nv_ = T.var('nv', 'I'); k.require(T.le(THREE, nv_))
        pos = arg(k, 'pos', 2)
        tv = bool(k.given) and k.it.choose()
        vs = I.SList(nv_, vec2('vert', k.dtype) if tv else lambda i: (SV(T.app('vert', (i, Z))), SV(T.app('vert', (i, ONE)))))
        args = [pos, vs]
        # the type of the result is what matters here: any numbers
        k.it.fspecs['Hull._is_clockwise'] = lambda it, a, kw: True
    opt = {a: v for a, v in opt.items()}
    b = k.call(C, *args, vel=vel, **opt)
    return b


def one(kind):
    def f(k):
        b = body(k, kind)
        checks(k, b, 'new')
        for a in ('mass', 'fric_coeff', 'restitution', 'eps', 'rad', 'dims'):
            if a in k.given: k.ensure('the tensor given as %s is used itself' % a, k.attr(b, a) is k.given[a])
        if 'vel' in k.given: k.same('the velocity depends on the given tensor', k.attr(b, 'v').index(slice(-2 if k.given['vel'].shape_[0] == 2 else 0, None)), k.given['vel'].terms())
        if 'pos' in k.given and kind != 'Hull': k.same('the pose depends on the given tensor', k.attr(b, 'p').index(slice(-2 if k.given['pos'].shape_[0] == 2 else 0, None)), k.given['pos'].terms())
    return f


for kind in ('Circle', 'Rect', 'Hull'):
    contract(CONTRACTS, '%s: any choice of tensor arguments' % kind, ['bodies.Body.__init__', 'bodies.Body._set_base_tensor', 'bodies.%s.__init__' % kind, 'utils.get_tensor'], dtypes=BOTH, divisors=False, budget=200, limit=3000)(one(kind))


@contract(CONTRACTS, 'moving keeps the type', ['bodies.Body.move', 'bodies.Body.set_p', 'bodies.Hull.set_p'], dtypes=BOTH, divisors=False, budget=200)
def moving(k):
    k.given = dict(all=1)
    b = [lambda: circle(k, 'b'), lambda: rect(k, 'b'), lambda: moved_hull(k, 'b')[0]][k.it.choose(3)]()
    if k.it.choose(): k.inv(b, 'move', k.real('dt'))
    else: k.inv(b, 'set_p', k.vec('np', 3))
    checks(k, b, 'moved')


@contract(CONTRACTS, 'forces take the type of the body they are attached to', ['forces.ExternalForce.set_body', 'forces.ExternalForce._match_body', 'forces.Gravity.set_body', 'bodies.Body.add_force'], dtypes=BOTH, divisors=False)
def forces(k):
    k.given = dict(all=1)
    b = circle(k, 'b')
    # the types of the force functions of the module are the default's; a user's function may return either
    m = k.ten('mult') if k.it.choose() else k.real('mult')
    if k.it.choose(): f = k.call(k.cls('forces', 'Gravity'), m)
    else:
        fn = k.cls('forces', ['down_force', 'vert_impulse', 'hor_impulse', 'rot_impulse'][k.it.choose(4)])
        f = k.call(k.cls('forces', 'ExternalForce'), fn, m)
    k.inv(b, 'add_force', f)
    t = k.real('t')
    is_(k, 'the force', k.inv(f, 'force', t))
    is_(k, 'the sum of the forces', k.inv(b, 'apply_forces', t))
    if isinstance(m, FT): k.ensure('the multiplier given is used itself', k.attr(f, 'multiplier') is m)


@contract(CONTRACTS, 'joints take the type of their bodies', ['constraints'], dtypes=BOTH, divisors=False)
def joints(k):
    k.given = dict(all=1)
    a, b = circle(k, 'a'), circle(k, 'b')
    n = ['Joint', 'Joint1', 'FixedJoint', 'XConstraint', 'YConstraint', 'RotConstraint', 'TotalConstraint'][k.it.choose(7)]
    C = lambda x: k.cls('constraints', x)
    pos = k.list(k.real('x'), k.real('y')) if k.it.choose() else k.vec('anchor', 2)
    if n == 'Joint': j = k.call(C('Joint'), a, b, pos)
    elif n == 'Joint1': j = k.call(C('Joint'), a, None, pos)
    elif n == 'FixedJoint': j = k.call(C('FixedJoint'), a, b)
    else: j = k.call(C(n), a)
    k.require(T.lt(T.num(0), T.var('a.rad')))
    def state(when):
        for x in ('pos', 'pos1', 'pos2', 'rot1', 'rot2', 'r1', 'r2'):
            v = j.attrs.get(x)
            if isinstance(v, FT): is_(k, '%s.%s (%s)' % (n, x, when), v)
        for J in k.it.iter(k.inv(j, 'J')):
            if J is not None: is_(k, '%s Jacobian (%s)' % (n, when), J)
    state('new')
    k.inv(j, 'move', k.real('dt'))
    state('moved')


@contract(CONTRACTS, 'world matrices take the type of the bodies', ['world.World.Jc', 'world.World.Jf', 'world.World.mu', 'world.World.E', 'world.World.restitutions', 'world.World.Je', 'world.World.apply_forces', 'world.World.set_v'], dtypes=BOTH, divisors=False, budget=200)
def world(k):
    k.given = dict(all=1)
    w, fam, nb = c03.world(k, methods=dict(apply_forces=lambda it, o, t: frozen(FT.fn((3,), lambda j: T.app('bf', (o.k, j)), k.dtype))))
    c03.contacts(k, w, nb)
    for n in ('Jc', 'Jf', 'mu', 'E', 'restitutions'): is_(k, n, k.inv(w, n))
    is_(k, 'forces', k.inv(w, 'apply_forces', k.real('t')))
    v = k.ten('new', (mul3(nb),)); k.inv(w, 'set_v', v)
    is_(k, 'v', k.inv(w, 'get_v'))
    is_(k, 'velocity of a body', k.attr(k.it.getitem(k.attr(w, 'bodies'), SV(skolem(k, 'b', nb))), 'v'))


@contract(CONTRACTS, 'world.M and the velocities take the type of the bodies', ['world.World.__init__'], dtypes=BOTH, divisors=False, budget=200)
def newworld(k):
    k.given = dict(all=1)
    nb = k.int('nb', 1)
    gf = Family('geom', nb, None, dict(body=lambda i: SV(T.app('geom.body', (i,), 'I'))))
    fam = bodies_family(k, nb, dict(geom=lambda i: I.SymObj(gf, i)))
    k.it.collide = lambda space, arg, cb: None
    w = k.call(k.cls('world', 'World'), I.SList(nb, lambda i: I.SymObj(fam, i)))
    is_(k, 'M', k.inv(w, 'M')); is_(k, 'v', k.inv(w, 'get_v'))


@contract(CONTRACTS, 'Je takes the type of the bodies', ['world.World.Je'], dtypes=BOTH, divisors=False, budget=200)
def je(k):
    k.given = dict(all=1)
    w, fam, nb = abs_world(k)
    k.set(w, '_M', k.ten('M', (mul3(nb), mul3(nb))))
    c04.abs_joints(k, w, nb)
    is_(k, 'Je', k.inv(w, 'Je'))


@contract(CONTRACTS, 'circle contacts take the type of the bodies', ['contacts.DiffContactHandler.__call__'], dtypes=BOTH, divisors=False)
def contact(k):
    k.given = dict(all=1)
    a, b = circle(k, 'a'), circle(k, 'b')
    g = [k.attr(x, 'geom') for x in (a, b)]
    for i, x in enumerate(g): k.set(x, 'body', i)
    w = k.obj(None, eps=k.real('eps'), contacts=k.list(), bodies=k.list(a, b))
    (x1, y1), (x2, y2) = [k.attr(x, 'pos').terms() for x in (a, b)]
    k.require(T.lt(T.num(0), T.add(T.powi(T.sub(x1, x2), 2), T.powi(T.sub(y1, y2), 2))))
    k.call(k.call(k.cls('contacts', 'DiffContactHandler')), k.list(w), *g)
    for c in k.attr(w, 'contacts').items:
        for t in k.it.iter(k.it.iter(c)[0]): is_(k, 'contact data', t)


@contract(CONTRACTS, 'ODE contacts take the type of the bodies', ['contacts.OdeContactHandler.__call__'], dtypes=BOTH, divisors=False)
def odecontact(k):
    k.given = dict(all=1)
    a, b = circle(k, 'a'), circle(k, 'b')
    g = [k.attr(x, 'geom') for x in (a, b)]
    for i, x in enumerate(g): k.set(x, 'body', i)
    w = k.obj(None, eps=k.real('eps'), contacts=k.list(), bodies=k.list(a, b))
    one = k.obj(None, getContactGeomParams=I.Native(lambda: (tuple(k.real('pt%d' % j) for j in range(3)), tuple(k.real('n%d' % j) for j in range(3)), k.real('depth'), g[0], g[1])))
    k.it.load(PHY + 'contacts')
    m = k.it.mods[PHY + 'contacts']
    k.it.put_in(m, m.env, 'ode', S.NS('ode', collide=lambda x, y: k.list(one)))
    k.call(k.call(k.cls('contacts', 'OdeContactHandler')), k.list(w), *g)
    for c in k.attr(w, 'contacts').items:
        for t in k.it.iter(k.it.iter(c)[0]): is_(k, 'contact data', t)


@contract(CONTRACTS, 'get_tensor: tensors themselves, anything else in the base type', ['utils.get_tensor'], dtypes=BOTH)
def get_tensor(k):
    f = k.cls('utils', 'get_tensor')
    base = k.ten('base')
    t = FT.fn((2,), lambda j: T.app('t', (j,)), 'f64' if k.it.choose() else 'f32')
    k.ensure('a tensor is used itself', k.call(f, t) is t and k.call(f, t, base_tensor=base) is t)
    x = k.list(k.real('x'), k.real('y'))
    a = k.call(f, x, base_tensor=base); is2(k, 'with a base', a, k.dtype); k.same('value', a, [T.var('x'), T.var('y')])
    a = k.call(f, x); is2(k, 'default', a, 'f64'); k.same('value', a, [T.var('x'), T.var('y')])
    a = k.call(f, k.real('x')); is2(k, 'default scalar', a, 'f64'); k.ensure('no dimension', a.shape_ == ())


def is2(k, name, t, d): k.ensure('%s: type' % name, isinstance(t, FT) and t.dtype_ == d)
