"""Scenes as plain JSON data, built into real World objects (run-time contract tier)."""
import math
import numpy as np
import torch

TD = torch.double


def mods():
    import lcp_physics.physics.bodies as bodies, lcp_physics.physics.constraints as cons
    import lcp_physics.physics.forces as forces, lcp_physics.physics.world as world
    import lcp_physics.physics.contacts as contacts, lcp_physics.physics.engines as engines
    import lcp_physics.physics.utils as utils
    class M: pass
    m = M()
    m.bodies, m.cons, m.forces, m.world, m.contacts, m.engines, m.utils = bodies, cons, forces, world, contacts, engines, utils
    return m


def body(s, m=None, wrap=None):
    """wrap(name, value) may turn numbers into tensors."""
    m = m or mods()
    w = wrap or (lambda n, v: v)
    kw = {k: w(k, s[k]) for k in ('vel', 'mass', 'restitution', 'fric_coeff', 'eps') if k in s}
    if s['kind'] == 'circle':
        return m.bodies.Circle(w('pos', s['pos']), w('rad', s['rad']), **kw)
    if s['kind'] == 'rect':
        return m.bodies.Rect(w('pos', s['pos']), w('dims', s['dims']), **kw)
    return m.bodies.Hull(w('pos', s['pos']), [w('verts', v) for v in s['verts']], **kw)


def joint(s, bs, m=None):
    m = m or mods()
    k = s['kind']
    if k == 'joint':
        return m.cons.Joint(bs[s['b1']], bs[s['b2']] if s.get('b2') is not None else None, s['pos'])
    if k == 'fixed':
        return m.cons.FixedJoint(bs[s['b1']], bs[s['b2']])
    return {'x': m.cons.XConstraint, 'y': m.cons.YConstraint, 'rot': m.cons.RotConstraint,
            'total': m.cons.TotalConstraint}[k](bs[s['b1']])


def force_func(s):
    vec = torch.tensor(s['vec'], dtype=TD)
    if s.get('kind') == 'switch':
        return lambda t: vec if t < s['until'] else -2 * vec
    return lambda t: vec * (1 + s.get('w', 0.) * t)


def add_force(s, b, m=None):
    m = m or mods()
    if s['kind'] == 'gravity':
        b.add_force(m.forces.Gravity(s['g']) if 'g' in s else m.forces.Gravity())
    elif s['kind'] in ('down_force', 'vert_impulse', 'hor_impulse', 'rot_impulse'):
        b.add_force(m.forces.ExternalForce(getattr(m.forces, s['kind']), s['mult']))
    else:
        b.add_force(m.forces.ExternalForce(force_func(s), s['mult']))


def force_value(s, t, mass):
    """Oracle for one force."""
    if s['kind'] == 'gravity':
        return np.array([0., 0., mass * s.get('g', 10.0)])
    if s['kind'] == 'down_force':
        return np.array([0., 0., s['mult']])
    if s['kind'] in ('vert_impulse', 'hor_impulse', 'rot_impulse'):
        i = {'vert_impulse': 2, 'hor_impulse': 1, 'rot_impulse': 0}[s['kind']]
        v = np.zeros(3); v[i] = s['mult'] if t < 0.1 else 0.
        return v
    vec = np.array(s['vec'], float)
    if s['kind'] == 'switch':
        return (vec if t < s['until'] else -2 * vec) * s['mult']
    return vec * (1 + s.get('w', 0.) * t) * s['mult']


def build(sc, **kw):
    m = mods()
    bs = [body(s, m) for s in sc['bodies']]
    js = [joint(s, bs, m) for s in sc.get('joints', [])]
    for i, fs in enumerate(sc.get('forces', [])):
        for f in fs:
            add_force(f, bs[i], m)
    for a, b in sc.get('excl', []):
        bs[a].add_no_contact(bs[b])
    args = dict(sc.get('world', {})); args.update(kw)
    return m.world.World(bs, js, **args), bs, js


# ---------------------------------------------------------------- generators
def r(rng, a, b, nd=3):
    return round(float(rng.uniform(a, b)), nd)


def convex_poly(rng, n=None, scale=10.):
    """Convex polygon in the orientation the library accepts, irregular, not centred."""
    n = n or int(rng.integers(3, 8))
    while True:
        th = np.sort(rng.uniform(0, 2 * math.pi, n))
        gaps = np.diff(np.append(th, th[0] + 2 * math.pi))
        if gaps.min() < 0.25 or gaps.max() > 2.8:
            continue
        a = scale * rng.uniform(.5, 1.5); b = scale * rng.uniform(.5, 1.5); ph = rng.uniform(0, math.pi)
        off = rng.normal(size=2) * scale * .5
        pts = np.stack([a * np.cos(th), b * np.sin(th)], 1)
        R = np.array([[math.cos(ph), -math.sin(ph)], [math.sin(ph), math.cos(ph)]])
        pts = np.round(pts @ R.T + off, 3)
        if accepted(pts):
            return [list(map(float, p)) for p in pts]
        return [list(map(float, p)) for p in pts[::-1]]


def accepted(pts):
    """The documented orientation test of the constructor (shoelace sign)."""
    pts = np.asarray(pts, float)
    nx = np.roll(pts, -1, 0)
    return ((nx[:, 0] - pts[:, 0]) * (nx[:, 1] + pts[:, 1])).sum() < 0


def rand_body(rng, pos=None, kinds=('circle', 'rect', 'hull'), scale=10., vel=20.):
    k = str(rng.choice(list(kinds)))
    pos = [r(rng, -100, 100), r(rng, -100, 100)] if pos is None else [float(round(x, 3)) for x in pos]
    s = dict(kind=k, mass=r(rng, .3, 5), restitution=r(rng, 0, 1), fric_coeff=r(rng, 0, 1.2))
    if vel:
        s['vel'] = [r(rng, -1, 1), r(rng, -vel, vel), r(rng, -vel, vel)]
    if k == 'circle':
        s['rad'] = r(rng, .3 * scale, 1.5 * scale)
    elif k == 'rect':
        s['dims'] = [r(rng, .5 * scale, 3 * scale), r(rng, .5 * scale, 3 * scale)]
    else:
        s['verts'] = convex_poly(rng, scale=scale)
    if k != 'hull' and rng.random() < .5:
        pos = [r(rng, -3, 3)] + pos
    s['pos'] = pos
    return s


def rand_force(rng):
    k = str(rng.choice(['gravity', 'gravity', 'down_force', 'vert_impulse', 'hor_impulse', 'rot_impulse', 'lin', 'switch']))
    s = dict(kind=k)
    if k == 'gravity':
        if rng.random() < .6: s['g'] = r(rng, -5, 40)
    else:
        s['mult'] = r(rng, -50, 150)
        if k in ('lin', 'switch'):
            s['vec'] = [r(rng, -1, 1), r(rng, -1, 1), r(rng, -1, 1)]
            s['w'] = r(rng, -3, 3); s['until'] = r(rng, 0, .2)
    return s


def npy(t):
    return t.detach().cpu().numpy().astype(float)


def world_verts(b):
    return np.array([npy(v) for v in b.verts]) + npy(b.pos)


def rot(th):
    return np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])


def close(a, b, tol=1e-7, scale=None):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return False
    s = 1 + max(np.abs(a).max(), np.abs(b).max()) if scale is None else scale
    return bool(np.abs(a - b).max() <= tol * s)
