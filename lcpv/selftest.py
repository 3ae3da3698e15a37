"""./check --selftest: the executor against CPython on concrete inputs, and deliberately broken copies which must be refuted"""
import importlib, math, os, random, shutil, subprocess, sys, tempfile
from . import env, verify as V
from .eng import terms as T


def closed(name, args, sort): raise T.EvalError(name)


def num(x):
    """executor value -> floats"""
    return [float(T.evaluate(T.strip_det(t, {}), closed, {})) for t in V.flat(x)]


def real(x):
    import torch
    if isinstance(x, torch.Tensor): return x.detach().reshape(-1).tolist()
    if isinstance(x, (list, tuple)): return [v for y in x for v in real(y)]
    return [float(x)]


def scenes(rnd):
    """(name, function of an adapter): run both in the executor and on CPython"""
    u = lambda a, b: round(rnd.uniform(a, b), 3)
    pose, pose2, vel, rad, dims, dt = [u(-3, 3) for _ in range(3)], [u(-1, 1) + .5 for _ in range(3)], [u(-2, 2) for _ in range(3)], u(.5, 2), [u(1, 3), u(1, 3)], u(.01, .5)
    tri = [[0., 0.], [u(2, 3), u(-.5, .5)], [u(.5, 1.5), u(1, 2)]]
    ev = u(0, .2)
    def circle(a):
        b = a.new('bodies', 'Circle', pose, rad, vel); a.inv(b, 'move', dt)
        return [a.attr(b, n) for n in ('p', 'v', 'M', 'pos', 'ang_inertia')]
    def rect(a):
        b = a.new('bodies', 'Rect', pose, dims, vel); a.inv(b, 'move', dt); a.inv(b, 'set_p', a.tensor(pose2))
        return [a.attr(b, 'p'), a.attr(b, 'verts'), a.attr(b, 'M')]
    def hull(a):
        b = a.new('bodies', 'Hull', [0., 0.], tri); a.inv(b, 'move', dt)
        return [a.attr(b, 'p'), a.attr(b, 'verts'), a.attr(b, 'M')]
    def joint(a):
        b, c = a.new('bodies', 'Circle', pose, rad, vel), a.new('bodies', 'Rect', pose2, dims)
        j = a.new('constraints', 'Joint', b, c, [.3, .4]); a.inv(b, 'move', dt); a.inv(j, 'move', dt)
        return [a.attr(j, 'pos'), list(a.inv(j, 'J')), a.attr(j, 'rot1')]
    def forces(a):
        b = a.new('bodies', 'Rect', pose, dims, vel)
        for f in ('vert_impulse', 'hor_impulse', 'rot_impulse'): a.inv(b, 'add_force', a.new('forces', 'ExternalForce', a.fn('forces', f), 3.))
        a.inv(b, 'add_force', a.new('forces', 'Gravity', g=9.))
        return [a.inv(b, 'apply_forces', ev)]
    def separations(a):
        b, c = a.new('bodies', 'Rect', [.1] + pose[1:], dims), a.new('bodies', 'Hull', [p + .7 for p in pose[1:]], tri)
        h = a.new('contacts', 'DiffContactHandler')
        r = a.seq(a.inv(h, 'test_separations', b, c, eps=50.))
        cl = a.inv(h, 'clip_segment_to_line', [a.tensor(tri[0]), a.tensor(tri[2])], a.tensor([.6, .8]), a.tensor(-.4))
        p = a.inv(h, 'get_closest', a.tensor([3.1, .4]), [a.tensor(t) for t in tri])
        return [r[0], r[1], r[3], r[4], r[6], cl, a.seq(p)[0]]
    def polar(a):
        r = a.call('utils', 'cart_to_polar', a.tensor(pose[1:])); r = a.seq(r)
        return [r[0], r[1], a.call('utils', 'polar_to_cart', r[0], r[1]), a.call('utils', 'rotation_matrix', a.tensor(pose[0]))]
    return [circle, rect, hull, joint, forces, separations, polar]


class Executor:
    def __init__(self):
        self.k = V.K('f64')
        def status(c):                     # closed conditions (of sines and roots) by their value
            try: return bool(T.evaluate(T.strip_det(c, {}), closed, {}))
            except T.EvalError: return None
        self.k.it.status = status
    def conv(self, x): return self.k.list(*[self.conv(y) for y in x]) if isinstance(x, list) else x
    def new(self, mod, name, *a, **kw): return self.k.call(self.k.cls(mod, name), *[self.conv(x) for x in a], **kw)
    call = new
    def fn(self, mod, name): return self.k.fn(mod, name)
    def inv(self, o, m, *a, **kw): return self.k.inv(o, m, *[self.conv(x) for x in a], **kw)
    def attr(self, o, n): return self.k.attr(o, n)
    def seq(self, x): return self.k.it.iter(x)
    def tensor(self, x): return self.k.call(self.k.cls('utils', 'get_tensor'), self.conv(x))
    def out(self, xs):
        r = []
        for x in xs:
            if x is None: continue
            r += [v for y in (self.k.it.iter(x) if isinstance(x, (list, tuple)) or type(x).__name__ in ('PList', 'SList') else [x]) if y is not None for v in num(y)]
        return r


class Real:
    def new(self, mod, name, *a, **kw): return getattr(importlib.import_module('lcp_physics.physics.' + mod), name)(*a, **kw)
    call = new
    def fn(self, mod, name): return getattr(importlib.import_module('lcp_physics.physics.' + mod), name)
    def inv(self, o, m, *a, **kw): return getattr(o, m)(*a, **kw)
    def attr(self, o, n): return getattr(o, n)
    def seq(self, x): return list(x)
    def tensor(self, x): return self.call('utils', 'get_tensor', x)
    def out(self, xs): return [v for x in xs if x is not None for v in real(x)]


BROKEN = [('C03', 'physics/utils.py', 'torch.stack([v[1], -v[0]])', 'torch.stack([v[1], v[0]])'),
          ('C22', 'physics/world.py', 'end_t = self.t + self.dt', 'end_t = self.t + 2 * self.dt'),
          ('C06', 'physics/bodies.py', 'mass * self.rad * self.rad / 2', 'mass * self.rad * self.rad / 3'),
          ('C15', 'physics/forces.py', 't < 0.1', 't <= 0.1'),
          ('C09', 'physics/contacts.py', 'if dot < min_dot:', 'if dot > min_dot:'),
          ('C13', 'physics/world.py', 'dt /= 2', 'dt /= 3')]


def main():
    bad = 0; rnd = random.Random(3)
    for n in range(5):
        state = rnd.getstate()
        names = [f.__name__ for f in scenes(rnd)]
        for i, name in enumerate(names):
            r2 = random.Random(); r2.setstate(state); f = scenes(r2)[i]
            want = Real(); want = want.out(f(want))
            k = Executor(); res = []
            outs = k.k.it.explore(lambda: res.append(k.out(f(k))), 50)
            ok = len(res) == 1 and len(res[0]) == len(want) and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(res[0], want))
            if not ok: bad += 1; print('MISMATCH %s: executor %s, CPython %s, %s' % (name, res[:1], want, [(o.kind, getattr(o.val, 'msg', '')) for o in outs][:3]))
    print('executor against CPython: %d comparisons, %d mismatches' % (5 * len(names), bad))
    for prop, path, old, new in BROKEN:
        d = tempfile.mkdtemp(prefix='lcpv-self-')
        try:
            shutil.copytree(os.path.join(env.REPO, 'lcp_physics'), os.path.join(d, 'lcp_physics'))
            p = os.path.join(d, 'lcp_physics', path); s = open(p).read()
            if old not in s: print('broken copy for %s: text not there, skipped' % prop); continue
            open(p, 'w').write(s.replace(old, new))
            code = "import importlib,sys; from lcpv import verify as V; r=V.run(importlib.import_module('lcpv.proofs.%s'), '%s', False); sys.exit(0 if r.refuted() else 9)" % (prop.lower(), prop)
            rc = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=dict(os.environ, LCPV_REPO=d), cwd=env.VERIF, stdout=subprocess.DEVNULL).returncode
            print('broken copy for %s (%s -> %s): %s' % (prop, old, new, 'refuted' if rc == 0 else 'NOT REFUTED'))
            bad += rc != 0
        finally: shutil.rmtree(d)
    return 1 if bad else 0
