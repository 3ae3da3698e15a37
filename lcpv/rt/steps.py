"""Run-time contracts: time stepping, retries, runs, recording."""
import math, os, shutil, tempfile
import numpy as np
import torch
from . import scenes as S
from .base import RT, Skip, Fail, need
from .scenes import close, npy, r
from .dyn import gen_scene, Anchors


class StepEngine:
    script = None; log = None; k = 0

    def solve_dynamics(self, world, dt):
        v = StepEngine.script[StepEngine.k % len(StepEngine.script)]
        StepEngine.k += 1
        StepEngine.log.append((float(world.t), float(dt), [npy(b.p).copy() for b in world.bodies], v))
        return world.v.new_tensor(v)

    def post_stabilization(self, world):
        return world.v.new_zeros(1, len(world.v))


class Limit:
    """Reports penetration while a body is displaced by more than the limit of the current step."""
    limit = math.inf; log = None; pens = (1.,); base = None

    def __call__(self, args, g1, g2):
        w = args[0]
        if {g1.body, g2.body} != {0, 1}: return
        if not StepEngine.log:
            return
        start, v = StepEngine.log[-1][2:]
        k = (StepEngine.k - 1) % len(Limit.limits)
        d = max(np.abs(npy(b.p) - s).max() for b, s in zip(w.bodies, start))
        Limit.log.append((StepEngine.k, [npy(b.p).copy() for b in w.bodies]))
        n = w.v.new_tensor([1., 0.]); z = w.v.new_tensor([0., 0.])
        pen = w.tol * (3 if d > Limit.limits[k] else .5)
        if Limit.two:
            w.contacts.append(((n, z, z, w.v.new_tensor(-1.)), 0, 1))
        w.contacts.append(((n, z, z, w.v.new_tensor(pen)), 0, 1))
        if Limit.two:
            w.contacts.append(((n, z, z, w.v.new_tensor(-1.)), 1, 0))


def gen_c13(rng):
    sc = gen_scene(rng, nmax=3)
    while len(sc['bodies']) < 2: sc = gen_scene(rng, nmax=3)
    # 0 and 1 overlap broadly so that the pair is always offered
    for s in sc['bodies'][:2]:
        s['kind'] = 'circle'; s['rad'] = 300.; s.pop('dims', None); s.pop('verts', None); s['pos'] = [float(x) for x in s['pos'][-2:]]
    sc['vs'] = [[r(rng, -8, 8) for _ in range(3 * len(sc['bodies']))] for _ in range(3)]
    sc['limits'] = [float(rng.choice([1e9, rng.uniform(.001, .4), rng.uniform(.01, .1)])) for _ in range(3)]
    sc['strict'] = bool(rng.random() < .6); sc['two'] = bool(rng.random() < .4); sc['steps'] = int(rng.integers(1, 4))
    sc['part'] = [float(rng.choice([1, r(rng, .05, 1)])) for _ in range(3)] if rng.random() < .5 else None
    sc['hullrot'] = True
    return sc


def check_c13(sc):
    StepEngine.script = sc['vs']; StepEngine.k = 0; StepEngine.log = []; Limit.limits = sc['limits']; Limit.two = sc['two']; Limit.log = []
    w, bs, js = S.build(sc, engine=StepEngine, contact_callback=Limit, strict_no_penetration=sc['strict'])
    an = Anchors(sc, bs); n = len(bs)
    verts0 = [None if not hasattr(b, 'verts') else (np.array([npy(v) for v in b.verts]), float(b.p[0])) for b in bs]
    D = w.dt
    for st in range(sc['steps']):
        Limit.log.clear()
        p0 = [npy(b.p).copy() for b in bs]; t0 = w.t
        rots = [(None if j.rot1 is None else float(j.rot1), None if j.rot2 is None else float(j.rot2)) for j in js if hasattr(j, 'rot1') and hasattr(j, 'rot2')]
        k0 = StepEngine.k
        D0 = D * (sc['part'][st] if sc.get('part') else 1)
        w.step_dt(D0) if sc.get('part') else w.step()
        need(StepEngine.k == k0 + 1, 'the velocities were computed %d times in one step', StepEngine.k - k0)
        v = np.array(sc['vs'][k0 % len(sc['vs'])])
        vmax = np.abs(v).max(); dt = D0; tries = [dt]
        while dt * vmax > sc['limits'][k0 % len(sc['limits'])]:
            if 0 < abs(dt - D / 4) < 1e-12: raise Skip
            if not sc['strict'] and dt < D / 4: break
            dt /= 2; tries.append(dt)
        if abs(dt * vmax - sc['limits'][k0 % len(sc['limits'])]) < 1e-9: raise Skip
        need(close(w.t - t0, dt, 1e-9), 'time advanced by %s, accepted duration should be %s (dt %s)', w.t - t0, dt, D)
        need(len(Limit.log) >= len(tries), 'expected %d attempts', len(tries))
        for a, (_, ps) in zip(tries, Limit.log):
            for i in range(n):
                need(close(ps[i], p0[i] + v[3 * i:3 * i + 3] * a, 1e-9), 'attempt with dt=%s puts body %d at %s, expected %s', a, i, ps[i].tolist(), (p0[i] + v[3 * i:3 * i + 3] * a).tolist())
        for i, b in enumerate(bs):
            need(close(npy(b.p), p0[i] + v[3 * i:3 * i + 3] * dt, 1e-9), 'body %d ends at %s, expected %s', i, npy(b.p).tolist(), (p0[i] + v[3 * i:3 * i + 3] * dt).tolist())
            need(close(npy(b.v), v[3 * i:3 * i + 3]), 'body %d velocity', i)
            if verts0[i] is not None:
                V, th = verts0[i]
                need(close(np.array([npy(x) for x in b.verts]), V @ S.rot(float(b.p[0]) - th).T, 1e-7), 'vertices of body %d are not those of its pose after %d attempts', i, len(tries))
        for j, s, x in zip(js, sc['joints'], an.now()):
            need(close(npy(j.pos).reshape(-1), x, 1e-7), '%s anchor %s, expected %s after %d attempts', s['kind'], npy(j.pos).tolist(), x.tolist(), len(tries))
        m = 0
        for j, s in zip(js, sc['joints']):
            if not (hasattr(j, 'rot1') and hasattr(j, 'rot2')): continue
            r1, r2 = rots[m]; m += 1
            if s['kind'] == 'joint':
                need(close(float(j.rot1), r1 + v[3 * s['b1']] * dt, 1e-9), 'first joint angle %s, expected %s after %d attempts', float(j.rot1), r1 + v[3 * s['b1']] * dt, len(tries))
                if s.get('b2') is not None:
                    need(close(float(j.rot2), r2 + v[3 * s['b2']] * dt, 1e-9), 'second joint angle %s, expected %s after %d attempts', float(j.rot2), r2 + v[3 * s['b2']] * dt, len(tries))
        need(len(w.contacts) == (3 if sc['two'] else 1), 'contacts after the step: %d', len(w.contacts))
        if sc['strict']:
            need(all(float(c[0][3]) <= w.tol for c in w.contacts), 'accepted state penetrates more than the tolerance')


def gen_real(rng):
    """Real scene: balls thrown at a wall, real handlers."""
    return dict(bodies=[dict(kind='rect', pos=[0., 0., 0.], dims=[20., 200.], mass=1.), dict(kind='circle', pos=[-30., r(rng, -20, 20)], rad=r(rng, 2, 8), vel=[r(rng, -3, 3), r(rng, 50, 400), r(rng, -30, 30)], mass=1.),
                        dict(kind='hull', pos=[45., 0.], verts=S.convex_poly(rng, scale=8.), vel=[r(rng, -3, 3), r(rng, -300, -10), 0.], mass=1.)],
                joints=[dict(kind='total', b1=0, b2=None, pos=[0., 0.])], forces=[[], [], []], world=dict(dt=r(rng, .01, .1)), steps=int(rng.integers(1, 6)))


def check_real(sc):
    from .geo import sep_ok
    w, bs, js = S.build(sc, strict_no_penetration=False)
    if any(float(c[0][3]) > w.tol for c in w.contacts): raise Skip
    w.strict_no_pen = True
    for _ in range(sc['steps']):
        p0 = [npy(b.p).copy() for b in bs]; t0 = w.t
        w.step(); dt = w.t - t0
        k = math.log2(w.dt / dt)
        need(abs(k - round(k)) < 1e-6 and k > -1e-6, 'accepted duration %s is not dt %s halved', dt, w.dt)
        for i, b in enumerate(bs):
            need(close(npy(b.p), p0[i] + npy(b.v) * dt, 1e-8), 'body %d did not move by its velocity for %s', i, dt)
            for j in range(i):
                d = sep_ok(b, bs[j])
                need(d >= -w.tol - 1e-9, 'bodies %d and %d interpenetrate by %s after a strict step', j, i, -d)
        if dt < w.dt / 500: break


# ---------------------------------------------------------------- C22
def gen_c22(rng):
    sc = gen_c13(rng); sc['world'] = dict(dt=r(rng, .01, .2)); sc['strict'] = True
    sc['limits'] = [float(rng.choice([1e9, rng.uniform(.03, .4)])) for _ in range(int(rng.integers(1, 4)))]
    sc['run_time'] = r(rng, 0, 1.5); sc['steps'] = int(rng.integers(1, 4))
    return sc


def check_c22(sc):
    StepEngine.script = sc['vs']; StepEngine.k = 0; StepEngine.log = []; Limit.limits = sc['limits']; Limit.two = False; Limit.log = []
    w, bs, js = S.build(sc, engine=StepEngine, contact_callback=Limit)
    for _ in range(sc['steps']):
        t0 = w.t; StepEngine.log.clear(); p0 = [npy(b.p).copy() for b in bs]
        w.step(fixed_dt=True)
        need(abs(w.t - (t0 + w.dt)) < 1e-9 and w.t >= t0 + w.dt, 'fixed step from %s ends at %s, expected %s', t0, w.t, t0 + w.dt)
        prev = None
        for (t, d, ps, v), nxt in zip(StepEngine.log, StepEngine.log[1:] + [None]):
            need(t + d <= t0 + w.dt + 1e-9 and d > 0, 'a sub-step from %s by %s goes past %s', t, d, t0 + w.dt)
            t1 = nxt[0] if nxt else w.t
            need(t < t1 <= t + d + 1e-12, 'sub-step covers %s .. %s', t, t1)
            for i, b in enumerate(bs):
                e = ps[i] + np.array(v)[3 * i:3 * i + 3] * (t1 - t)
                q = nxt[2][i] if nxt else npy(b.p)
                need(close(q, e, 1e-7), 'sub-step from %s to %s moved body %d to %s, expected %s', t, t1, i, q.tolist(), e.tolist())
    StepEngine.log.clear(); t0 = w.t
    w.step()
    need(len(StepEngine.log) == 1 and abs(StepEngine.log[0][1] - w.dt) < 1e-12, 'an ordinary step made %d sub-steps', len(StepEngine.log))


def check_run(sc):
    m = S.mods()
    StepEngine.script = sc['vs']; StepEngine.k = 0; StepEngine.log = []; Limit.limits = sc['limits']; Limit.two = False; Limit.log = []
    w, bs, js = S.build(sc, engine=StepEngine, contact_callback=Limit)
    t0 = w.t
    m.world.run_world(w, run_time=sc['run_time'], print_time=False)
    need(w.t >= sc['run_time'], 'run stopped at %s before %s', w.t, sc['run_time'])
    need(all(t < sc['run_time'] for t, *_ in StepEngine.log), 'a step was started after the run time')
    need(all(abs(d - w.dt) < 1e-12 for _, d, *_ in StepEngine.log), 'run used other steps than the world\'s dt')
    k = len(StepEngine.log)
    m.world.run_world(w, run_time=sc['run_time'], print_time=False)
    need(len(StepEngine.log) == k, 'a run with its time already reached still steps')
    m.world.run_world(w, run_time=w.t + 2.5 * w.dt, print_time=False, animation_dt=.5)
    need(len(StepEngine.log) >= k + 3, 'second run did not continue')


def gen_rec(rng):
    ts = np.cumsum(rng.uniform(.001, .12, int(rng.integers(1, 25))))
    return dict(dt=r(rng, .01, .1), ts=[float(t) for t in ts])


def check_rec(case):
    import pygame
    u = S.mods().utils
    d = tempfile.mkdtemp(prefix='lcpv_rec_')
    try:
        path = os.path.join(d, 'a', 'frames')
        rec = u.Recorder(case['dt'], pygame.Surface((4, 4)), path=path)
        need(os.path.isdir(path), 'the frame folder was not created')
        prev = 0.; n = 0
        for t in case['ts']:
            if abs(t - prev - case['dt']) < 1e-9: raise Skip
            if t - prev >= case['dt']: n += 1; prev += case['dt']
            rec.record(t)
            got = sorted(os.listdir(path), key=lambda f: int(f.split('.')[0]))
            need(got == ['%d.bmp' % i for i in range(n)], 'frames at t=%s: %s, expected %d frames', t, got[-3:], n)
        # a second recorder into the same folder must not fail
        u.Recorder(case['dt'], pygame.Surface((4, 4)), path=path)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_runrec(rng):
    return dict(dt=r(rng, .02, .1), rdt=r(rng, .02, .2), run=r(rng, .1, .8))


def check_runrec(case):
    import pygame
    m = S.mods(); pygame.init()
    screen = pygame.Surface((20, 20))
    d = tempfile.mkdtemp(prefix='lcpv_run_')
    try:
        if not pygame.display.get_init(): pygame.display.init()
        if pygame.display.get_surface() is None: pygame.display.set_mode((20, 20))
        b = m.bodies.Circle([5., 5.], 2., vel=[1., 0.])
        w = m.world.World([b], dt=case['dt'])
        rec = m.utils.Recorder(case['rdt'], screen, path=d)
        m.world.run_world(w, run_time=case['run'], print_time=False, screen=screen, recorder=rec)
        need(case['run'] <= w.t < case['run'] + case['dt'] + 1e-9, 'recorded run ended at %s', w.t)
        n = 0; prev = 0.; t = 0.
        while t < case['run']:
            t += case['dt']
            if abs(t - prev - case['rdt']) < 1e-9: raise Skip
            if t - prev >= case['rdt']: n += 1; prev += case['rdt']
        need(len(os.listdir(d)) == n, '%d frames recorded, expected %d', len(os.listdir(d)), n)
    finally:
        shutil.rmtree(d, ignore_errors=True)


RUNTIME = {
    'C13': [RT('retry-transition', gen_c13, check_c13, 2), RT('real-retries', gen_real, check_real)],
    'C22': [RT('fixed-step', gen_c22, check_c22, 2), RT('run', gen_c22, check_run), RT('recorder', gen_rec, check_rec, .5), RT('run-recorded', gen_runrec, check_runrec, .5)],
}
