"""Run-time contracts: tensor types."""
import numpy as np
import torch
from . import scenes as S
from .base import RT, Skip, Fail, need
from .scenes import close, npy, r
from .dyn import gen_scene, gen_c02, Anchors, joint_rows, indep
from .grad import gen_c18

DT = {'f32': torch.float32, 'f64': torch.float64}


def gen_c20(rng):
    sc = gen_c18(rng)
    fields = ['pos', 'vel', 'mass', 'rad', 'dims', 'fric_coeff', 'restitution', 'verts', 'eps']
    sc['tens'] = [[f for f in fields if f in s and rng.random() < .35] for s in sc['bodies']]
    sc['dt_'] = str(rng.choice(['f32', 'f32', 'f64', 'none']))
    for s, t in zip(sc['bodies'], sc['tens']):
        if s['kind'] == 'hull' and 'verts' in t: t.remove('verts')     # vertices are a sequence, not an argument tensor
        if not t: t.append('mass' if 'mass' in s else 'pos')
    for fs in sc['forces']:
        if rng.random() < .5: fs.append(dict(kind=str(rng.choice(['down_force', 'hor_impulse', 'rot_impulse'])), mult=3.))
    sc['post'] = bool(rng.random() < .3)
    return sc


def check_c20(sc):
    m = S.mods()
    dt = DT.get(sc['dt_']); want = dt or m.utils.Defaults.DTYPE
    if dt is None: need(want == torch.double, 'the default type is %s', want)
    given = []
    bs = []
    for s, tens in zip(sc['bodies'], sc['tens']):
        if dt is None: bs.append(S.body(s, m)); given.append({}); continue
        mp = {f: torch.tensor(s[f], dtype=dt) for f in tens if f in s}
        given.append(mp); bs.append(S.body(s, m, lambda n, v: mp.get(n, v)))
    for s, fs, b in zip(sc['bodies'], sc['forces'], bs):
        for f in fs:
            if f['kind'] in ('lin', 'switch'): continue
            S.add_force(f, b, m)
    js = [S.joint(s, bs, m) for s in sc.get('joints', [])]
    def chk(name, t, opt=False):
        if t is None: return
        need(isinstance(t, torch.Tensor) and t.dtype == want, '%s is %s, expected %s', name, getattr(t, 'dtype', type(t)), want)
    def state(when):
        for i, b in enumerate(bs):
            for a in ('p', 'rot', 'pos', 'v', 'M', 'mass', 'ang_inertia', 'fric_coeff', 'restitution', 'eps', 'rad', 'dims'):
                if hasattr(b, a): chk('body %d %s (%s)' % (i, a, when), getattr(b, a))
            for k, v in enumerate(getattr(b, 'verts', [])): chk('body %d vertex %d (%s)' % (i, k, when), v)
            chk('force on body %d (%s)' % (i, when), b.apply_forces(.05))
        for j in js:
            for a in ('pos', 'pos1', 'pos2', 'rot1', 'rot2', 'r1', 'r2'):
                if isinstance(getattr(j, a, None), torch.Tensor): chk('%s.%s (%s)' % (type(j).__name__, a, when), getattr(j, a))
            for J in j.J(): chk('%s Jacobian' % type(j).__name__, J)
    state('construction')
    for b, mp, s in zip(bs, given, sc['bodies']):
        for f, t in mp.items():
            if f in ('mass', 'rad', 'dims', 'fric_coeff', 'restitution', 'eps'):
                need(getattr(b, f) is t, 'the tensor given as %s is not used itself', f)
            if f == 'vel' and len(s['vel']) == 3: need(b.v is t, 'the velocity tensor is not used itself')
    w = m.world.World(bs, js, strict_no_penetration=False, post_stab=sc['post'], **sc['world'])
    if not indep(joint_rows(sc, bs, Anchors(sc, bs).now())): raise Skip
    for k in range(sc['steps'] + 1):
        for n in ('M', 'Je', 'Jc', 'Jf', 'mu', 'E', 'restitutions', 'get_v'):
            chk('world %s' % n, getattr(w, n)())
        chk('world forces', w.apply_forces(w.t))
        for c in w.contacts:
            for t in c[0]: chk('contact data', t)
        state('step %d' % k)
        if k < sc['steps']: w.step()


def gen_get(rng):
    return dict(x=[r(rng, -5, 5) for _ in range(int(rng.integers(1, 4)))], b=str(rng.choice(['f32', 'f64'])))


def check_get(case):
    u = S.mods().utils
    t = torch.tensor(case['x'], dtype=torch.float32, requires_grad=True)
    need(u.get_tensor(t) is t and u.get_tensor(t, base_tensor=torch.zeros(1, dtype=DT[case['b']])) is t, 'a tensor passed in is not used itself')
    a = u.get_tensor(case['x'], base_tensor=torch.zeros(1, dtype=DT[case['b']]))
    need(a.dtype == DT[case['b']] and close(npy(a), case['x'], 1e-6), 'conversion to the base type gave %s', a)
    a = u.get_tensor(case['x']); need(a.dtype == u.Defaults.DTYPE and close(npy(a), case['x']), 'default conversion gave %s', a)
    a = u.get_tensor(case['x'][0]); need(a.dtype == u.Defaults.DTYPE and a.dim() == 0, 'scalar conversion')


RUNTIME = {'C20': [RT('types', gen_c20, check_c20, 4), RT('get-tensor', gen_get, check_get, .3)]}
