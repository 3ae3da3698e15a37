"""Run-time contracts: differentiability through simulation."""
import numpy as np, random, copy
import torch
from . import scenes as S
from .base import RT, Skip, Fail, need
from .scenes import close, npy, r
from .dyn import gen_scene, gen_c02, Acc, Anchors, joint_rows, indep

PARAMS = ('pos', 'vel', 'mass', 'rad', 'dims', 'fric_coeff', 'restitution', 'mult', 'verts')


def gen_c18(rng):
    k = str(rng.choice(['free', 'contact', 'hull', 'chain']))
    if k == 'free': sc = gen_scene(rng, nmax=3)
    elif k == 'contact': sc = gen_c02(rng)
    elif k == 'chain':
        sc = gen_scene(rng, nmax=3)
    else:
        sc = dict(bodies=[dict(kind='rect', pos=[0., 0., 40.], dims=[300., 40.], mass=1., restitution=r(rng, 0, 1), fric_coeff=r(rng, .1, 1))], joints=[dict(kind='total', b1=0, b2=None, pos=[0., 0.])], forces=[[]], world=dict(dt=.02))
        for i in range(int(rng.integers(1, 3))):
            if rng.random() < .5:
                b = dict(kind='rect', dims=[20., 20.], pos=[r(rng, -.3, .3), 0., 0.])
            else:
                b = dict(kind='hull', verts=S.convex_poly(rng, scale=10.), pos=[0., 0.])
            b.update(mass=r(rng, .5, 3), restitution=r(rng, 0, 1), fric_coeff=r(rng, .1, 1), vel=[r(rng, -1, 1), r(rng, -20, 20), r(rng, 5, 30)])
            B = S.body(b); V = S.world_verts(B)
            b['pos'][-2] += -40. + 60 * i - float(V[:, 0].mean()); b['pos'][-1] += 20 - V[:, 1].max() - r(rng, 0, .08)
            sc['bodies'].append(b); sc['forces'].append([dict(kind='gravity')])
    sc['steps'] = int(rng.integers(1, 4)); sc['post'] = bool(rng.random() < .15)
    i = int(rng.integers(len(sc['bodies'])))
    names = [n for n in PARAMS if n in sc['bodies'][i]] + (['mult'] if any('mult' in f for f in sc['forces'][i]) else [])
    sc['param'] = [i, str(rng.choice(names))]
    sc['dir'] = [r(rng, -1, 1) for _ in range(20)]; sc['loss'] = [r(rng, -1, 1) for _ in range(6 * len(sc['bodies']))]
    return sc


def value(sc):
    i, n = sc['param']
    if n == 'mult':
        return [f['mult'] for f in sc['forces'][i] if 'mult' in f][:1]
    v = sc['bodies'][i][n]
    return v


def simulate(sc, x):
    """x: tensor replacing the parameter."""
    m = S.mods(); random.seed(3)
    i, n = sc['param']
    bs = []
    for k, s in enumerate(sc['bodies']):
        if k == i and n not in ('mult', 'verts'):
            bs.append(S.body(s, m, lambda name, v: x if name == n else v))
        elif k == i and n == 'verts':
            it = iter(range(len(s['verts'])))
            bs.append(S.body(s, m, lambda name, v: x[next(it)] if name == 'verts' else v))
        else:
            bs.append(S.body(s, m))
    js = [S.joint(s, bs, m) for s in sc.get('joints', [])]
    done = False
    for k, fs in enumerate(sc['forces']):
        for f in fs:
            if k == i and n == 'mult' and 'mult' in f and not done:
                done = True; f = dict(f, mult=x[0])
            S.add_force(f, bs[k], m)
    w = m.world.World(bs, js, strict_no_penetration=False, post_stab=sc['post'], **sc['world'])
    acc = Acc(w); sig = []
    ok = True
    for _ in range(sc['steps']):
        sig.append((len(w.contacts), tuple((c[1], c[2]) for c in w.contacts)))
        w.step(); ok = ok and acc.ok
        sig.append(w.t)
    out = torch.cat([torch.cat([b.p for b in bs]), w.v])
    return (out * torch.tensor(sc['loss'], dtype=torch.double)).sum(), sig, ok, out


def check_c18(sc):
    base = torch.tensor(value(sc), dtype=torch.double)
    d = torch.tensor(sc['dir'], dtype=torch.double)
    d = d[:base.numel()].reshape(base.shape) if base.numel() <= 20 else torch.ones_like(base)
    x = base.clone().requires_grad_()
    sc0 = sc
    w, bs, js = S.build(dict(sc, joints=sc.get('joints', [])), strict_no_penetration=False)
    if not indep(joint_rows(sc, bs, Anchors(sc, bs).now())): raise Skip
    loss, sig, ok, out = simulate(sc, x)
    if not ok: raise Skip
    need(torch.isfinite(loss).item(), 'state not finite')
    hs = []
    for h in (1e-5, 2e-5, 4e-5):
        vals = []
        for s in (1, -1):
            with torch.no_grad():
                l, sg, ok, _ = simulate(sc, base + s * h * d)
            if sg != sig or not ok: raise Skip
            vals.append(float(l))
        hs.append((vals[0] - vals[1]) / (2 * h))
    scale = 1 + max(abs(v) for v in hs)
    if max(hs) - min(hs) > 1e-4 * scale: raise Skip      # a branch boundary or curvature: no derivative to compare with
    if loss.requires_grad:
        try:
            loss.backward()
        except RuntimeError as e:
            if 'is zero' in str(e): raise Skip      # redundant contacts: the solution is not locally unique
            raise
        g = float((x.grad * d).sum()) if x.grad is not None else 0.
    else:
        g = 0.
    need(np.isfinite(g), 'gradient with respect to %s of body %d is %s', sc['param'][1], sc['param'][0], g)
    need(abs(g - hs[0]) <= 2e-3 * scale, 'derivative with respect to %s of body %d is %s, finite differences give %s', sc['param'][1], sc['param'][0], g, hs)


RUNTIME = {'C18': [RT('gradient', gen_c18, check_c18)]}
