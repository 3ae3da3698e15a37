"""Run-time contracts: kinematics, mass properties, contacts, exclusion, broadphase, anchors."""
import math, random
import numpy as np
import torch
from . import scenes as S
from .base import RT, Skip, need
from .scenes import close, npy, r


# ------------------------------------------------------------------ C05 / C17 / C19 histories
def gen_hist(rng, joints=False, kinds=('circle', 'rect', 'hull'), nb=1):
    bs = [S.rand_body(rng, kinds=kinds) for _ in range(nb)]
    ops = []
    for _ in range(int(rng.integers(1, 9))):
        if rng.random() < .6:
            ops.append(['move', r(rng, -.2, .5)])
        elif rng.random() < .5:
            ops.append(['set', [r(rng, -8, 8), r(rng, -90, 90), r(rng, -90, 90)]])
        elif rng.random() < .5:
            ops.append(['setsame', [r(rng, -90, 90), r(rng, -90, 90)]])
        else:
            ops.append(['vel', [r(rng, -3, 3), r(rng, -30, 30), r(rng, -30, 30)]])
    return dict(bodies=bs, ops=ops)


def apply_op(b, op):
    if op[0] == 'move': b.move(op[1])
    elif op[0] == 'set': b.set_p(b.p.new_tensor(op[1]))
    elif op[0] == 'setsame': b.set_p(torch.cat([b.p[0:1], b.p.new_tensor(op[1])]))
    else: b.v = b.p.new_tensor(op[1])


def check_rigid(case):
    s = case['bodies'][0]
    b = S.body(s)
    p = npy(b.p).copy(); v = npy(b.v).copy()
    if s['kind'] == 'circle': given = None
    elif s['kind'] == 'rect':
        w, h = np.array(s['dims']) / 2
        given = np.array([[w, h], [-w, h], [-w, -h], [w, -h]]) @ S.rot(p[0]).T
        vw = S.world_verts(b) - p[1:]
        need(close(vw, given), 'rectangle vertices at construction %s, expected %s', vw.tolist(), given.tolist())
    if s['kind'] != 'circle':
        off0 = np.array([npy(x) for x in b.verts]); th0 = p[0]
    pp = s['pos']
    exp0 = np.array(pp if len(pp) == 3 else [0.] + list(pp), float)
    if s['kind'] != 'hull':
        need(close(p, exp0), 'pose at construction %s, expected %s', p.tolist(), exp0.tolist())
    for op in case['ops']:
        ptensor, vtensor = b.p, b.v
        pold, vold = npy(ptensor).copy(), npy(vtensor).copy()
        apply_op(b, op)
        if op[0] == 'move': p = p + v * op[1]
        elif op[0] == 'set': p = np.array(op[1], float)
        elif op[0] == 'setsame': p = np.concatenate([p[:1], op[1]])
        else: v = np.array(op[1], float)
        need(close(npy(b.p), p), 'pose after %s is %s, expected %s', op, npy(b.p).tolist(), p.tolist())
        need(close(npy(b.rot), p[:1]) and close(npy(b.pos), p[1:]), 'rot/pos disagree with the pose after %s', op)
        need(close(npy(b.v), v), 'velocity changed by %s: %s -> %s', op, v.tolist(), npy(b.v).tolist())
        need(close(npy(ptensor), pold) and close(npy(vtensor), vold), 'the earlier pose/velocity tensor was overwritten by %s', op)
        if s['kind'] != 'circle':
            exp = off0 @ S.rot(p[0] - th0).T
            got = np.array([npy(x) for x in b.verts])
            need(close(got, exp, 1e-8), 'vertices after %s are %s, expected %s', op, got.tolist(), exp.tolist())


def check_broad(case):
    for s in case['bodies']:
        b = S.body(s)
        broad(b, s, 'construction')
        for op in case['ops']:
            apply_op(b, op)
            if op[0] != 'vel':
                broad(b, s, str(op))


def broad(b, s, when):
    import ode
    eps = float(s.get('eps', S.mods().utils.Defaults.EPSILON))
    g = b.geom
    gp = np.array(g.getPosition(), float)
    need(close(gp[:2], npy(b.pos)) and abs(gp[2]) < 1e-9, 'broadphase centre %s != position %s after %s', gp.tolist(), npy(b.pos).tolist(), when)
    tol = 1e-5
    if s['kind'] == 'circle':
        need(isinstance(g, ode.GeomSphere) and g.getRadius() >= s['rad'] + eps - tol, 'circle volume too small: %s', g.getRadius() if hasattr(g, 'getRadius') else g)
        return
    verts = np.array([npy(x) for x in b.verts])
    if isinstance(g, ode.GeomSphere):
        need(g.getRadius() >= np.linalg.norm(verts, axis=1).max() + eps - tol,
             'sphere %s does not contain the vertices (max radius %s) plus margin %s after %s', g.getRadius(), np.linalg.norm(verts, axis=1).max(), eps, when)
        return
    R = np.array(g.getRotation()).reshape(3, 3)
    L = np.array(g.getLengths())
    loc = (np.c_[verts, np.zeros(len(verts))] @ R)        # R^T v
    need((np.abs(loc[:, :2]).max(0) + eps <= L[:2] / 2 + 1e-3 * (1 + np.abs(verts).max()) * 1e-2).all() and np.abs(loc[:, 2]).max() < L[2] / 2,
         'box %s (rotated frame) does not contain the vertices %s plus margin %s after %s', L.tolist(), loc[:, :2].tolist(), eps, when)


def gen_pairs(rng):
    """Scene of several bodies, some touching within the margin."""
    n = int(rng.integers(2, 5)); bs = []; pos = np.array([0., 0.])
    for i in range(n):
        s = S.rand_body(rng, pos=pos, vel=0)
        s['eps'] = 0.5
        bs.append(s)
        pos = pos + rng.normal(size=2) * 12
    rots = [r(rng, -4, 4) if rng.random() < .7 else 0. for _ in range(n)]
    shifts = [[r(rng, -8, 8), r(rng, -8, 8)] for _ in range(n)]
    excl = [[int(a), int(b)] for a in range(n) for b in range(n) if a != b and rng.random() < .2]
    return dict(bodies=bs, rots=rots, shifts=shifts, excl=excl, steps=int(rng.integers(1, 4)))


class Recorder:
    """Contact handler that only records the pairs it is offered."""
    log = None

    def __call__(self, args, g1, g2):
        Recorder.log.append((g1.body, g2.body))


def sep_ok(a, b):
    """SAT / distance separation of two real bodies, by numpy."""
    ca, cb = not hasattr(a, 'verts'), not hasattr(b, 'verts')
    if ca and cb:
        return np.linalg.norm(npy(a.pos) - npy(b.pos)) - float(a.rad) - float(b.rad)
    if ca or cb:
        if cb: a, b = b, a
        return poly_dist(npy(a.pos), S.world_verts(b))[0] - float(a.rad)
    return sat(S.world_verts(a), S.world_verts(b))[0]


def poly_dist(c, V):
    """Signed distance of c to convex polygon V and closest boundary point (negative inside)."""
    n = len(V); best = None; inside = True; bestpen = None
    area = sum(V[i][0] * V[(i + 1) % n][1] - V[i][1] * V[(i + 1) % n][0] for i in range(n))
    for i in range(n):
        a, bb = V[i], V[(i + 1) % n]; e = bb - a
        t = min(1, max(0, (c - a) @ e / (e @ e))); q = a + t * e
        d = np.linalg.norm(c - q)
        if best is None or d < best[0]: best = (d, q)
        nrm = np.array([e[1], -e[0]]) * (1 if area > 0 else -1); nrm = nrm / np.linalg.norm(nrm)
        s = nrm @ (c - a)
        if s > 0: inside = False
        if bestpen is None or s > bestpen[0]: bestpen = (s, nrm, a, i)
    if inside:
        return bestpen[0], c - bestpen[1] * bestpen[0], bestpen[1], True
    return best[0], best[1], None, False


def sat(A, Bv):
    """max over edge normals of both of the separation; list of (sep, owner, idx, outward normal)."""
    out = []
    for own, (P, Q) in enumerate(((A, Bv), (Bv, A))):
        n = len(P)
        sgn = 1 if sum(P[i][0] * P[(i + 1) % n][1] - P[i][1] * P[(i + 1) % n][0] for i in range(n)) > 0 else -1
        for i in range(n):
            e = P[(i + 1) % n] - P[i]
            nn = sgn * np.array([e[1], -e[0]]) / np.linalg.norm(e)
            out.append((float(((Q - P[i]) @ nn).min()), own, i, nn))
    return max(o[0] for o in out), out


def check_detect(case):
    m = S.mods()
    bs = [S.body(s) for s in case['bodies']]
    for a, b in case['excl']:
        bs[a].add_no_contact(bs[b])
    ex = {frozenset(e) for e in case['excl']}
    Recorder.log = []
    w = m.world.World(bs, contact_callback=Recorder, strict_no_penetration=False, eps=0.5)
    for st in range(case['steps']):
        for i, b in enumerate(bs):
            if case['rots'][i] or st:
                b.set_p(b.p + b.p.new_tensor([case['rots'][i]] + case['shifts'][i]) * (st + 1) / 2)
        Recorder.log = []
        w.find_contacts()
        pairs = [frozenset(x) for x in Recorder.log]
        for i in range(len(bs)):
            for j in range(i):
                fs = frozenset((i, j))
                need(pairs.count(fs) <= 1, 'pair %s offered %d times', sorted(fs), pairs.count(fs))
                d = sep_ok(bs[i], bs[j])
                if d < 0.45 and fs not in ex:
                    need(fs in pairs, 'bodies %s are %.4f apart (margin 0.5) but the pair was not offered', sorted(fs), d)


# ------------------------------------------------------------------ C06
def gen_mass(rng):
    s = S.rand_body(rng)
    if s['kind'] == 'hull' and rng.random() < .3:
        s['verts'] = s['verts'][::-1]; s['bad'] = True
    s['tensor'] = bool(rng.random() < .5)
    if s['kind'] == 'hull' and rng.random() < .3:
        # far from the origin of its own frame
        o = rng.normal(size=2) * 60
        s['verts'] = [[round(v[0] + o[0], 3), round(v[1] + o[1], 3)] for v in s['verts']]
    return s


def poly_props(V):
    V = np.asarray(V, float); n = len(V)
    A = 0; Cx = np.zeros(2)
    for i in range(n):
        a, b = V[i], V[(i + 1) % n]; c = a[0] * b[1] - a[1] * b[0]
        A += c / 2; Cx += c * (a + b) / 6
    cen = Cx / A
    # second moment about the centroid by triangulation from the centroid
    I = 0
    for i in range(n):
        a, b = V[i] - cen, V[(i + 1) % n] - cen; c = a[0] * b[1] - a[1] * b[0]
        I += c / 12 * (a @ a + a @ b + b @ b)
    return A, cen, I / A


def check_mass(s):
    wrap = (lambda n, v: torch.tensor(v, dtype=torch.double)) if s['tensor'] else None
    if s['kind'] == 'hull' and S.accepted(s['verts']) == bool(s.get('bad')):
        raise Skip
    if s.get('bad'):
        try:
            S.body(s, wrap=wrap)
        except Exception:
            return
        need(False, 'polygon in the opposite orientation was accepted')
    b = S.body(s, wrap=wrap)
    m = s['mass']
    need(close(float(b.mass), m), 'mass %s, given %s', float(b.mass), m)
    if s['kind'] == 'circle': I = m * s['rad'] ** 2 / 2
    elif s['kind'] == 'rect': I = m * (s['dims'][0] ** 2 + s['dims'][1] ** 2) / 12
    else:
        A, cen, k = poly_props(s['verts']); I = m * k
        need(close(npy(b.pos), np.array(s['pos'][-2:]) + cen, 1e-7, 1 + np.abs(s['verts']).max()), 'position %s is not the centroid %s', npy(b.pos).tolist(), (np.array(s['pos'][-2:]) + cen).tolist())
        need(close(S.world_verts(b), np.array(s['verts']) + np.array(s['pos'][-2:]), 1e-7), 'vertices were displaced at construction')
    need(close(float(b.ang_inertia), I, 1e-7), 'inertia %s, expected %s', float(b.ang_inertia), I)
    need(close(npy(b.M), np.diag([I, m, m]), 1e-7), 'mass matrix %s', npy(b.M).tolist())


def check_reject(s):
    for v in ([], s['verts'][:1], s['verts'][:2]):
        try:
            S.body(dict(s, verts=v))
        except Exception:
            continue
        need(False, 'polygon with %d vertices accepted', len(v))


# ------------------------------------------------------------------ contacts
def contact_world(specs, eps, poses=None, handler='DiffContactHandler', moves=()):
    m = S.mods()
    bs = [S.body(s) for s in specs]
    w = m.world.World(bs, contact_callback=handler, strict_no_penetration=False, eps=eps)
    for i, dp in enumerate(moves):
        if dp is not None:
            bs[i].set_p(bs[i].p + bs[i].p.new_tensor(dp))
    return w, bs


def call(w, a, b, seed=0):
    w.contacts = []
    random.seed(seed)
    w.contact_callback([w], w.bodies[a].geom, w.bodies[b].geom)
    out = []
    for c in w.contacts:
        (n, p1, p2, pen), i1, i2 = c
        out.append((npy(n).reshape(-1), npy(p1).reshape(-1), npy(p2).reshape(-1), float(pen), i1, i2))
    return out


def common(out, bs, a, b):
    for n, p1, p2, pen, i1, i2 in out:
        need((i1, i2) == (a, b), 'contact recorded for bodies %s instead of %s', (i1, i2), (a, b))
        need(np.isfinite(np.concatenate([n, p1, p2, [pen]])).all() and n.shape == p1.shape == p2.shape == (2,), 'contact not finite / wrong shape: %s', (n, p1, p2, pen))
        need(abs(np.linalg.norm(n) - 1) < 1e-9, 'normal %s is not a unit vector', n.tolist())
        w1, w2 = npy(bs[a].pos) + p1, npy(bs[b].pos) + p2
        need(close(w1, w2, 1e-8), 'offsets designate different world points %s %s', w1.tolist(), w2.tolist())


def gen_cc(rng):
    r1, r2 = r(rng, .5, 20), r(rng, .5, 20)
    eps = float(rng.choice([0, .1, .5, 2]))
    d = (r1 + r2) * rng.uniform(.05, 1.2) if rng.random() < .5 else r1 + r2 + eps * rng.uniform(-2, 2)
    th = rng.choice([0, math.pi / 2, math.pi, -math.pi / 2, rng.uniform(0, 7)])
    p = rng.normal(size=2) * 20
    q = p + max(d, .01) * np.array([math.cos(th), math.sin(th)])
    return dict(a=dict(kind='circle', pos=[float(x) for x in p], rad=r1), b=dict(kind='circle', pos=[float(x) for x in q], rad=r2), eps=eps, order=int(rng.integers(2)))


def check_cc(case):
    w, bs = contact_world([case['a'], case['b']], case['eps'])
    a, b = (0, 1) if not case['order'] else (1, 0)
    x, y = npy(bs[a].pos), npy(bs[b].pos); ra, rb = float(bs[a].rad), float(bs[b].rad)
    d = np.linalg.norm(x - y)
    if abs(d - ra - rb - case['eps']) < 1e-9 or d < 1e-9: raise Skip
    out = call(w, a, b)
    if d > ra + rb + case['eps']:
        need(not out, 'contact at boundary distance %s > margin %s', d - ra - rb, case['eps']); return
    need(len(out) == 1, '%d contacts at boundary distance %s, margin %s', len(out), d - ra - rb, case['eps'])
    common(out, bs, a, b)
    n, p1, p2, pen, _, _ = out[0]
    need(close(n, (x - y) / d, 1e-9), 'normal %s, expected %s', n.tolist(), ((x - y) / d).tolist())
    need(close(pen, ra + rb - d, 1e-9), 'penetration %s, expected %s', pen, ra + rb - d)
    mid = ((x - n * ra) + (y + n * rb)) / 2
    need(close(x + p1, mid, 1e-9), 'contact point %s, expected %s', (x + p1).tolist(), mid.tolist())


def gen_ch(rng):
    kind = 'hull' if rng.random() < .6 else 'rect'
    eps = float(rng.choice([.1, .5, 2]))
    if kind == 'hull':
        h = dict(kind='hull', pos=[r(rng, -30, 30), r(rng, -30, 30)], verts=S.convex_poly(rng))
    else:
        h = dict(kind='rect', pos=[r(rng, -4, 4), r(rng, -30, 30), r(rng, -30, 30)], dims=[r(rng, 2, 40), r(rng, 2, 40)])
    rad = r(rng, .5, 15)
    return dict(h=h, rad=rad, eps=eps, mode=float(rng.uniform(-1, 1.3)), ang=r(rng, -4, 4) if rng.random() < .6 else 0., t=r(rng, 0, 1), edge=int(rng.integers(100)),
                off=r(rng, -1, 1) if rng.random() < .5 else 0., last=int(rng.integers(100)), order=int(rng.integers(2)), seed=int(rng.integers(10**6)), hist=[r(rng, -3, 3) for _ in range(int(rng.integers(0, 3)))],
                chord=[int(rng.integers(100)), int(rng.integers(1, 100)), float(rng.choice([.5, .25, r(rng, .05, .95)]))] if rng.random() < .2 else None)


def check_ch(case):
    h = case['h']; m = S.mods()
    hb = S.body(h)
    probe = S.world_verts(hb)
    # place the circle near a boundary point chosen by the case
    V = probe; n = len(V); i = case['edge'] % n; e = V[(i + 1) % n] - V[i]
    sg = 1 if poly_props(V)[0] > 0 else -1
    nrm = sg * np.array([e[1], -e[0]]) / np.linalg.norm(e)
    base = V[i] + case['t'] * e
    tang = e / np.linalg.norm(e)
    if case['mode'] < 0:    # inside
        c = base * (1 + case['mode'] * .9) + poly_props(V)[1] * (-case['mode'] * .9)
    else:
        dist = case['rad'] * min(case['mode'], 1) + (case['eps'] * 2 * (case['mode'] - 1) / .3 if case['mode'] > 1 else 0) + 1e-3
        c = base + nrm * dist + tang * case['off'] * case['rad']
    if case.get('chord'):      # the centre on a chord between two vertices
        i, j, t = case['chord']
        c = V[i % n] * (1 - t) + V[(i + 1 + j % (n - 1)) % n] * t
    circ = dict(kind='circle', pos=[float(x) for x in c], rad=case['rad'])
    order = case['order']
    w, bs = contact_world([h, circ] if not order else [circ, h], case['eps'])
    hi, ci = (0, 1) if not order else (1, 0)
    # warm up the cached search start by earlier calls in other poses
    if case['ang']:
        bs[hi].set_p(bs[hi].p + bs[hi].p.new_tensor([case['ang'], 0., 0.]))
        ctr = npy(bs[hi].pos)
        bs[ci].set_p(torch.cat([bs[ci].p[:1], bs[ci].p.new_tensor(S.rot(case['ang']) @ (c - ctr) + ctr)]))
    if hasattr(bs[hi], 'last_sat_idx'):
        bs[hi].last_sat_idx = case['last'] % n
    c = npy(bs[ci].pos); V = S.world_verts(bs[hi])
    d, q, en, inside = poly_dist(c, V)
    if abs(d - case['rad'] - case['eps']) < 1e-8: raise Skip
    edge = abs(d) < 1e-6      # on the boundary: the direction of the normal is left open
    a, b = (0, 1)
    out = call(w, a, b, case['seed'])
    if d - case['rad'] > case['eps']:
        need(not out, 'contact at distance %s, margin %s', d - case['rad'], case['eps']); return
    need(len(out) == 1, '%d contacts at distance %s, margin %s', len(out), d - case['rad'], case['eps'])
    common(out, bs, a, b)
    nn, p1, p2, pen, _, _ = out[0]
    need(close(pen, case['rad'] - d, 1e-7), 'penetration %s, expected %s (centre %s)', pen, case['rad'] - d, 'inside' if inside else 'outside')
    pt = npy(bs[a].pos) + p1
    sgn = 1 if ci == a else -1      # normal points from body 2 to body 1
    if edge: return
    if not inside:
        need(close(pt, q, 1e-7), 'contact point %s, closest point of the polygon is %s', pt.tolist(), q.tolist())
        need(close(nn, sgn * (c - q) / d, 1e-6), 'normal %s, expected %s', nn.tolist(), (sgn * (c - q) / d).tolist())
    else:
        ok = False
        for i in range(n):
            e = V[(i + 1) % n] - V[i]; sg = 1 if poly_props(V)[0] > 0 else -1
            m_ = sg * np.array([e[1], -e[0]]) / np.linalg.norm(e); s = m_ @ (c - V[i])
            if abs(s - d) < 1e-9 * (1 + abs(d)) and close(nn, sgn * m_, 1e-7) and close(pt, c - m_ * s, 1e-7): ok = True
        need(ok, 'contact (normal %s, point %s) does not belong to the edge of least penetration', nn.tolist(), pt.tolist())


def gen_hh(rng):
    def one():
        if rng.random() < .65:
            return dict(kind='hull', pos=[0., 0.], verts=S.convex_poly(rng, scale=rng.uniform(4, 15)))
        return dict(kind='rect', pos=[r(rng, -4, 4), 0., 0.], dims=[r(rng, 3, 40), r(rng, 3, 40)])
    th = rng.uniform(0, 7)
    if rng.random() < .2:      # boxes with parallel sides, their corners often in line
        d = [[float(rng.integers(3, 30)), float(rng.integers(3, 30))] for _ in range(2)]
        if rng.random() < .5: d[1] = list(d[0])
        q = int(rng.integers(4))
        return dict(a=dict(kind='rect', pos=[0., 0., 0.], dims=d[0]), b=dict(kind='rect', pos=[0., 0., 0.], dims=d[1]), dir=[[1., 0.], [0., 1.], [-1., 0.], [0., -1.]][q], eps=float(rng.choice([.1, .5, 1.])), sep=float(rng.choice([-.5, -1., -.25, .05, 2.])),
                    ra=0., rb=0., la=int(rng.integers(50)), lb=int(rng.integers(50)), order=int(rng.integers(2)), lat=float(rng.choice([0., (d[0][1 - q % 2] - d[1][1 - q % 2]) / 2, (d[0][1 - q % 2] + d[1][1 - q % 2]) / 2, 1.])))
    return dict(a=one(), b=one(), dir=[math.cos(th), math.sin(th)], eps=float(rng.choice([.1, .5, 1.])), sep=float(rng.choice([rng.uniform(-.5, .5), rng.uniform(-3, 0), rng.uniform(-12, 0), 1.5])),
                ra=r(rng, -4, 4) if rng.random() < .5 else 0., rb=r(rng, -4, 4) if rng.random() < .5 else 0., la=int(rng.integers(50)), lb=int(rng.integers(50)), order=int(rng.integers(2)), lat=r(rng, -8, 8))


def check_hh(case):
    w, bs = contact_world([case['a'], case['b']], case['eps'])
    for b, ang in ((bs[0], case['ra']), (bs[1], case['rb'])):
        if ang: b.set_p(b.p + b.p.new_tensor([ang, 0., 0.]))
    # slide b along dir until the separation is the wanted one
    u = np.array(case['dir']); base = npy(bs[0].pos) + case['lat'] * np.array([-u[1], u[0]])
    off = np.array([npy(x) for x in bs[1].verts]); A = S.world_verts(bs[0])
    lo, hi = 0., 400.
    f = lambda t: sat(A, off + base + t * u)[0]
    if f(lo) > case['sep']: raise Skip
    for _ in range(60):
        mid = (lo + hi) / 2
        if f(mid) < case['sep']: lo = mid
        else: hi = mid
    bs[1].set_p(torch.cat([bs[1].p[:1], bs[1].p.new_tensor(base + hi * u)]))
    for b, l in ((bs[0], case['la']), (bs[1], case['lb'])):
        if hasattr(b, 'last_sat_idx'): b.last_sat_idx = l % len(b.verts)
    a, b = (0, 1) if not case['order'] else (1, 0)
    A, Bv = S.world_verts(bs[a]), S.world_verts(bs[b])
    sep, al = sat(A, Bv); eps = case['eps']
    if abs(sep - eps) < 1e-8 or abs(sep) < 1e-8: raise Skip
    out = call(w, a, b)
    if sep > eps:
        need(not out, 'contact although an edge normal separates by %s > margin %s', sep, eps); return
    if sep <= 0:
        need(1 <= len(out) <= 2, '%d contacts for hulls overlapping by %s', len(out), -sep)
        need(close(max(o[3] for o in out), -sep, 1e-7), 'deepest penetration %s, least overlap %s', max(o[3] for o in out), -sep)
    common(out, bs, a, b)
    need(len(out) <= 2, '%d contacts', len(out))
    cand = [o for o in al if o[0] > sep - 1e-7]
    for n, p1, p2, pen, _, _ in out:
        pt = npy(bs[a].pos) + p1; ok = []
        for s, own, i, m_ in cand:
            P, Q = (A, Bv) if own == 0 else (Bv, A)
            if not close(n, -m_ if own == 0 else m_, 1e-6): continue
            if abs(m_ @ (pt - P[i])) > 1e-6 * (1 + np.abs(P).max()): ok.append('point not on the line of the reference edge'); continue
            v = pt - m_ * pen
            t = (v - P[i]) @ (P[(i + 1) % len(P)] - P[i]) / np.dot(P[(i + 1) % len(P)] - P[i], P[(i + 1) % len(P)] - P[i])
            if pen < -eps - 1e-9: ok.append('penetration %s beyond the margin' % pen); continue
            if sep <= 0:
                if not -1e-6 <= t <= 1 + 1e-6: ok.append('contact outside the sides of the reference edge (t=%s)' % t); continue
                dq = min(np.linalg.norm(v - (Q[j] + np.clip((v - Q[j]) @ (Q[(j + 1) % len(Q)] - Q[j]) / np.sum((Q[(j + 1) % len(Q)] - Q[j]) ** 2), 0, 1) * (Q[(j + 1) % len(Q)] - Q[j]))) for j in range(len(Q)))
                if dq > 1e-6 * (1 + np.abs(Q).max()): ok.append('not a point of the other polygon (distance %s)' % dq); continue
            ok = None; break
        need(ok is None, 'contact normal %s point %s penetration %s: %s', n.tolist(), pt.tolist(), pen, ok or 'normal is not the least-overlap edge normal from body 2 to body 1')
    if sep <= 0 and len(out) == 2:
        need(not close(out[0][1], out[1][1], 1e-9) or True, '')


# ------------------------------------------------------------------ C16
def gen_excl(rng):
    n = int(rng.integers(2, 5))
    bs = [S.rand_body(rng, pos=rng.normal(size=2) * 2, vel=0) for _ in range(n)]
    decl = [[int(a), int(b)] for a in range(n) for b in range(n) if a != b and rng.random() < .35]
    rng.shuffle(decl)
    return dict(bodies=bs, decl=[list(map(int, d)) for d in decl], late=int(rng.integers(0, 3)), seed=int(rng.integers(10**6)))


def check_excl(case):
    m = S.mods(); n = len(case['bodies'])
    for handler in ('DiffContactHandler', 'OdeContactHandler'):
        bs = [S.body(s) for s in case['bodies']]
        early, late = case['decl'][case['late']:], case['decl'][:case['late']]
        for a, b in early: bs[a].add_no_contact(bs[b])
        w = m.world.World(bs, contact_callback=handler, strict_no_penetration=False)
        for a, b in late: bs[a].add_no_contact(bs[b])
        ex = {frozenset(d) for d in case['decl']}
        base = None
        for a in range(n):
            for b in range(n):
                if a == b: continue
                try:
                    out = call(w, a, b, case['seed'])
                except (ValueError, torch.linalg.LinAlgError):
                    continue
                if frozenset((a, b)) in ex:
                    need(not out, '%s recorded a contact for the excluded pair %s', handler, (a, b))
                else:
                    bs2 = [S.body(s) for s in case['bodies']]
                    w2 = m.world.World(bs2, contact_callback=handler, strict_no_penetration=False)
                    try:
                        ref = call(w2, a, b, case['seed'])
                    except (ValueError, torch.linalg.LinAlgError):
                        continue
                    need(len(ref) == len(out), '%s: pair %s is not excluded but gives %d contacts instead of %d', handler, (a, b), len(out), len(ref))
        w.find_contacts()
        for c in w.contacts:
            need(frozenset((c[1], c[2])) not in ex, '%s: detection recorded the excluded pair %s', handler, (c[1], c[2]))


# ------------------------------------------------------------------ C19
def gen_joint_hist(rng):
    c = gen_hist(rng, nb=2)
    k = str(rng.choice(['joint', 'joint1', 'fixed', 'x', 'y', 'rot', 'total']))
    p = [float(x) for x in np.array(c['bodies'][0]['pos'][-2:]) + np.round(rng.normal(size=2) * 15, 3)]
    if rng.random() < .1: p = list(c['bodies'][0]['pos'][-2:])
    vs = [[[r(rng, -3, 3), r(rng, -30, 30), r(rng, -30, 30)] for _ in range(2)] for _ in range(6)]
    dts = [r(rng, .01, 1) for _ in range(6)]
    return dict(bodies=c['bodies'], kind=k, pos=p, vs=vs, dts=dts[:int(rng.integers(1, 6))], via=str(rng.choice(['direct', 'world'])))


class ScriptEngine:
    """Engine whose new velocities come from a script."""
    script = None

    def solve_dynamics(self, world, dt):
        v = ScriptEngine.script.pop(0) if len(ScriptEngine.script) > 1 else ScriptEngine.script[0]
        return world.v.new_tensor(v)

    def post_stabilization(self, world):
        return world.v.new_zeros(1, len(world.v))


class NoContacts:
    def __call__(self, args, g1, g2):
        return


def check_anchor(case):
    m = S.mods()
    bs = [S.body(s) for s in case['bodies']]
    k = case['kind']
    j = S.joint(dict(kind='joint' if k == 'joint1' else k, b1=0, b2=1 if k in ('joint', 'fixed') else None, pos=case['pos']), bs, m)
    c1 = npy(bs[0].pos); th1 = float(bs[0].p[0])
    off = (np.array(case['pos']) if k in ('joint', 'joint1') else c1) - c1
    def verify(when):
        a = npy(bs[0].pos); th = float(bs[0].p[0])
        exp = a + S.rot(th - th1) @ off
        need(close(npy(j.pos).reshape(-1), exp, 1e-7), '%s anchor %s, expected %s (%s)', k, npy(j.pos).tolist(), exp.tolist(), when)
        if k in ('joint', 'joint1', 'fixed', 'total'):
            need(close(npy(j.pos1), exp - a, 1e-7), '%s first offset %s, expected %s (%s)', k, npy(j.pos1).tolist(), (exp - a).tolist(), when)
        if k in ('joint', 'fixed'):
            need(close(npy(j.pos2), exp - npy(bs[1].pos), 1e-7), '%s second offset %s, expected %s (%s)', k, npy(j.pos2).tolist(), (exp - npy(bs[1].pos)).tolist(), when)
    verify('construction')
    w = None
    if case['via'] == 'world':
        ScriptEngine.script = [[x for v in vs for x in v] for vs in case['vs']]
        w = m.world.World(bs, [j], engine=ScriptEngine, contact_callback=NoContacts)
    for vs, dt in zip(case['vs'], case['dts']):
        if w is not None:
            w.dt = dt; w.step()
        else:
            for b, v in zip(bs, vs):
                b.v = b.p.new_tensor(v)
            for b in bs: b.move(dt)
            j.move(dt)
        verify('after moving by %s' % dt)


def gen_polar(rng):
    k = rng.random()
    if k < .4: v = [r(rng, -50, 50), r(rng, -50, 50)]
    elif k < .8: v = [float(rng.choice([0., -3., 5., 1e-6, -1e-6])), float(rng.choice([0., -3., 5., -1e-6]))]
    else: v = [r(rng, -1e-3, 1e-3, 6), r(rng, -1e3, 1e3)]
    return dict(v=v, positive=bool(rng.random() < .7))


def check_polar(case):
    u = S.mods().utils
    v = torch.tensor(case['v'], dtype=torch.double)
    rr, th = u.cart_to_polar(v) if case['positive'] else u.cart_to_polar(v, False)
    need(close(float(rr), np.hypot(*case['v'])), 'radius %s', float(rr))
    t = float(th)
    if case['positive']: need(0 <= t < 2 * math.pi + 1e-12, 'angle %s outside [0, 2pi)', t)
    else: need(-math.pi - 1e-12 <= t <= math.pi + 1e-12, 'angle %s', t)
    back = u.polar_to_cart(rr, th)
    need(close(npy(back), case['v'], 1e-9), 'round trip %s -> %s', case['v'], npy(back).tolist())


RUNTIME = {
    'C05': [RT('rigid-history', gen_hist, check_rigid)],
    'C06': [RT('mass-properties', gen_mass, check_mass, 3), RT('reject-short', lambda g: dict(kind='hull', pos=[0., 0.], mass=1., verts=S.convex_poly(g)), check_reject, .2)],
    'C07': [RT('circle-circle', gen_cc, check_cc)],
    'C08': [RT('circle-polygon', gen_ch, check_ch)],
    'C09': [RT('polygon-polygon', gen_hh, check_hh)],
    'C16': [RT('exclusion', gen_excl, check_excl)],
    'C17': [RT('broadphase-volume', lambda g: gen_hist(g, nb=2), check_broad), RT('pair-detection', gen_pairs, check_detect)],
    'C19': [RT('anchors', gen_joint_hist, check_anchor, 3), RT('polar', gen_polar, check_polar)],
}
