"""Run-time contracts: dynamics, Jacobians, assembly, forces, state layout, stabilisation."""
import math, random
import numpy as np
import torch
from . import scenes as S
from .base import RT, Skip, Fail, need
from .scenes import close, npy, r
from .geo import ScriptEngine, NoContacts


# ---------------------------------------------------------------- scenes
def gen_scene(rng, contacts=False, joints=True, nmax=4, static=None):
    n = int(rng.integers(1, nmax + 1))
    bs = [S.rand_body(rng, pos=np.array([i * 120., 0]) + rng.normal(size=2) * 20) for i in range(n)]
    js = []
    if joints and rng.random() < .8:
        used = {}
        for _ in range(int(rng.integers(1, n + 2))):
            a = int(rng.integers(n)); ks = ['joint1', 'x', 'y', 'rot', 'total'] + (['joint', 'fixed'] if n > 1 else [])
            if static: ks = ['x', 'y', 'rot', 'total']
            k = str(rng.choice(ks))
            b = int(rng.choice([x for x in range(n) if x != a])) if k in ('joint', 'fixed') else None
            pa = np.array(bs[a]['pos'][-2:]) + rng.normal(size=2) * 10
            js.append(dict(kind='joint' if k == 'joint1' else k, b1=a, b2=b, pos=[round(float(x), 3) for x in pa]))
    fs = [[S.rand_force(rng) for _ in range(int(rng.integers(0, 4)))] for _ in range(n)]
    return dict(bodies=bs, joints=js, forces=fs, world=dict(dt=r(rng, .01, .1)))


def mass_of(b, s):
    """Mass matrix from the shape (the oracle of C06)."""
    m = s['mass']
    if s['kind'] == 'circle': I = m * s['rad'] ** 2 / 2
    elif s['kind'] == 'rect': I = m * (s['dims'][0] ** 2 + s['dims'][1] ** 2) / 12
    else:
        from .geo import poly_props
        I = m * poly_props(s['verts'])[2]
    return np.diag([I, m, m])


def blockdiag(ms):
    n = sum(len(m) for m in ms); M = np.zeros((n, n)); k = 0
    for m in ms:
        M[k:k + len(m), k:k + len(m)] = m; k += len(m)
    return M


def joint_rows(sc, bs, anchors):
    """Independent joint Jacobian: anchors[k] = current world anchor of joint k."""
    n = len(bs); rows = []
    for js, an in zip(sc.get('joints', []), anchors):
        k = js['kind']; a = js['b1']
        def pt(i, w, sign, extra=0):
            R = np.zeros((2, 3 * n)); d = w - npy(bs[i].pos)
            R[:, 3 * i] = sign * np.array([-d[1], d[0]]); R[0, 3 * i + 1] = R[1, 3 * i + 2] = sign
            return R
        if k == 'joint':
            R = pt(a, an, 1)
            if js.get('b2') is not None: R = R + pt(js['b2'], an, -1)
            rows.append(R)
        elif k == 'fixed':
            R = pt(a, an, 1) + pt(js['b2'], an, -1)
            z = np.zeros((1, 3 * n)); z[0, 3 * a] = 1; z[0, 3 * js['b2']] = -1
            rows.append(np.r_[R, z])
        else:
            idx = {'x': [1], 'y': [2], 'rot': [0], 'total': [0, 1, 2]}[k]
            z = np.zeros((len(idx), 3 * n))
            for q, c in enumerate(idx): z[q, 3 * a + c] = 1
            rows.append(z)
    return np.concatenate(rows) if rows else np.zeros((0, 3 * n))


class Anchors:
    """Independent bookkeeping of revolute anchors."""
    def __init__(self, sc, bs):
        self.sc, self.bs = sc, bs; self.ref = []
        for j in sc.get('joints', []):
            c = npy(bs[j['b1']].pos)
            off = np.array(j['pos']) - c if j['kind'] == 'joint' else np.zeros(2)
            self.ref.append((off, float(bs[j['b1']].p[0])))

    def now(self):
        return [npy(self.bs[j['b1']].pos) + S.rot(float(self.bs[j['b1']].p[0]) - th) @ off for j, (off, th) in zip(self.sc.get('joints', []), self.ref)]


def forces_at(sc, t):
    out = []
    for s, fs in zip(sc['bodies'], sc['forces']):
        f = np.zeros(3)
        for q in fs: f = f + S.force_value(q, t, s['mass'])
        out.append(f)
    return np.concatenate(out)


def indep(J):
    """The joint rows are independent (well enough conditioned)."""
    if not len(J): return True
    if len(J) > J.shape[1]: return False
    return np.linalg.svd(J / np.maximum(1, np.linalg.norm(J, axis=1, keepdims=True)), compute_uv=False).min() > 1e-2


# ---------------------------------------------------------------- C01
def gen_c01(rng):
    sc = gen_scene(rng, static=rng.random() < .3)
    sc['steps'] = int(rng.integers(1, 6))
    sc['dts'] = [r(rng, .005, .1) for _ in range(6)] if rng.random() < .4 else None
    sc['contacts'] = [int(rng.random() < .25) for _ in range(6)]
    sc['post'] = bool(rng.random() < .2)
    sc['late'] = int(rng.integers(0, 4))
    return sc


class FakeContacts:
    """Handler that reports a shallow contact in the steps the script says."""
    on = False

    def __call__(self, args, g1, g2):
        return


def check_c01(sc):
    w, bs, js = S.build(sc, contact_callback=NoContacts, post_stab=sc['post'])
    M = blockdiag([mass_of(b, s) for b, s in zip(bs, sc['bodies'])])
    an = Anchors(sc, bs)
    J = joint_rows(sc, bs, an.now())
    if not indep(J): raise Skip
    for st in range(sc['steps']):
        if sc['dts']: w.dt = sc['dts'][st]
        v = npy(w.v).copy(); t = w.t; dt = w.dt
        if st == sc['late']:
            for i, b in enumerate(bs):    # a force attached while running
                f = dict(kind='lin', vec=[.1, 1., -1.], w=0., until=0, mult=7. * (i + 1))
                S.add_force(f, b); sc['forces'][i] = sc['forces'][i] + [f]
        f = forces_at(sc, t)
        J = joint_rows(sc, bs, an.now())
        if not indep(J): raise Skip
        if sc['contacts'][st] and len(bs) > 1:
            # solve once with an active contact in between: a history the cached data must survive
            n = bs[0].p.new_tensor([1., 0.]); z = bs[0].p.new_tensor([0., 0.])
            w.contacts = [((n, z, z, bs[0].p.new_tensor(0.)), 0, 1)]
            try: w.engine.solve_dynamics(w, dt)
            except Exception: pass
            w.contacts = []
        if sc['post']:
            nv = npy(w.engine.solve_dynamics(w, dt)).reshape(-1)
        w.step()
        v2 = npy(w.v)
        if sc['post']: need(close(v2, nv, 1e-6), 'velocities after the step are not the computed ones')
        res = M @ (v2 - v) - dt * f
        scale = np.abs(M).max() * (np.abs(v2).max() + np.abs(v).max()) + np.abs(dt * f).max() + 1
        if len(J):
            need(np.abs(J @ v2).max() <= 1e-7 * (1 + np.abs(J).max() * np.abs(v2).max()), 'step %d: joint velocity J v\' = %s', st, (J @ v2).tolist())
            l = np.linalg.lstsq(J.T, res, rcond=None)[0]
            res = res - J.T @ l
        need(np.abs(res).max() <= 1e-7 * scale, 'step %d: M v\' - M v - dt f is not a joint impulse, remainder %s', st, res.tolist())


# ---------------------------------------------------------------- C02
def gen_c02(rng):
    """Bodies resting on / hitting others, few contacts so that impulses are unique."""
    k = str(rng.choice(['floor', 'pair', 'pile', 'free', 'jointed']))
    bs = []; js = []; fs = []
    def dyn(pos, kinds=('circle', 'rect')):
        s = S.rand_body(rng, pos=pos, kinds=('circle',), vel=0)
        s['pos'] = [float(x) for x in pos]; s['rad'] = 10.
        s['vel'] = [r(rng, -2, 2), r(rng, -30, 30), r(rng, -5, 30)]
        return s
    if k in ('floor', 'jointed', 'pile'):
        fl = S.rand_body(rng, pos=[0, 30], kinds=('rect',), vel=0); fl['pos'] = [0., 30.]; fl['dims'] = [400., 40.]
        bs.append(fl); fs.append([]); js.append(dict(kind='total', b1=0, b2=None, pos=[0., 0.]))
        n = 1 if k == 'jointed' else int(rng.integers(1, 4))
        for i in range(n):
            bs.append(dyn([-60. + 45 * i, 0. - (r(rng, 0, .05) if rng.random() < .5 else 0)]))
            fs.append([S.rand_force(rng) for _ in range(int(rng.integers(0, 3)))])
        if k == 'jointed':
            bs.append(dyn([bs[-1]['pos'][0] + 40, -15.])); fs.append([dict(kind='gravity')])
            js.append(dict(kind='joint', b1=1, b2=2, pos=[bs[1]['pos'][0] + 20., -8.]))
        if k == 'pile':
            q = dyn([bs[1]['pos'][0], bs[1]['pos'][1] - 20.]); q['vel'][2] = r(rng, -5, 40)
            bs.append(q); fs.append([dict(kind='gravity', g=50.)])
    else:
        th = rng.uniform(0, 7)
        a = dyn([0., 0.]); b = dyn([20 * math.cos(th), 20 * math.sin(th)])
        b['vel'] = [r(rng, -2, 2), r(rng, -30, 30), r(rng, -30, 30)]
        bs = [a, b]; fs = [[S.rand_force(rng)], []]
        if k == 'pair': js.append(dict(kind=str(rng.choice(['rot', 'x', 'y'])), b1=0, b2=None, pos=[0., 0.]))
        if rng.random() < .5:
            bs.append(dyn([-20 * math.cos(th + .7), -20 * math.sin(th + .7)])); fs.append([])
    for b in bs:
        if rng.random() < .2: b['fric_coeff'] = 0.
    if k != 'free' and rng.random() < .3:
        perm = list(rng.permutation(len(bs)))
        inv = {int(o): i for i, o in enumerate(perm)}
        bs = [bs[i] for i in perm]; fs = [fs[i] for i in perm]
        for j in js:
            j['b1'] = inv[j['b1']]
            if j.get('b2') is not None: j['b2'] = inv[j['b2']]
    return dict(bodies=bs, joints=js, forces=fs, world=dict(dt=r(rng, .01, .05)), steps=int(rng.integers(1, 3)))


def contact_rows(w, bs):
    n = len(bs); Jn = []; Jt = []; mu = []; e = []
    for (nr, p1, p2, pen), a, b in w.contacts:
        nr, p1, p2 = npy(nr), npy(p1), npy(p2)
        def row(d):
            z = np.zeros(3 * n)
            z[3 * a] += p1[0] * d[1] - p1[1] * d[0]; z[3 * a + 1:3 * a + 3] += d
            z[3 * b] -= p2[0] * d[1] - p2[1] * d[0]; z[3 * b + 1:3 * b + 3] -= d
            return z
        Jn.append(row(nr)); Jt.append(row(np.array([nr[1], -nr[0]])))
        mu.append((a, b)); e.append((a, b))
    return np.array(Jn), np.array(Jt), mu


class Acc:
    """The engine's solver run to convergence; knows whether the last posed problem was solved
    (the contract of the solver itself is C10-C12; here it is assumed)."""
    def __init__(self, w):
        import lcp_physics.lcp.lcp as L
        self.ok = True
        self.installed = hasattr(w.engine, 'lcp_solver')
        outer = self
        def make(*a, **k):
            s = L.LCPFunction(max_iter=60, not_improved_lim=20, eps=1e-9)
            def run(Q, p, G, h, A, b, F):
                z = s(Q, p, G, h, A, b, F)
                if z is None: raise Skip
                x, lam, sl = z[0], s.lams[0], s.slacks[0]
                neq = A.dim() == 3 and A.size(1) > 0
                rx = Q[0] @ x + p[0] + G[0].t() @ lam + (A[0].t() @ s.nus[0] if neq else 0)
                rz = G[0] @ x + sl - h[0] - F[0] @ lam
                sc = 1 + float(p.abs().max()) + float(lam.abs().max())
                res = float(rx.norm()) / sc + float(rz.norm()) / (1 + float(G.abs().max()) * float(x.abs().max())) + float((sl * lam).sum()) / sc
                outer.ok = res < 1e-7 and all(float(t.min()) > 0 for t in (lam, sl))
                return z
            return run
        if self.installed: w.engine.lcp_solver = make

    def judge(self, f, *a):
        try:
            f(*a)
        except Fail:
            if self.installed and self.ok: raise
            raise Skip


def check_c02(sc):
    w, bs, js = S.build(sc, strict_no_penetration=False)
    acc = Acc(w)
    M = blockdiag([mass_of(b, s) for b, s in zip(bs, sc['bodies'])])
    an = Anchors(sc, bs)
    for st in range(sc['steps']):
        if not w.contacts: raise Skip
        v = npy(w.v).copy(); dt = w.dt; f = forces_at(sc, w.t)
        J = joint_rows(sc, bs, an.now()); Jn, Jt, pairs = contact_rows(w, bs)
        mu = np.array([(sc['bodies'][a]['fric_coeff'] + sc['bodies'][b]['fric_coeff']) / 2 for a, b in pairs])
        e = np.array([(sc['bodies'][a]['restitution'] + sc['bodies'][b]['restitution']) / 2 for a, b in pairs])
        v2 = npy(w.engine.solve_dynamics(w, dt)).reshape(-1)
        need(v2.shape == v.shape, 'velocity vector of shape %s', v2.shape)
        acc.judge(check_coulomb, M, v, v2, dt * f, J, Jn, Jt, mu, e)
        w.step()
        need(close(npy(w.v), v2, 1e-9), 'the step does not use the computed velocities')


def check_coulomb(M, v, v2, imp, J, Jn, Jt, mu, e):
    nc = len(Jn)
    A = np.concatenate([Jn, Jt, J]) if len(J) else np.concatenate([Jn, Jt])
    Mi = np.diag(1 / np.sqrt(np.diag(M)))
    sv = np.linalg.svd(A @ Mi, compute_uv=False)
    if len(A) > A.shape[1] or sv.min() < 1e-3 * sv.max(): raise Skip
    res = M @ (v2 - v) - imp
    l = np.linalg.lstsq((A @ Mi).T, Mi @ res, rcond=None)[0]
    rem = res - A.T @ l
    ps = np.abs(M).max() * (np.abs(v2).max() + np.abs(v).max()) + np.abs(imp).max() + 1e-3
    vs = np.abs(A).max() * (np.abs(v2).max() + np.abs(v).max()) + 1e-3
    tol = 2e-5
    need(np.isfinite(v2).all(), 'velocities not finite')
    need(np.abs(rem).max() <= tol * ps, 'momentum balance violated, remainder %s', rem.tolist())
    if len(J): need(np.abs(J @ v2).max() <= tol * vs, 'joint velocity %s', (J @ v2).tolist())
    ln, lt = l[:nc], l[nc:2 * nc]
    ls = np.abs(np.diag(M)[np.diag(M) < np.inf]).min() * 0 + np.abs(l).max() + 1e-3
    gn = Jn @ v2 + e * (Jn @ v); vt = Jt @ v2
    need((gn >= -tol * vs).all(), 'normal velocity after the step %s below -e times the one before %s', (Jn @ v2).tolist(), (Jn @ v).tolist())
    need((ln >= -tol * ls).all(), 'negative normal impulse %s', ln.tolist())
    need((ln * gn <= 1e-4 * ls * vs).all(), 'normal impulse %s without bounce %s (complementarity)', ln.tolist(), gn.tolist())
    need((np.abs(lt) <= mu * ln + tol * ls * 10).all(), 'friction impulse %s exceeds mu times normal %s', lt.tolist(), (mu * ln).tolist())
    need((lt * vt <= 1e-4 * ls * vs).all(), 'friction impulse %s along the sliding velocity %s', lt.tolist(), vt.tolist())
    slack = mu * ln - np.abs(lt)
    need((slack * np.abs(vt) <= 1e-4 * ls * vs).all(), 'sliding velocity %s although friction %s is below its bound %s', vt.tolist(), lt.tolist(), (mu * ln).tolist())


# ---------------------------------------------------------------- C03
def gen_c03(rng):
    n = int(rng.integers(2, 6)); nc = int(rng.integers(0, 7))
    bs = [S.rand_body(rng) for _ in range(n)]
    cs = []
    for _ in range(nc):
        a, b = rng.choice(n, 2, replace=False); th = rng.uniform(0, 7)
        cs.append(dict(a=int(a), b=int(b), n=[math.cos(th), math.sin(th)], pt=[r(rng, -50, 50), r(rng, -50, 50)], pen=r(rng, -.1, .1)))
    return dict(bodies=bs, contacts=cs, v=[r(rng, -5, 5) for _ in range(3 * n)], coeffs=[[r(rng, 0, 1.2), r(rng, 0, 1)] for _ in range(n)], swap=bool(rng.random() < .5), imp=[r(rng, -5, 5) for _ in range(nc)], impf=[r(rng, 0, 5) for _ in range(2 * nc)])


def check_c03(case):
    m = S.mods(); nc = len(case['contacts']); bs = [S.body(s) for s in case['bodies']]
    w = m.world.World(bs, contact_callback=NoContacts)
    D = lambda x: torch.tensor(x, dtype=torch.double)
    for again in (False, True):
        if again:       # other coefficients and other contacts, in the same world
            case = dict(case, contacts=[dict(c) for c in case['contacts'][::-1]][int(nc > 2 and case['swap']):], bodies=[dict(s, fric_coeff=x, restitution=y) for s, (x, y) in zip(case['bodies'], case['coeffs'])])
            for b_, (x, y) in zip(bs, case['coeffs']): b_.fric_coeff = D(x); b_.restitution = D(y)
            for c in case['contacts']:
                if case['swap']: c['a'], c['b'] = c['b'], c['a']
        nc = len(case['contacts'])
        rows_c03(case, w, bs, D)


def rows_c03(case, w, bs, D):
    w.contacts = [((D(c['n']), D(c['pt']) - bs[c['a']].pos, D(c['pt']) - bs[c['b']].pos, D(c['pen'])), c['a'], c['b']) for c in case['contacts']]
    v = np.array(case['v']); n = len(bs); nc = len(case['contacts'])
    Jc, Jf = npy(w.Jc()), npy(w.Jf()); e = npy(w.restitutions()); mu = npy(w.mu()); E = npy(w.E())
    need(Jc.shape == (nc, 3 * n) and Jf.shape == (2 * nc, 3 * n) and e.shape == (nc,) and mu.shape == (nc, nc) and E.shape == (2 * nc, nc), 'shapes %s', (Jc.shape, Jf.shape, e.shape, mu.shape, E.shape))
    for i, c in enumerate(case['contacts']):
        a, b = c['a'], c['b']; nn = np.array(c['n']); tt = np.array([nn[1], -nn[0]]); pt = np.array(c['pt'])
        vel = lambda k: v[3 * k + 1:3 * k + 3] + v[3 * k] * np.array([-(pt - npy(bs[k].pos))[1], (pt - npy(bs[k].pos))[0]])
        rel = vel(a) - vel(b)
        need(close(Jc[i] @ v, nn @ rel, 1e-9, 1e3), 'contact row %d gives %s, approach velocity is %s', i, Jc[i] @ v, nn @ rel)
        fr = sorted([Jf[2 * i] @ v, Jf[2 * i + 1] @ v]); need(close(fr, sorted([tt @ rel, -tt @ rel]), 1e-9, 1e3), 'friction rows of contact %d give %s, tangential velocity is %s', i, fr, tt @ rel)
        for k in range(n):
            if k not in (a, b): need(not Jc[i, 3 * k:3 * k + 3].any() and not Jf[2 * i:2 * i + 2, 3 * k:3 * k + 3].any(), 'contact %d touches uninvolved body %d', i, k)
        need(close(e[i], (case['bodies'][a]['restitution'] + case['bodies'][b]['restitution']) / 2), 'restitution of contact %d is %s', i, e[i])
        exp = np.zeros(nc); exp[i] = (case['bodies'][a]['fric_coeff'] + case['bodies'][b]['fric_coeff']) / 2
        need(close(mu[i], exp), 'friction coefficients of contact %d are %s, expected %s', i, mu[i].tolist(), exp.tolist())
        col = np.zeros(2 * nc); col[2 * i:2 * i + 2] = 1
        need(close(E[:, i], col), 'contact %d bounds friction directions %s', i, E[:, i].tolist())
    if nc:
        q = Jc.T @ np.array(case['imp'][:nc]) + Jf.T @ np.array(case['impf'][:2 * nc])
        q = q.reshape(n, 3)
        need(close(q[:, 1:].sum(0), [0, 0], 1e-9, 100), 'contact impulses change total linear momentum by %s', q[:, 1:].sum(0).tolist())
        L = sum(q[k, 0] + npy(bs[k].pos)[0] * q[k, 2] - npy(bs[k].pos)[1] * q[k, 1] for k in range(n))
        need(abs(L) < 1e-6 * (1 + np.abs(q).max() * 100), 'contact impulses change total angular momentum by %s', L)


# ---------------------------------------------------------------- C04
def gen_c04(rng):
    sc = gen_scene(rng, nmax=5)
    while not sc['joints']: sc = gen_scene(rng, nmax=5)
    sc['ops'] = [[r(rng, -2, 2), r(rng, -30, 30), r(rng, -30, 30)] for _ in sc['bodies']]
    sc['dts'] = [r(rng, 0, .5) for _ in range(int(rng.integers(0, 3)))]
    sc['v'] = [r(rng, -5, 5) for _ in range(3 * len(sc['bodies']))]
    return sc


def check_c04(sc):
    w, bs, js = S.build(sc, contact_callback=NoContacts)
    an = Anchors(sc, bs)
    for dt in sc['dts']:
        for b, v in zip(bs, sc['ops']): b.v = b.p.new_tensor(v)
        for b in bs: b.move(dt)
        for j in js: j.move(dt)
    exp = joint_rows(sc, bs, an.now())
    Je = npy(w.Je())
    need(Je.shape == exp.shape, 'joint Jacobian of shape %s, expected %s', Je.shape, exp.shape)
    row = 0
    for j, s in zip(js, sc['joints']):
        J1, J2 = j.J()
        k = {'joint': 2, 'fixed': 3, 'total': 3}.get(s['kind'], 1)
        need(j.num_constraints == k and tuple(J1.shape) == (k, 3) and (J2 is None) == (s.get('b2') is None), '%s declares %s rows, J has %s', s['kind'], j.num_constraints, tuple(J1.shape))
        need(close(npy(J1), exp[row:row + k, 3 * s['b1']:3 * s['b1'] + 3], 1e-8), '%s first block %s, expected %s', s['kind'], npy(J1).tolist(), exp[row:row + k, 3 * s['b1']:3 * s['b1'] + 3].tolist())
        if J2 is not None: need(close(npy(J2), exp[row:row + k, 3 * s['b2']:3 * s['b2'] + 3], 1e-8), '%s second block %s', s['kind'], npy(J2).tolist())
        row += k
    # rows are a constraint: sign of a row is free, its kernel is not
    need(close(np.abs(Je @ np.array(sc['v'])), np.abs(exp @ np.array(sc['v'])), 1e-8, 1e3) and close(Je, exp, 1e-8), 'joint Jacobian %s, expected %s', Je.tolist(), exp.tolist())


# ---------------------------------------------------------------- C14
def gen_c14(rng):
    if rng.random() < .5:
        sc = gen_scene(rng); sc['kind'] = 'free'
    else:
        sc = gen_c02(rng); sc['kind'] = 'contact'
    sc['steps'] = int(rng.integers(1, 4))
    sc['kick'] = [[r(rng, -.5, .5), r(rng, -4, 4), r(rng, -4, 4)] for _ in sc['bodies']]
    return sc


def check_corr(sc, w, bs, M, J, nj, v, d):
    tol = 1e-7 if not w.contacts else 1e-4
    if nj: need(np.abs(J @ d + J @ v).max() <= tol * (1 + np.abs(J).max() * np.abs(v).max()), 'J d = %s, expected %s', (J @ d).tolist(), (-J @ v).tolist())
    if w.contacts:
        Jn, Jt, pairs = contact_rows(w, bs)
        e = np.array([(sc['bodies'][a]['restitution'] + sc['bodies'][b]['restitution']) / 2 for a, b in pairs])
        A = np.concatenate([Jn, J]); nc = len(Jn)
        if len(A) > A.shape[1] or np.linalg.svd(A @ np.diag(np.diag(M) ** -.5), compute_uv=False).min() < 1e-3: raise Skip
        g = Jn @ d + (1 - e) * (Jn @ v)
        l = np.linalg.lstsq(A.T, M @ d, rcond=None)[0]; rem = M @ d - A.T @ l
        ms = np.abs(M).max() * np.abs(d).max() + 1
        need(np.abs(rem).max() <= 1e-4 * ms, 'M d is not J^T l + Jc^T ln, remainder %s', rem.tolist())
        need((g >= -1e-4 * (1 + np.abs(Jn).max() * np.abs(v).max())).all(), 'Jc d = %s below -(1-e) Jc v = %s', (Jn @ d).tolist(), (-(1 - e) * (Jn @ v)).tolist())
        ls = np.abs(l).max() + 1e-3
        need((l[:nc] >= -1e-4 * ls).all() and (l[:nc] * g <= 1e-3 * ls * (1 + np.abs(g).max())).all(), 'correction impulses %s not complementary to %s', l[:nc].tolist(), g.tolist())
    elif nj:
        l = np.linalg.lstsq(J.T, M @ d, rcond=None)[0]
        need(np.abs(M @ d - J.T @ l).max() <= 1e-6 * (np.abs(M).max() * np.abs(d).max() + 1), 'M d is not a joint impulse')
    else:
        need(not d.any(), 'correction %s without contacts and joints', d.tolist())


def check_c14(sc):
    kw = dict(strict_no_penetration=False)
    if sc['kind'] == 'free': kw['contact_callback'] = NoContacts
    # (1) the correction of the engine, at an arbitrary velocity
    w, bs, js = S.build(sc, **kw)
    acc = Acc(w)
    M = blockdiag([mass_of(b, s) for b, s in zip(bs, sc['bodies'])])
    an = Anchors(sc, bs)
    for st in range(sc['steps']):
        w.set_v(w.v.new_tensor([x for k in sc['kick'] for x in k]))
        v = npy(w.v).copy(); J = joint_rows(sc, bs, an.now())
        nj = len(J)
        if not indep(J): raise Skip
        if w.contacts and not nj: raise Skip
        d = npy(w.engine.post_stabilization(w)).reshape(-1)
        need(d.shape == v.shape, 'correction of shape %s', d.shape)
        acc.judge(check_corr, sc, w, bs, M, J, nj, v, d) if w.contacts else check_corr(sc, w, bs, M, J, nj, v, d)
        need(close(npy(w.v), v, 1e-12), 'computing the correction changed the velocities')
        w.step()


def gen_c14b(rng):
    c = gen_c14(rng)
    c['d'] = [r(rng, -3, 3) for _ in range(3 * len(c['bodies']))]
    c['vs'] = [[r(rng, -5, 5) for _ in range(3 * len(c['bodies']))] for _ in range(3)]
    return c


class PostEngine:
    script = None; d = None

    def solve_dynamics(self, world, dt):
        return world.v.new_tensor(PostEngine.script[min(PostEngine.k, len(PostEngine.script) - 1)])

    def post_stabilization(self, world):
        return world.v.new_tensor(PostEngine.d)


class Count:
    n = 0

    def __call__(self, args, g1, g2):
        Count.n += 1


def check_c14b(sc):
    """Use of the correction by the step, engine replaced by a scripted one."""
    worlds = []
    for ps in (True, False):
        worlds.append(S.build(sc, engine=PostEngine, contact_callback=NoContacts, post_stab=ps))
    PostEngine.script = sc['vs']; PostEngine.d = sc['d']
    (w1, b1, j1), (w2, b2, j2) = worlds
    for st in range(sc['steps']):
        PostEngine.k = st
        calls = []
        orig = w1.find_contacts
        p0 = [npy(b.p) for b in b1]
        w1.step(); w2.step()
        need(close(npy(w1.v), npy(w2.v)) and close(npy(w1.v), sc['vs'][min(st, 2)]), 'post-stabilisation changed the velocities to %s', npy(w1.v).tolist())
        for i, b in enumerate(b1):
            need(close(npy(b.v), npy(w1.v)[3 * i:3 * i + 3]), 'body %d velocity differs from the world\'s after the step', i)
        need(abs(w1.t - w2.t) < 1e-12, 'post-stabilisation changed the elapsed time')
        for i, b in enumerate(b1):
            exp = p0[i] + npy(w1.v)[3 * i:3 * i + 3] * w1.dt + np.array(sc['d'])[3 * i:3 * i + 3] / 2 * w1.dt
            need(close(npy(b.p), exp, 1e-9), 'body %d is at %s, expected %s', i, npy(b.p).tolist(), exp.tolist())
    an = []
    for j, s in zip(j1, sc.get('joints', [])):
        if s['kind'] == 'joint':
            pass


def gen_c14c(rng):
    return dict(x=r(rng, 0, 5), v=r(rng, -5, 5), d=r(rng, -60, 60), rad=3.)


def check_c14c(case):
    """Contacts are those of the corrected poses."""
    m = S.mods()
    PostEngine.k = 0; PostEngine.script = [[0, case['v'], 0, 0, 0, 0]]; PostEngine.d = [0, case['d'], 0, 0, 0, 0]
    a = m.bodies.Circle([case['x'] - 12, 0.], case['rad']); b = m.bodies.Circle([0., 0.], case['rad'])
    w = m.world.World([a, b], engine=PostEngine, post_stab=True, strict_no_penetration=False)
    w.step()
    x = float(a.pos[0]); gap = abs(x) - 6
    if abs(gap - w.eps) < 1e-6 or abs(x) < 1e-6: raise Skip
    need(len(w.contacts) == (1 if gap <= w.eps else 0), 'contacts after the correction do not belong to the corrected poses (gap %s, %d contacts)', gap, len(w.contacts))
    if w.contacts: need(close(float(w.contacts[0][0][3]), -gap, 1e-8), 'contact of an outdated pose')


# ---------------------------------------------------------------- C15
def gen_c15(rng):
    sc = gen_scene(rng, joints=False)
    sc['ts'] = [0., .05, .1, .0999999, .1000001, r(rng, 0, 2), r(rng, .2, 100)]
    sc['steps'] = int(rng.integers(0, 4))
    return sc


def check_c15(sc):
    w, bs, js = S.build(sc, contact_callback=NoContacts)
    for st in range(sc['steps'] + 1):
        for t in sc['ts']:
            got = npy(w.apply_forces(t)); exp = forces_at(sc, t)
            need(close(got, exp, 1e-9), 'forces at t=%s are %s, expected %s', t, got.tolist(), exp.tolist())
            for i, b in enumerate(bs):
                need(close(npy(b.apply_forces(t)), exp[3 * i:3 * i + 3], 1e-9), 'body %d force at t=%s', i, t)
        v = npy(w.v).copy(); t = w.t
        M = blockdiag([mass_of(b, s) for b, s in zip(bs, sc['bodies'])])
        w.step()
        need(close(npy(w.v), v + w.dt * np.linalg.solve(M, forces_at(sc, t)), 1e-8), 'the step from t=%s does not use the forces of that time', t)


# ---------------------------------------------------------------- C21
def gen_c21(rng):
    n = int(rng.integers(1, 7))
    return dict(bodies=[S.rand_body(rng) for _ in range(n)], v=[r(rng, -5, 5) for _ in range(3 * n)], p=[r(rng, -5, 5) for _ in range(3 * n)],
                joints=[dict(kind='rot', b1=int(rng.integers(n)), b2=None, pos=[0., 0.])] if rng.random() < .7 else [], forces=[[] for _ in range(n)], order=[int(x) for x in rng.permutation(n)])


def check_c21(sc):
    w, bs, js = S.build(sc, contact_callback=NoContacts)
    n = len(bs)
    M = blockdiag([mass_of(b, s) for b, s in zip(bs, sc['bodies'])])
    need(close(npy(w.M()), M, 1e-8), 'mass matrix is not block diagonal in body order')
    v0 = np.concatenate([np.array(s.get('vel', [0, 0, 0]), float) if len(s.get('vel', [0, 0, 0])) == 3 else np.r_[0, s['vel']] for s in sc['bodies']])
    need(close(npy(w.get_v()), v0) and close(npy(w.v), v0), 'initial velocities %s', npy(w.v).tolist())
    for i, b in enumerate(bs):
        need(b.geom.body == i and w.bodies[i] is b, 'body %d carries index %s', i, b.geom.body)
    pb = [npy(b.p).copy() for b in bs]
    w.set_v(w.v.new_tensor(sc['v']))
    need(close(npy(w.get_v()), sc['v']), 'velocities read back %s', npy(w.get_v()).tolist())
    for i, b in enumerate(bs):
        need(close(npy(b.v), sc['v'][3 * i:3 * i + 3]), 'body %d got velocity %s', i, npy(b.v).tolist())
        need(close(npy(b.p), pb[i]), 'setting velocities moved body %d', i)
    w.set_p(w.v.new_tensor(sc['p']))
    for i, b in enumerate(bs):
        need(close(npy(b.p), sc['p'][3 * i:3 * i + 3]), 'body %d got pose %s', i, npy(b.p).tolist())
        need(close(npy(b.v), sc['v'][3 * i:3 * i + 3]), 'setting poses changed velocity %d', i)
    # the same vector again, after the bodies were changed one by one
    gv = w.get_v(); gp = w.v.new_tensor(sc['p']); w.set_p(gp)
    for i, b in enumerate(bs): b.v = w.v.new_tensor([9., -9., 9.]); b.set_p(w.v.new_tensor([.5, -7., 7.]))
    w.set_v(gv); w.set_p(gp)
    for i, b in enumerate(bs):
        need(close(npy(b.v), sc['v'][3 * i:3 * i + 3]), 'body %d got velocity %s when the same vector was set again', i, npy(b.v).tolist())
        need(close(npy(b.p), sc['p'][3 * i:3 * i + 3]), 'body %d got pose %s when the same vector was set again', i, npy(b.p).tolist())
    for k, s in enumerate(sc['joints']):
        J = npy(w.Je()); need(J.shape == (1, 3 * n) and J[0, 3 * s['b1']] != 0 and np.count_nonzero(J) == 1, 'joint on body %d appears at %s', s['b1'], np.nonzero(J))


RUNTIME = {
    'C01': [RT('newton-euler', gen_c01, check_c01)],
    'C02': [RT('coulomb', gen_c02, check_c02)],
    'C03': [RT('contact-rows', gen_c03, check_c03)],
    'C04': [RT('joint-rows', gen_c04, check_c04)],
    'C14': [RT('correction', gen_c14, check_c14, 2), RT('applied', gen_c14b, check_c14b), RT('redetection', gen_c14c, check_c14c, .3)],
    'C15': [RT('forces', gen_c15, check_c15)],
    'C21': [RT('state-layout', gen_c21, check_c21)],
}
