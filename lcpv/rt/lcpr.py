"""Run-time contracts: the LCP solver."""
import numpy as np
import torch
from .base import RT, Skip, Fail, need
from .scenes import close, npy, r

D = torch.double


def lcpm():
    import lcp_physics.lcp.lcp as L, lcp_physics.lcp.solvers.pdipm as P
    return L, P


def problem(rng, nz, ni, ne, B=1, sym=False, zero=0.):
    """Problem with a known strictly complementary solution (x, z, s, y)."""
    out = []
    for _ in range(B):
        q = rng.normal(size=(nz, nz)); Q = q @ q.T + nz * .3 * np.eye(nz)
        G = rng.normal(size=(ni, nz)); A = rng.normal(size=(ne, nz))
        f = rng.normal(size=(ni, ni)) * .5; F = -(f @ f.T) * 0 + f @ f.T
        if not sym:
            k = rng.normal(size=(ni, ni)) * .7; F = F + k - k.T
        F = F * rng.choice([0., 1.])
        x = rng.normal(size=nz); y = rng.normal(size=ne)
        act = rng.random(ni) < .5
        z = np.where(act, rng.uniform(.3, 3, ni), 0.); s = np.where(act, 0., rng.uniform(.3, 3, ni))
        h = G @ x + s + (F @ z) * -1
        out.append(dict(Q=Q, p=-(Q @ x + G.T @ z + A.T @ y), G=G, h=h, A=A, b=A @ x, F=F, x=x, y=y, z=z, s=s))
    return out


def stack(ps, k):
    return torch.tensor(np.array([p[k] for p in ps]), dtype=D)


def args(ps):
    ne = ps[0]['A'].shape[0]
    e = torch.tensor([], dtype=D)
    return [stack(ps, 'Q'), stack(ps, 'p'), stack(ps, 'G'), stack(ps, 'h'), stack(ps, 'A') if ne else e, stack(ps, 'b') if ne else e, stack(ps, 'F')]


# note the sign convention of the complementarity matrix: G x + s = h + F z
def dims(rng):
    nz = int(rng.integers(1, 7)); ni = int(rng.integers(1, 7)); ne = int(rng.integers(0, min(nz, 4)))
    return nz, ni, ne


def gen_c10(rng):
    return dict(seed=int(rng.integers(2**31)), rounds=int(rng.integers(1, 4)), interleave=bool(rng.random() < .6))


def check_c10(case):
    L, P = lcpm()
    for f in ('pre_factor_kkt', 'factor_kkt', 'solve_kkt'):
        if not hasattr(P, f): raise Skip
    rng = np.random.default_rng(case['seed'])
    probs = []
    for _ in range(2 if case['interleave'] else 1):
        nz, ni, ne = dims(rng); B = int(rng.choice([1, 1, 2, 3]))
        if rng.random() < .3 and probs: ni = probs[0][0][0]['G'].shape[0]
        ps = problem(rng, nz, ni, ne, B)
        if rng.random() < .3:
            for p in ps: p['Q'] = p['Q'] + rng.normal(size=(nz, nz)) * 0
        Q, p_, G, h, A, b, F = args(ps)
        probs.append((ps, (Q, G, A, F), P.pre_factor_kkt(Q, G, F, A)))
    for rd in range(case['rounds']):
        for ps, (Q, G, A, F), (Q_LU, S_LU, R) in probs:
            B, ni, nz = G.shape; ne = ps[0]['A'].shape[0]
            d = torch.tensor(10. ** rng.uniform(-3, 3, (B, ni)), dtype=D)
            P.factor_kkt(S_LU, R, d)
            for _ in range(2):
                rx, rs, rz, ry = (torch.tensor(rng.normal(size=(B, k)), dtype=D) for k in (nz, ni, ni, ne))
                dx, ds, dz, dy = P.solve_kkt(Q_LU, d, G, A, S_LU, rx, rs, rz, ry if ne else (None if rng.random() < .5 else ry))
                for k in range(B):
                    q, g, f, a = npy(Q[k]), npy(G[k]), npy(F[k]), ps[k]['A']
                    x, s, z = npy(dx[k]), npy(ds[k]), npy(dz[k]); y = npy(dy[k]) if ne else np.zeros(0)
                    if ne == 0: need(dy is None or dy.numel() == 0, 'multipliers without equalities')
                    dd = npy(d[k])
                    sc = 1 + max(np.abs(t).max() if t.size else 0 for t in (x, s, z, y)) * (1 + dd.max())
                    cond = np.linalg.cond(q)
                    tol = 1e-8 * sc * max(1, cond / 1e3)
                    need(np.abs(q @ x + g.T @ z + a.T @ y + npy(rx[k])).max() < tol, 'stationarity row violated by %s (round %d)', np.abs(q @ x + g.T @ z + a.T @ y + npy(rx[k])).max(), rd)
                    need(np.abs(dd * s + z + npy(rs[k])).max() < tol, 'slack row violated by %s (round %d)', np.abs(dd * s + z + npy(rs[k])).max(), rd)
                    need(np.abs(g @ x + s - f @ z + npy(rz[k])).max() < tol, 'inequality row violated by %s (round %d)', np.abs(g @ x + s - f @ z + npy(rz[k])).max(), rd)
                    if ne: need(np.abs(a @ x + npy(ry[k])).max() < tol, 'equality row violated by %s (round %d)', np.abs(a @ x + npy(ry[k])).max(), rd)


def gen_c11(rng):
    nz, ni, ne = dims(rng)
    return dict(seed=int(rng.integers(2**31)), dims=[nz, ni, ne], zero=bool(rng.random() < .3), iters=int(rng.integers(1, 14)), lim=int(rng.choice([3, 3, 20])), B=int(rng.choice([1, 1, 1, 2])), rand=bool(rng.random() < .4))


def resid(p, x, z, s, y):
    rx = p['Q'] @ x + p['G'].T @ z + p['p'] + (p['A'].T @ y if len(y) else 0)
    rz = p['G'] @ x + s - p['h'] - p['F'] @ z
    ry = p['A'] @ x - p['b']
    return np.linalg.norm(rx) + np.linalg.norm(rz) + np.linalg.norm(ry) + abs(s @ z)


def solve(L, a, **kw):
    sv = L.LCPFunction(**kw)
    x = sv(*[t.clone() for t in a])
    return x, sv


def check_c11(case):
    L, P = lcpm()
    rng = np.random.default_rng(case['seed']); nz, ni, ne = case['dims']
    ps = problem(rng, nz, ni, ne, case['B'])
    if case['rand']:
        for p in ps: p['h'] = rng.normal(size=ni) * 3; p['p'] = rng.normal(size=nz) * 3
    if case['zero']:
        for p in ps:
            p['G'][0] = 0; p['F'][0] = 0; p['F'][:, 0] = 0; p['h'][0] = float(rng.choice([1., 2., 3.])) ; p['s'][0] = p['h'][0]; p['z'][0] = 0
    a = args(ps); keep = [t.clone() for t in a]
    calls = [0]
    orig = getattr(P, 'factor_kkt', None)
    if orig is not None:
        def spy(*q, **k):
            calls[0] += 1
            return orig(*q, **k)
        P.factor_kkt = spy
    try:
        prev = None
        for it in sorted({1, 2, max(1, case['iters'] - 1), case['iters'], case['iters'] + 1}):
            calls[0] = 0
            sv = L.LCPFunction(max_iter=it, not_improved_lim=case['lim'])
            x = sv(*a)
            need(all(torch.equal(q, k) for q, k in zip(a, keep)), 'the solver changed its input')
            if orig is not None and calls[0]: need(calls[0] <= it + 1, '%d factorisations for an iteration limit of %d', calls[0], it)
            need(tuple(x.shape) == (case['B'], nz), 'solution of shape %s', tuple(x.shape))
            lam, sl = sv.lams, sv.slacks
            need(bool((lam > 0).all()) and bool((sl > 0).all()), 'multipliers %s / slacks %s not strictly positive after %d iterations', lam.tolist(), sl.tolist(), it)
            need(bool(torch.isfinite(x).all()), 'solution not finite')
            res = [resid(p, npy(x[k]), npy(lam[k]), npy(sl[k]), npy(sv.nus[k]) if ne else np.zeros(0)) for k, p in enumerate(ps)]
            if prev is not None and case['B'] == 1:
                need(res[0] <= prev[0] * (1 + 1e-6) + 1e-9, 'residual %s of the point returned with limit %d exceeds the residual %s of an earlier iterate', res[0], it, prev[0])
            prev = res
    finally:
        if orig is not None: P.factor_kkt = orig


def gen_conv(rng):
    nz, ni, ne = dims(rng)
    return dict(seed=int(rng.integers(2**31)), dims=[nz, ni, ne])


def check_conv(case):
    """With enough iterations the known solution is found (zero search components included)."""
    L, P = lcpm()
    rng = np.random.default_rng(case['seed']); nz, ni, ne = case['dims']
    ps = problem(rng, nz, ni, ne, 1, zero=.3)
    p = ps[0]; p['F'] = p['F'] * 0; p['h'] = p['G'] @ p['x'] + p['s']
    x, sv = solve(L, args(ps), max_iter=60, not_improved_lim=60)
    res = resid(p, npy(x[0]), npy(sv.lams[0]), npy(sv.slacks[0]), npy(sv.nus[0]) if ne else np.zeros(0))
    need(res < 1e-6 * (1 + np.abs(p['z']).max() + np.abs(p['x']).max()) and close(npy(x[0]), p['x'], 1e-4), 'the strictly convex problem was not solved: residual %s', res)


def gen_step(rng):
    n = int(rng.integers(1, 8))
    v = [float(10. ** rng.uniform(-6, 3)) for _ in range(n)]
    dv = [float(rng.choice([0., rng.normal(), rng.normal() * 1e3, -abs(rng.normal())])) for _ in range(n)]
    if rng.random() < .1: dv = [0.] * n
    return dict(v=v, dv=dv)


def check_step(case):
    L, P = lcpm()
    if not hasattr(P, 'get_step'): raise Skip
    v, dv = (torch.tensor([case[k]], dtype=D) for k in ('v', 'dv'))
    a = P.get_step(v.clone(), dv.clone()).reshape(-1)
    need(a.numel() == 1 and bool((a > 0).all()) and not bool(torch.isnan(a).any()), 'step length %s for v=%s dv=%s', a.tolist(), case['v'], case['dv'])
    al = min(1., .999 * float(a))
    need(bool((v + al * dv > 0).all()), 'step %s leaves the positive orthant: v=%s dv=%s', al, case['v'], case['dv'])
    neg = dv < 0
    best = float((-v / dv)[neg].min()) if bool(neg.any()) else 1.
    need(float(a) >= min(best, 1.) * (1 - 1e-9), 'step %s shorter than needed %s', float(a), best)


def gen_c12(rng):
    nz, ni, ne = dims(rng)
    return dict(seed=int(rng.integers(2**31)), dims=[nz, ni, ne], again=bool(rng.random() < .5), other=bool(rng.random() < .5), B=int(rng.choice([1, 1, 2])))


def check_c12(case):
    L, P = lcpm()
    rng = np.random.default_rng(case['seed']); nz, ni, ne = case['dims']
    ps = problem(rng, nz, ni, ne, case['B'])
    a = [t.clone().requires_grad_() for t in args(ps)]
    sv = L.LCPFunction(max_iter=80, not_improved_lim=80)
    x = sv(*a)
    for k, p in enumerate(ps):
        if not (close(npy(x[k]), p['x'], 1e-6) and close(npy(sv.lams[k]), p['z'], 1e-6)): raise Skip
    g = torch.tensor(rng.normal(size=(case['B'], nz)), dtype=D)
    loss = (x * g).sum()
    if case['other']:
        # another solve (same solver object) before the gradient of the first is taken
        ps2 = problem(rng, *dims(rng)); a2 = [t.clone().requires_grad_() for t in args(ps2)]
        x2 = sv(*a2); x2.sum().backward()
    if case['again']: loss.backward(retain_graph=True)
    for t in a: t.grad = None
    loss.backward()
    for k, p in enumerate(ps):
        act = p['z'] > 0
        n = nz + 2 * ni + ne
        # residual (stationarity, G x + s - h - F z, A x - b, s*z) in (x, z, y, s)
        K = np.zeros((n, n)); iz = slice(nz, nz + ni); iy = slice(nz + ni, nz + ni + ne); is_ = slice(nz + ni + ne, n)
        K[:nz, :nz] = p['Q']; K[:nz, iz] = p['G'].T; K[:nz, iy] = p['A'].T
        K[iz, :nz] = p['G']; K[iz, iz] = -p['F']; K[iz, is_] = np.eye(ni)
        K[iy, :nz] = p['A']
        K[is_, iz] = np.diag(p['s']); K[is_, is_] = np.diag(p['z'])
        if np.linalg.cond(K) > 1e5: raise Skip
        rhs = np.zeros(n); rhs[:nz] = npy(g[k])
        w = -np.linalg.solve(K.T, rhs); wx, wz, wy = w[:nz], w[iz], w[iy]
        exp = dict(Q=(np.outer(wx, p['x']) + np.outer(p['x'], wx)) / 2, p=wx, G=np.outer(p['z'], wx) + np.outer(wz, p['x']), h=-wz, A=np.outer(p['y'], wx) + np.outer(wy, p['x']), b=-wy, F=-np.outer(wz, p['z']))
        for name, t in zip('QpGhAbF', a):
            if name in 'Ab' and ne == 0:
                continue
            got = npy(t.grad[k])
            if name == 'Q': got = (got + got.T) / 2
            need(close(got, exp[name], 3e-4), 'gradient of %s is %s, implicit function theorem gives %s', name, got.tolist(), exp[name].tolist())


RUNTIME = {
    'C10': [RT('kkt-solve', gen_c10, check_c10)],
    'C11': [RT('best-iterate', gen_c11, check_c11, 2), RT('step-length', gen_step, check_step, .5), RT('convergence', gen_conv, check_conv)],
    'C12': [RT('adjoint', gen_c12, check_c12)],
}
