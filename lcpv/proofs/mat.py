"""contracts over block matrices"""
import numpy as np
from fractions import Fraction
from ..verify import *
from ..eng import blk as B
from ..eng.blk import Atom, Poly, BT, Val, LU, Packed, Piv, p_add, p_mul, p_t, p_atom, p_one, p_scale, diag_poly, norm_word, R1, ONE_D
from .common import n_
UNDECIDED = T.var('#undecided', 'B')


class KM(K):
    """torch replaced by the theory of block matrices of arbitrary sizes"""
    def __init__(self, dtype='f64', **flags):
        K.__init__(self, dtype, **flags)
        self.it.stubs = dict(self.it.stubs, torch=B.torch_mod())
        self.it.put_in(self.it, self.it.__dict__, 'blk_facts', ())
        self.detail = {}
        self.ignore = lambda w: False

    # --- inputs
    def size(self, name, lo=1):
        v = T.var(name, 'I')
        if lo is not None: self.it.assume(T.le(T.num(lo, 'I'), v))
        return v
    def atom(self, name, rows, cols=ONE_D, sym=False, ev=None, inv=False):
        """an arbitrary matrix or vector; sym: symmetric positive definite; inv: invertible"""
        k = (name, rows, cols)
        a = ATOMS.get(k)
        if a is not None: return a
        if ev is None:
            if sym: ev = lambda env: (lambda x: x @ x.T + x.shape[0] * np.eye(x.shape[0]))(env.rng.uniform(-1, 1, (env.size(rows),) * 2))
            else: ev = lambda env: env.rng.uniform(-1, 1, (env.size(rows), env.size(cols))) * 1.5
        a = Atom(name, rows, cols, ev, sym=sym)
        if inv:
            if sym: ai = Atom(name + '^-1', rows, rows, lambda env: np.linalg.inv(B.a_val(a, env)), sym=True)
            else:
                ai = Atom(name + '^-1', rows, rows, lambda env: np.linalg.inv(B.a_val(a, env)))
                B.transposed(a); B.transposed(ai); a.t.inv, ai.t.inv = ai.t, a.t
            a.inv, ai.inv = ai, a
        if cols is ONE_D: a.vec = a
        ATOMS[k] = a
        return a
    def pos(self, name, rows):
        return self.atom(name, rows, ev=lambda env: np.exp(env.rng.uniform(-1., 2., (env.size(rows), 1))))
    def mat(self, x, batch=None):
        """tensor of one block: an atom or polynomial with its sizes"""
        if isinstance(x, Atom): x = (p_atom(x), x.rows, x.cols)
        p, r, c = x
        sh = (B.axis(r), B.axis(c))
        return BT(Val(((B.axis(batch),) if batch is not None else ()) + sh, batch is not None, {(0, 0): p} if p else {}))
    def vecm(self, x, batch=None):
        if isinstance(x, Atom): x = (p_atom(x), x.rows)
        p, r = x
        return BT(Val(((B.axis(batch),) if batch is not None else ()) + (B.axis(r),), batch is not None, {(0,): p} if p else {}))
    def empty(self): return BT(Val(((),), False, {}))

    # --- reading results
    def block(self, x, *ix):
        """the polynomial of a block"""
        b = x.val.blocks.get(tuple(ix) if len(ix) > 1 else (ix[0],) if len(x.val.content()) == 1 else ix)
        if b is None: return Poly()
        return b
    def only(self, x):
        """a tensor of a single block"""
        if not isinstance(x, BT): raise Unsupported('not a tensor of blocks')
        v = x.val
        if any(len(a) != 1 for a in v.content()): raise Unsupported('several blocks')
        return B.poly(next(iter(v.blocks.values()))) if v.blocks else Poly()
    def whole(self, x, segs):
        """the blocks of a vector, its axis cut as segs"""
        v = B.refine(x.val, 0, B.common(x.val.content()[0], tuple(segs)))
        if len(v.content()[0]) != len(segs): raise Unsupported('blocks')
        return [B.poly(v.blocks.get((i,), Poly())) for i in range(len(segs))]

    # --- statements
    def given(self, *ps): B.given(list(ps))
    def sized(self, name, x, *sizes):
        if not isinstance(x, BT): self.ensure(name, x is None and not sizes); return
        s = x.sizes()
        self.ensure(name, len(s) == len(sizes) and T.and_(*[T.eq(T.toR(a), T.toR(T.num(b, 'I') if isinstance(b, int) else b)) for a, b in zip(s, sizes)]))
    def zero(self, name, p, shape, ignore=None, extra=(), kind='ensures '):
        """the polynomial is the zero matrix of the given shape; ignore: words that need not vanish (with a projection that removes them)"""
        goal = UNDECIDED
        ig = (lambda w: ignore[0](w)) if ignore else (lambda w: False)
        hy = list(B.facts(self.it)) + list(extra)
        if not p or B.certificate(p, hy, ig): goal = T.TRUE
        else:
            w = self.refute(p, shape, hy, ignore)
            if w is not None: self.detail[name] = w; goal = T.FALSE
        self.it.obls.append((kind + name, list(self.it.pc), goal))
        if os.environ.get('LCPV_DEBUG') and goal is not T.TRUE: print(name, goal, p, 'GIVEN', [h for h in hy])
    def equal(self, name, p, q, shape, **kw): self.zero(name, p_add(p, q, Fraction(-1)), shape, **kw)

    def refute(self, p, shape, hy, ignore=None):
        bad = 0
        for seed in range(60):
            env = B.Env(seed)
            try:
                if not all(T.evaluate(c, env.look, {}) for c in self.it.pc): continue
                ok = True
                for h in hy:
                    sh = self.shape_of(h)
                    v = B.p_val(h, env, sh)
                    if np.abs(v).max(initial=0) > 1e-6: ok = False; break
                if not ok: bad += 1; continue
                v = B.p_val(p, env, shape)
                if ignore: v = ignore[1](env) @ v
                if not np.isfinite(v).all(): continue
                if np.abs(v).max(initial=0) > 1e-5:
                    return dict(residual=float(np.abs(v).max()), sizes={k[0]: x for k, x in env.sz.items()}, matrices={a.name: np.round(x, 4).tolist() for a, x in env.vals.items() if isinstance(a, Atom) and x.size <= 16 and a.lu is None and a.name[0] not in 'XN'})
            except Exception as e:
                if os.environ.get('LCPV_DEBUG'): print('evaluation', type(e).__name__, e)
                continue
        return None
    def shape_of(self, p):
        for (s, w), c in p.d.items():
            # scalar words in front do not carry the shape
            i = 0
            r = c2 = None
            k = 0
            while k < len(w):
                j = k
                if B.is_one(w[k].rows):
                    while j < len(w) and not B.is_one(w[j].cols): j += 1
                    if j < len(w): k = j + 1; continue
                return (w[k].rows, w[-1].cols)
            if w: return (ONE_D, ONE_D)
        return (ONE_D, ONE_D)


ATOMS = {}
