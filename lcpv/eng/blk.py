"""Tensors as block matrices over noncommutative polynomials: matrices and vectors of any size, with inverses and factorisations.

A value is a grid of blocks; the sizes of its segments are symbolic.  A block is a polynomial: rational combinations of products of
matrix atoms (which do not commute) with scalar terms (which do).  A leading batch dimension is carried along: every operation here
acts on each element of the batch alone, so one arbitrary element stands for all.

Equations between matrices are decided by a normal form (inverse pairs cancel, P L U of a factorisation is the factored matrix,
diagonal matrices commute, 1x1 products are numbers) and, given equations that hold, by a certificate: a combination of the given
equations, multiplied by matrices from the left and right, that equals the goal.  A goal that has no certificate is evaluated on random
matrices, with the factorisations and solves carried out numerically; a nonzero value refutes it."""
from fractions import Fraction
import numpy as np
from . import terms as T
from .base import *
from .ft import FT, DT, Z, dim, tt
from .interp import PList, Seq, Native

ONE_D = T.num(1, 'I')
R1 = T.num(1)


# ------------------------------------------------------------------ atoms
class Atom:
    """a matrix symbol; t: its transpose, inv: its inverse (or None)"""
    __slots__ = ('name', 'rows', 'cols', 'diag', 't', 'inv', 'ev', 'id', 'lu', 'role', 'vec')
    n = 0
    def __init__(self, name, rows, cols, ev, diag=False, sym=False):
        Atom.n += 1; self.id = Atom.n
        self.name, self.rows, self.cols, self.ev, self.diag = name, rows, cols, ev, diag
        self.inv = self.lu = self.role = self.vec = None
        self.t = self if diag or sym else None
    def __repr__(self): return self.name
    def __lt__(self, o): return self.id < o.id
    def __hash__(self): return self.id


def transposed(a):
    if a.t is None:
        b = Atom(a.name + "'", a.cols, a.rows, lambda env: a_val(a, env).T)
        a.t, b.t = b, a
        if a.inv is not None:
            b.inv = transposed(a.inv); b.inv.inv = b
    return a.t


def a_val(a, env):
    v = env.vals.get(a)
    if v is None:
        v = env.vals[a] = np.array(a.ev(env), dtype=float)
    return v


class Env:
    """numeric sizes and values"""
    def __init__(self, seed, sizes=None, scal=None):
        self.rng = np.random.default_rng(seed); self.vals = {}; self.sz = dict(sizes or {}); self.sc = {}; self.scal = scal or {}
    def size(self, t):
        if isinstance(t, int): return t
        return int(T.evaluate(t, self.look, {}))
    def look(self, name, args, sort):
        k = (name, args)
        if sort == 'I':
            if k not in self.sz: self.sz[k] = int(self.rng.integers(1, 5)) if name not in self.sz else self.sz[name]
            return self.sz[k]
        if sort == 'B': return self.sc.setdefault(k, bool(self.rng.integers(2)))
        if k not in self.sc: self.sc[k] = float(self.rng.uniform(.2, 1.5)) * (1 if self.rng.random() < .6 else -1)
        return self.sc[k]
    def scalar(self, t): return float(T.evaluate(t, self.look, {}))


# ------------------------------------------------------------------ scalars: rational coefficient times a term
def split_coef(t):
    if t.op == 'num': return T.val(t), R1
    if t.op == 'mul' and t.args[0].op == 'num':
        return T.val(t.args[0]), T.div(t, t.args[0]) if False else _rest(t)
    return Fraction(1), t


def _rest(t):
    r = R1
    for a in t.args[1:]: r = T.mul(r, a)
    return r


# ------------------------------------------------------------------ polynomials
class Poly:
    """dict (scalar term, word) -> Fraction"""
    __slots__ = ('d',)
    def __init__(self, d=None): self.d = d or {}
    def __bool__(self): return bool(self.d)
    def key(self): return frozenset(self.d.items())
    def __repr__(self):
        out = []
        for (s, w), c in list(self.d.items())[:12]:
            out.append('%s%s%s' % ('' if c == 1 else '-' if c == -1 else '%s ' % c, '' if s is R1 else T.show(s) + ' ', ' '.join(a.name for a in w) or '1'))
        return ' + '.join(out) or '0'


def p_zero(): return Poly()
def p_one(): return Poly({(R1, ()): Fraction(1)})
def p_atom(a): return norm_word(Fraction(1), R1, (a,))


def p_add(p, q, c=Fraction(1)):
    d = dict(p.d)
    for k, v in q.d.items():
        x = d.get(k, 0) + c * v
        if x: d[k] = x
        else: d.pop(k, None)
    return Poly(d)


def p_scale(p, t):
    """times a scalar term"""
    if t.op == 'add':
        r = Poly()
        for a in t.args: r = p_add(r, p_scale(p, a))
        return r
    c, s = split_coef(t)
    if c == 0: return Poly()
    d = {}
    for (s0, w), v in p.d.items():
        u = s0 if s is R1 else T.mul(s0, s) if s0 is not R1 else s
        c2, u = split_coef(u)
        d[u, w] = d.get((u, w), 0) + v * c * c2
    return Poly({k: v for k, v in d.items() if v})


def p_mul(p, q):
    r = Poly()
    for (s1, w1), c1 in p.d.items():
        for (s2, w2), c2 in q.d.items():
            m = norm_word(c1 * c2, R1, w1 + w2)
            s = s1 if s2 is R1 else s2 if s1 is R1 else T.mul(s1, s2)
            if s is not R1: m = p_scale(m, s)
            r = p_add(r, m)
    return r


def p_t(p):
    r = Poly()
    for (s, w), c in p.d.items():
        m = norm_word(c, R1, tuple(transposed(a) for a in reversed(w)))
        r = p_add(r, p_scale(m, s) if s is not R1 else m)
    return r


def is_one(t): return t is ONE_D


_nf = {}


def norm_word(c, s, w):
    """the normal form of one product"""
    r = _nf.get(w)
    if r is None: r = _nf[w] = _norm(w)
    if c == 1 and s is R1: return r
    return Poly({(k[0] if s is R1 else T.mul(k[0], s), k[1]): v * c for k, v in r.d.items()})


def _norm(w):
    w = list(w)
    # inverse pairs cancel
    i = 0
    while i < len(w) - 1:
        a, b = w[i], w[i + 1]
        if a.inv is b and a.inv is not None:
            del w[i:i + 2]; i = max(0, i - 1); continue
        i += 1
    # factorisations
    for i in range(len(w)):
        a = w[i]
        if a.lu is None: continue
        k, role = a.lu, a.role
        for names, res in (('PLU', lambda: k.X), ('ult', lambda: p_t(k.X)), ('uiliPt', lambda: k.single(False))):
            seq = {'PLU': ('P', 'L', 'U'), 'ult': ("U'", "L'", "P'"), 'uiliPt': ('Ui', 'Li', "P'")}[names]
            if role == seq[0] and i + 2 < len(w) and all(w[i + j].lu is k and w[i + j].role == seq[j] for j in range(3)):
                x = res()
                if x is None: continue
                return p_mul(p_mul(norm_word(Fraction(1), R1, tuple(w[:i])), x), norm_word(Fraction(1), R1, tuple(w[i + 3:])))
        if role == 'P' and i + 2 < len(w) and [x.role for x in w[i:i + 3]] == ['P', "Li'", "Ui'"] and all(x.lu is k for x in w[i:i + 3]) and k.symmetric():
            return norm_word(Fraction(1), R1, tuple(w[:i]) + (k.Ui, k.Li, k.P.t) + tuple(w[i + 3:]))
        seq = ('Ui', 'Li', "P'")
        if role == 'Ui' and i + 2 < len(w) and all(w[i + j].lu is k and w[i + j].role == seq[j] for j in range(3)):
            # X Ui Li Pt = 1 when X is one product
            m = k.word()
            if m:
                n = len(m)
                if tuple(w[max(0, i - n):i]) == m: return norm_word(Fraction(1), R1, tuple(w[:i - n] + w[i + 3:]))
                if tuple(w[i + 3:i + 3 + n]) == m: return norm_word(Fraction(1), R1, tuple(w[:i] + w[i + 3 + n:]))
    # diagonal matrices commute with one another
    i = 0
    while i < len(w):
        j = i
        while j < len(w) and w[j].diag: j += 1
        if j > i:
            run = w[i:j]
            # the vector behind the diagonal matrices: an atom, or the rest of the word
            n = 0
            if j < len(w):
                n = next((m for m in range(1, len(w) - j + 1) if is_one(w[j + m - 1].cols)), 0)
                if n > 1 and not any(a.vec is not None for a in run): n = 0
                if n == 1 and w[j].vec is None: n = 0
            tail = vec_atom(tuple(w[j:j + n])) if n else None
            run2, tail2 = diag_run(run, tail)
            new = run2 + (list(WORD.get(tail2, (tail2,))) if tail2 is not None else [])
            old = run + w[j:j + n]
            if new != old:
                return norm_word(Fraction(1), R1, tuple(w[:i] + new + w[i + len(old):]))
            i = j
        i += 1
    # row vectors: v' D = (D v)'
    for i in range(len(w) - 1):
        if w[i + 1].diag and is_one(w[i].rows) and transposed(w[i]).vec is not None:
            j = i + 1
            while j < len(w) and w[j].diag: j += 1
            run, tail = diag_run(w[i + 1:j], transposed(w[i]))
            new = [transposed(a) for a in reversed(WORD.get(tail, (tail,)))] + run
            if new != w[i:j]: return norm_word(Fraction(1), R1, tuple(w[:i] + new + w[j:]))
    # 1x1 products are numbers
    cuts = [0] + [i for i in range(1, len(w)) if is_one(w[i].rows)] + [len(w)]
    if w:
        segs = [tuple(w[a:b]) for a, b in zip(cuts, cuts[1:]) if b > a]
        isn = [is_one(g[0].rows) and is_one(g[-1].cols) for g in segs]
        if any(isn):
            nums = []
            for g, f in zip(segs, isn):
                if f:
                    h = tuple(transposed(a) for a in reversed(g))
                    nums.append(min(g, h, key=lambda x: [a.id for a in x]))
            nums.sort(key=lambda g: [a.id for a in g])
            w2 = [a for g in nums for a in g] + [a for g, f in zip(segs, isn) if not f for a in g]
            if w2 != w: return Poly({(R1, tuple(w2)): Fraction(1)}) if tuple(w2) in _busy else _again(w, w2)
    return Poly({(R1, tuple(w)): Fraction(1)})


_busy = set()


def _again(w, w2):
    _busy.add(tuple(w))
    try: return norm_word(Fraction(1), R1, tuple(w2))
    finally: _busy.discard(tuple(w))


def diag_run(run, tail):
    """D1 ... Dk v with diagonal D: order, cancel, and let the largest vector be the tail"""
    pos = []; neg = []; oth = []
    for a in run:
        if a.vec is None: oth.append(a)
        elif a.role == 'inv': neg.append(a.vec)
        else: pos.append(a.vec)
    if tail is not None and tail.name != 'ones': pos.append(tail)
    for a in list(neg):
        if a in pos: pos.remove(a); neg.remove(a)
    pos.sort(key=lambda a: (a in WORD, a.id)); neg.sort(); oth.sort()
    if tail is not None:
        if pos: t2 = pos.pop()
        else: t2 = ones(tail.rows)
    else: t2 = None
    return sorted(oth) + [diag_of_atom(a, True) for a in neg] + [diag_of_atom(a) for a in pos], t2


_ones = {}


def ones(n):
    a = _ones.get(n)
    if a is None:
        a = _ones[n] = Atom('ones', n, ONE_D, lambda env: np.ones((env.size(n), 1))); a.vec = a
    return a


_diag = {}


def diag_of_atom(v, inv=False):
    """Diag(v) of a vector atom, or its inverse"""
    if v not in _diag:
        d = Atom('Diag(%s)' % v.name, v.rows, v.rows, lambda env: np.diag(a_val(v, env)[:, 0]), diag=True)
        e = Atom('Diag(1/%s)' % v.name, v.rows, v.rows, lambda env: np.diag(1 / a_val(v, env)[:, 0]), diag=True)
        d.inv, e.inv = e, d; d.vec = e.vec = v; e.role = 'inv'
        _diag[v] = (d, e)
    return _diag[v][1 if inv else 0]


_opaque = {}
WORD = {}      # atoms that stand for the vector of a product


def vec_atom(w):
    """the vector a product stands for, as an atom (for Diag of a product)"""
    if len(w) == 1 and w[0].vec is not None: return w[0]
    if w not in _opaque:
        a = Atom('(%s)' % ' '.join(x.name for x in w), w[0].rows, w[-1].cols, lambda env: w_val(w, env)); a.vec = a
        _opaque[w] = a; WORD[a] = w
    return _opaque[w]


def split_vec(w):
    """leading diagonal atoms and the vector behind them"""
    i = 0
    while i < len(w) and w[i].diag: i += 1
    return w[:i], w[i:]


def diag_poly(p):
    """Diag(p) of a vector polynomial"""
    r = Poly()
    for (s, w), c in p.d.items():
        ds, v = split_vec(w)
        if not v: raise Unsupported('diagonal of a matrix')
        v = vec_atom(v)
        word = ds + (() if v.name == 'ones' else (diag_of_atom(v),))
        m = norm_word(c, R1, word)
        r = p_add(r, p_scale(m, s) if s is not R1 else m)
    return r


def recip(p):
    """the vector 1 / p"""
    if len(p.d) != 1:
        n = next(iter(p.d))[1][0].rows if p.d else None
        if n is None: raise Unsupported('division by zero')
        key = ('recip', p.key())
        if key not in _opaque:
            a = Atom('1/(%r)' % p, n, ONE_D, lambda env: 1 / p_val(p, env, (n, ONE_D))); a.vec = a
            _opaque[key] = a
        return p_atom(_opaque[key])
    (s, w), c = next(iter(p.d.items()))
    ds, v = split_vec(w)
    if not v: raise Unsupported('reciprocal of a matrix')
    n = v[0].rows
    v = vec_atom(v)
    word = tuple(a.inv for a in ds) + (() if v.name == 'ones' else (diag_of_atom(v, True),)) + (ones(n),)
    m = norm_word(1 / c, R1, word)
    return p_scale(m, T.div(R1, s)) if s is not R1 else m


def w_val(w, env):
    r = None
    for a in w:
        v = a_val(a, env)
        r = v if r is None else r * float(v[0, 0]) if v.shape == (1, 1) and r.shape[1] != 1 else float(r[0, 0]) * v if r.shape == (1, 1) and v.shape[0] != 1 else r @ v
    return r


def word_value(w, env):
    """scalar prefixes multiply the rest"""
    sc = 1.; cur = None
    i = 0
    while i < len(w):
        if is_one(w[i].rows):
            j = i
            while j < len(w) and not is_one(w[j].cols): j += 1
            if j < len(w):
                v = w_val(w[i:j + 1], env); sc *= float(v[0, 0]); i = j + 1; continue
        break
    if i == len(w): return sc * np.ones((1, 1)) if w else None
    return sc * w_val(w[i:], env)


def p_val(p, env, shape):
    r, c = env.size(shape[0]), env.size(shape[1])
    out = np.zeros((r, c))
    for (s, w), k in p.d.items():
        v = word_value(w, env)
        if v is None: v = np.eye(r)
        elif v.shape == (1, 1) and (r, c) != (1, 1): v = float(v[0, 0]) * np.eye(r)
        out += float(k) * (1. if s is R1 else env.scalar(s)) * v
    return out


# ------------------------------------------------------------------ factorisations
class LU:
    """P L U = X"""
    n = 0
    def __init__(self, X, size, bare=False):
        LU.n += 1
        self.X, self.size, self.sym = X, size, None
        i = LU.n
        def atom(role, f):
            a = Atom('%s%d' % (role, i), size, size, lambda env: f(*self.num(env)))
            a.lu, a.role = self, role; return a
        P, L, U = atom('P', lambda P, L, U: P), atom('L', lambda P, L, U: L), atom('U', lambda P, L, U: U)
        Li, Ui = atom('Li', lambda P, L, U: np.linalg.inv(L)), atom('Ui', lambda P, L, U: np.linalg.inv(U))
        for a in (P, L, U, Li, Ui): transposed(a); a.t.lu, a.t.role = self, a.role + "'"
        P.inv, P.t.inv = P.t, P
        for a, b in ((L, Li), (U, Ui)): a.inv, b.inv = b, a; a.t.inv, b.t.inv = b.t, a.t
        self.P, self.L, self.U, self.Li, self.Ui = P, L, U, Li, Ui
    def num(self, env):
        v = env.vals.get(self)
        if v is None:
            import scipy.linalg as sl
            v = env.vals[self] = sl.lu(p_val(self.X, env, (self.size, self.size)))
        return v
    def packed(self, env):
        v = env.vals.get((self, 'packed'))
        if v is None:
            import scipy.linalg as sl
            v = env.vals[self, 'packed'] = sl.lu_factor(p_val(self.X, env, (self.size, self.size)))
        return v
    def symmetric(self):
        if self.sym is None: self.sym = p_t(self.X).key() == self.X.key()
        return self.sym
    def word(self):
        if len(self.X.d) != 1: return None
        (s, w), c = next(iter(self.X.d.items()))
        return w if s is R1 and c == 1 else None
    def single(self, tr):
        """the inverse of X as a polynomial when X is a product of atoms with inverses"""
        if len(self.X.d) != 1: return None
        (s, w), c = next(iter(self.X.d.items()))
        if any(a.inv is None for a in w) or s is not R1: return None
        return norm_word(1 / c, R1, tuple(a.inv for a in reversed(w)))
    def solve_poly(self):
        x = self.single(False)
        if x is not None: return x
        return norm_word(Fraction(1), R1, (self.Ui, self.Li, self.P.t))


class Packed:
    """block content: the packed factors of k"""
    def __init__(self, k): self.k = k


class Piv:
    """block content: the pivots of k (None: no interchanges), 1-based, plus an offset"""
    def __init__(self, k, off): self.k, self.off = k, off
    def shift(self, t): return Piv(self.k, T.add(self.off, t))


# ------------------------------------------------------------------ values
def seg_sum(segs):
    r = Z
    for s in segs: r = T.add(r, tt(s))
    return r


class Val:
    """shape: per axis a tuple of segment sizes (terms); bat: is axis 0 a batch; blocks: content index -> Poly | Packed | Piv (absent: 0)"""
    __slots__ = ('shape', 'bat', 'blocks', 'cut', 'kind')
    def __init__(self, shape, bat, blocks, cut=False, kind='f'):
        self.shape, self.bat, self.blocks, self.cut, self.kind = tuple(tuple(a) for a in shape), bat, blocks, cut, kind
    def content(self): return self.shape[1:] if self.bat else self.shape
    def with_(self, **k):
        d = dict(shape=self.shape, bat=self.bat, blocks=self.blocks, cut=self.cut, kind=self.kind); d.update(k)
        return Val(**d)


def drop0(segs): return tuple(s for s in segs if not (T.isnum(tt(s)) and T.val(tt(s)) == 0))


def axis(n):
    n = tt(dim(n)) if not isinstance(n, T.Term) else n
    return drop0((n,))


def eqz(a, b): return T.eq(a, b) is T.TRUE or CUR.it.implied(T.eq(a, b))


def implied_le(a, b):
    c = T.le(a, b)
    return c is T.TRUE or CUR.it.implied(c)


def split_block(b, ax, nax, k0, segs, whole):
    """the parts of a block when its axis is cut into segs"""
    raise Unsupported('cut through a block')


def refine(v, ax, sizes):
    """v with content axis ax cut into the given sizes (a refinement)"""
    cont = v.content()
    old = cont[ax]
    if tuple(old) == tuple(sizes): return v
    # map: old segment -> list of new positions
    maps = []; i = 0
    for s in old:
        acc = Z; part = []
        while True:
            if eqz(acc, s): break
            if i >= len(sizes): raise Unsupported('sizes do not match')
            part.append(i); acc = T.add(acc, sizes[i]); i += 1
        maps.append(part)
    if i != len(sizes): raise Unsupported('sizes do not match')
    nb = {}
    if len(cont) == 2 and len(maps) and any(len(m) > 1 for m in maps):
        pass
    for idx, b in v.blocks.items():
        part = maps[idx[ax]]
        if len(part) == 1:
            nb[idx[:ax] + (part[0],) + idx[ax + 1:]] = b; continue
        if isinstance(b, Piv) and b.k is None:
            off = b.off
            for q in part:
                nb[(q,)] = Piv(None, off); off = T.add(off, sizes[q])
            continue
        if isinstance(b, Poly) and len(cont) == 1 and b.d and all(w and w[-1].name == 'ones' and len(w) == 1 for (s, w) in b.d):
            for q in part: nb[(q,)] = Poly({(s, (ones(sizes[q]),)): c for (s, w), c in b.d.items()})
            continue
        raise Unsupported('cut through a block')
    sh = list(v.shape); sh[ax + (1 if v.bat else 0)] = tuple(sizes)
    return v.with_(shape=sh, blocks=nb)


def common(a, b):
    """common refinement of two segmentations"""
    out = []; a, b = list(a), list(b)
    while a and b:
        x, y = a[0], b[0]
        if eqz(x, y): out.append(x); a.pop(0); b.pop(0)
        elif implied_le(x, y): out.append(x); a.pop(0); b[0] = T.sub(y, x)
        elif implied_le(y, x): out.append(y); b.pop(0); a[0] = T.sub(x, y)
        else: raise Unsupported('sizes of blocks')
    for r in (a, b):
        for x in r:
            if not eqz(x, Z): raise IRaise('RuntimeError', 'sizes do not match')
    return tuple(out)


def bounds(segs, lo, hi):
    """segments cut at lo and hi; -> (sizes, first, last)"""
    total = seg_sum(segs)
    out = []; pos = Z; marks = [lo, hi]
    res = {}
    segs = list(segs)
    for m in range(2):
        pass
    cur = Z; sizes = []; 
    pend = [('lo', lo), ('hi', hi)]
    def take(p):
        while pend and eqz(pend[0][1], p): res[pend.pop(0)[0]] = len(sizes)
    take(Z)
    for s in segs:
        rest = s
        while True:
            if not pend: sizes.append(rest); cur = T.add(cur, rest); break
            nxt = T.add(cur, rest)
            m = pend[0][1]
            if eqz(m, nxt):
                sizes.append(rest); cur = nxt; take(cur); break
            if implied_le(nxt, m): sizes.append(rest); cur = nxt; break
            if implied_le(m, nxt) and implied_le(cur, m):
                d = T.sub(m, cur); sizes.append(d); rest = T.sub(rest, d); cur = m; take(cur)
                continue
            raise Unsupported('slice bound inside a block')
    take(total)
    if len(res) < 2: raise Unsupported('slice bounds')
    return tuple(sizes), res['lo'], res['hi']


class Mem(Host):
    def __init__(self, val): Host.__init__(self); self.__dict__['val'] = val


class BT:
    """tensor value over blocks: a memory and the view taken of it"""
    def __init__(self, val, mem=None, tf=None, dtype='f64'):
        self.mem = mem or Mem(val); self.tf = tf; self.dtype_ = dtype; self.part = self.back = None

    @property
    def val(self):
        v = self.mem.val
        return self.tf(v) if self.tf else v

    def view(self, f):
        g = self.tf
        r = BT(None, self.mem, (lambda v: f(g(v))) if g else f, self.dtype_)
        r.val
        return r

    def new(self, val): return BT(val, dtype=self.dtype_)

    def write(self, val):
        if self.part is not None:
            o, key = self.part
            o.setitem(key, self.new(val)); return
        if self.back is not None: self.back(val); return
        if self.tf is not None: raise Unsupported('in-place write through a view')
        self.mem.put('val', val)

    def __repr__(self): return 'BT%r' % (self.val.shape,)

    # ---- operators
    def _ew(self, o, f): 
        return NotImplemented if not (isinstance(o, BT) or is_scalar(o)) else f(self, o)
    def __add__(self, o): return self._ew(o, lambda a, b: b_add(a, b, 1))
    def __radd__(self, o): return self._ew(o, lambda a, b: b_add(a, b, 1))
    def __sub__(self, o): return self._ew(o, lambda a, b: b_add(a, b, -1))
    def __rsub__(self, o): return b_add(-self, o, 1)
    def __neg__(self): return self.new(map_val(self.val, lambda p: p_scale(p, T.num(-1))))
    def __mul__(self, o): return self._ew(o, b_mul)
    def __rmul__(self, o): return self._ew(o, b_mul)
    def __truediv__(self, o): return self._ew(o, b_div)
    def __rtruediv__(self, o):
        if is_scalar(o): return b_mul(b_recip(self), o)
        return NotImplemented
    def __matmul__(self, o): return b_matmul(self, o)
    def inplace(self, op, o):
        import operator as O
        r = {'+': O.add, '-': O.sub, '*': O.mul, '/': O.truediv}[op](self, o)
        self.write(r.val); return self

    # ---- interpreter protocol
    def getattr(self, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None: return Native(m, name)
        if name == 'shape': return self.m_size()
        if name == 'dtype': return DT['f64']
        if name == 'device': return 'cpu'
        if name == 'is_cuda': return False
        if name == 'requires_grad': return False
        if name == 'data': return self.m_detach()
        if name in ('T', 'mT'): return self.m_transpose(-2, -1)
        raise Unsupported('tensor attribute ' + name)

    def truth(self): raise Unsupported('truth of a block tensor')
    def ndim(self): return len(self.val.shape)

    def sizes(self): return [seg_sum(a) for a in self.val.shape]
    def m_size(self, d=None):
        s = self.sizes()
        if d is None: return tuple(wrap(x) for x in s)
        try: return wrap(s[d])
        except IndexError: raise IRaise('IndexError', 'Dimension out of range')
    def m_dim(self): return len(self.val.shape)
    m_ndimension = m_dim
    def m_numel(self):
        r = ONE_D
        for x in self.sizes(): r = T.mul(r, x)
        return wrap(r)
    m_nelement = m_numel
    def length(self):
        return wrap(self.sizes()[0])

    def m_clone(self): return self.new(self.val)
    def m_contiguous(self): return self
    def m_type_as(self, o): return self
    def m_to(self, *a, **k): return self
    def m_int(self): return self.m_clone()
    def m_long(self): return self.m_clone()
    def m_double(self): return self
    def m_bool(self): return self.m_clone()
    def m_detach(self):
        return self.view(lambda v: v.with_(cut=True))
    def m_requires_grad_(self, f=True): return self

    def m_new_zeros(self, *s): return zeros(*s)
    def m_new_ones(self, *s): return t_ones(*s)
    def m_new_empty(self, *s): raise Unsupported('new_empty')

    def m_unsqueeze(self, d):
        n = self.ndim()
        if d < 0: d += n + 1
        def f(v):
            sh = list(v.shape); sh.insert(d, (ONE_D,))
            c = len(v.content())
            if not v.blocks and v.bat is None:
                return v.with_(shape=sh, bat=True if len(sh) == 3 else None)
            if d == 0:
                if v.bat: raise Unsupported('unsqueeze before the batch')
                return v.with_(shape=sh, bat=True)
            k = d - (1 if v.bat else 0)     # position among content axes
            if c == 0: raise Unsupported('unsqueeze of numbers')
            if c == 2: raise Unsupported('four dimensions')
            if k == 1: return v.with_(shape=sh, blocks={(i[0], 0): b for i, b in v.blocks.items()})
            return v.with_(shape=sh, blocks={(0, i[0]): p_t(poly(b)) for i, b in v.blocks.items()})
        r = self.view(f)
        r.back = lambda val: self.write(self.new(val).m_squeeze(d).val)
        return r

    def m_squeeze(self, d=None):
        n = self.ndim()
        if d is None:
            for k in reversed(range(n)):
                s = self.sizes()[k]
                if s is ONE_D: return self.m_squeeze(k).m_squeeze() 
                if not CUR.it.implied(T.ne(s, ONE_D)): raise Unsupported('squeeze of an unknown size')
            return self
        if d < 0: d += n
        s = self.sizes()[d]
        if s is not ONE_D:
            if CUR.it.decide(T.eq(s, ONE_D)): raise Unsupported('squeeze of a size that may be one')
            return self
        def f(v):
            sh = list(v.shape); del sh[d]
            if v.bat and d == 0: return v.with_(shape=sh, bat=False)
            if not v.blocks and v.bat is None: return v.with_(shape=sh)
            k = d - (1 if v.bat else 0)
            c = len(v.content())
            if c != 2: raise Unsupported('squeeze of numbers')
            if k == 1: return v.with_(shape=sh, blocks={(i[0],): b for i, b in v.blocks.items()})
            return v.with_(shape=sh, blocks={(i[1],): p_t(poly(b)) for i, b in v.blocks.items()})
        r = self.view(f)
        r.back = lambda val: self.write(self.new(val).m_unsqueeze(d).val)
        return r

    def m_transpose(self, a, b):
        n = self.ndim(); a %= n; b %= n
        if a == b: return self
        def f(v):
            sh = list(v.shape); sh[a], sh[b] = sh[b], sh[a]
            if not v.blocks and v.bat is None: return v.with_(shape=sh)
            if v.bat and 0 in (a, b): raise Unsupported('transpose of the batch')
            if len(v.content()) != 2: raise Unsupported('transpose')
            return v.with_(shape=sh, blocks={(j, i): p_t(poly(p)) for (i, j), p in v.blocks.items()})
        r = self.view(f)
        r.back = lambda val: self.write(self.new(val).m_transpose(a, b).val)
        return r
    m_permute = None
    def m_t(self):
        if self.ndim() > 2: raise IRaise('RuntimeError', 't() expects a tensor with <= 2 dimensions')
        if self.ndim() < 2: return self
        return self.m_transpose(0, 1)

    def m_bmm(self, o):
        if self.ndim() != 3 or o.ndim() != 3: raise IRaise('RuntimeError', 'batch1 must be a 3D tensor')
        return b_matmul(self, o)
    def m_mm(self, o): return b_matmul(self, o)
    def m_matmul(self, o): return b_matmul(self, o)
    def m_mv(self, o): return b_matmul(self, o)
    def m_mul(self, o): return self * o
    def m_div(self, o): return self / o
    def m_add(self, o): return self + o
    def m_sub(self, o): return self - o
    def m_neg(self): return -self
    def m_reciprocal(self): return b_recip(self)
    def m_add_(self, o): return self.inplace('+', o)
    def m_sub_(self, o): return self.inplace('-', o)
    def m_mul_(self, o): return self.inplace('*', o)
    def m_div_(self, o): return self.inplace('/', o)
    def m_inverse(self): return inverse(self)
    def m_dot(self, o):
        return b_matmul(self, o)
    def m_expand_as(self, o): return self.m_expand(*o.m_size())
    def m_expand(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, PList)): s = CUR.it.iter(s[0])
        cur = self.sizes()
        v = self.val
        if len(s) == len(cur) + 1 and not v.bat:
            return self.new(v.with_(shape=(axis(s[0]),) + v.shape, bat=True))
        if len(s) == len(cur) and v.bat and cur[0] is ONE_D:
            return self.new(v.with_(shape=(axis(s[0]),) + v.shape[1:]))
        raise Unsupported('expand')
    def m_repeat(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, PList)): s = CUR.it.iter(s[0])
        if not all(t_of(x) is ONE_D for x in s[1:]): raise Unsupported('repeat')
        v = self.val
        if len(s) == len(v.shape) + 1 and not v.bat: return self.new(v.with_(shape=(axis(s[0]),) + v.shape, bat=True))
        if len(s) == len(v.shape) and v.bat and seg_sum(v.shape[0]) is ONE_D: return self.new(v.with_(shape=(axis(s[0]),) + v.shape[1:]))
        if len(s) == len(v.shape) and not v.blocks and v.bat is None and seg_sum(v.shape[0]) is ONE_D: return self.new(v.with_(shape=(axis(s[0]),) + v.shape[1:]))
        raise Unsupported('repeat')
    def m_view(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, PList)): s = CUR.it.iter(s[0])
        if len(s) == 1 and t_of(s[0]) is T.num(-1, 'I'):
            v = self.val
            if v.bat and len(v.content()) == 1:
                r = self.new(v); r.flat = True; return r
            if not v.bat and len(v.shape) == 1: return self
        raise Unsupported('view')
    m_reshape = m_view
    m_flat = False
    def m_flatten(self): return self.m_view(-1)
    def m_zero_(self): self.write(self.val.with_(blocks={})); return self
    def m_fill_(self, x):
        if t_of(x) is T.num(0) or t_of(x) is T.num(0, 'I'): return self.m_zero_()
        raise Unsupported('fill_')
    def m_copy_(self, o): self.write(unify(self.val, o.val)[1]); return self
    def m_masked_scatter_(self, mask, src):
        w = self.val
        d, mask = diag_of_masked(w, mask, src)
        self.write(w.with_(blocks={**w.blocks, **d}, cut=w.cut or src.val.cut)); return self
    def m_index(self, k): return self.getitem(k)
    def m_fill_diagonal_(self, x): raise Unsupported('fill_diagonal_')
    def m_diag(self): return t_diag(self)
    def m_diag_embed(self): return t_diag(self)
    def m_sum(self, *a): raise Unsupported('sum')
    def m_item(self): raise Unsupported('item of a block tensor')

    # ---- indexing
    def getitem(self, key):
        if isinstance(key, BT): return Masked(self, key)
        if not isinstance(key, tuple): key = (key,)
        key, n = self.fill(key)
        r = self
        drop = []
        for d, k in enumerate(key):
            if isinstance(k, slice):
                if k.step not in (None, 1): raise Unsupported('slice step')
                lo, hi = self.range_(k, self.sizes()[d])
                if lo is Z and (hi is None or eqz(hi, self.sizes()[d])): continue
                r = r.view(cutter(d, lo, hi))
            elif isinstance(k, (int, SV)) and not isinstance(k, bool):
                if not (t_of(k) is Z or t_of(k) is T.num(-1, 'I')) or self.sizes()[d] is not ONE_D: raise Unsupported('row of a block tensor')
                drop.append(d)
            else: raise Unsupported('index of a block tensor')
        if not drop and r is not self: r.part = (self, key)
        for d in reversed(drop): r = r.m_squeeze(d)
        return r

    def fill(self, key):
        n = self.ndim()
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (n - len(key) + 1) + key[p + 1:]
        if any(k is None for k in key): raise Unsupported('None in an index')
        if len(key) > n: raise IRaise('IndexError', 'too many indices')
        return key + (slice(None),) * (n - len(key)), n

    def range_(self, sl, size):
        def b(x, d):
            if x is None: return d
            t = t_of(x)
            if t.sort != 'I': raise Unsupported('slice bound')
            if T.isnum(t):
                v = int(T.val(t))
                if v < 0: t = T.add(size, t)
            else:
                it = CUR.it
                if it.implied(T.lt(t, Z)): t = T.add(size, t)
                elif not it.implied(T.le(Z, t)): raise Unsupported('slice bound of unknown sign')
            if implied_le(t, size): return t
            if implied_le(size, t): return size
            raise Unsupported('slice bound of unknown size')
        return b(sl.start, Z), b(sl.stop, size)

    def setitem(self, key, o):
        if self.tf is not None:
            if self.part is None and self.back is None: raise Unsupported('item assignment through a view')
            c = self.new(self.val); c.setitem(key, o); self.write(c.val); return
        if isinstance(key, BT):
            if isinstance(o, Masked): o = o.result
            d, _ = diag_of_masked(self.val, key, o)
            self.write(self.val.with_(blocks={**self.val.blocks, **d})); return
        if not isinstance(key, tuple): key = (key,)
        key, n = self.fill(key)
        v = self.val
        rng = []
        for d, k in enumerate(key):
            if not isinstance(k, slice): raise Unsupported('item assignment')
            rng.append(self.range_(k, self.sizes()[d]))
        if v.bat is None: v = v.with_(bat=(o.val.bat if isinstance(o, BT) and o.ndim() == n and o.val.bat is not None else n == 3))
        c0 = 1 if v.bat else 0
        if c0 and not (eqz(rng[0][0], Z) and eqz(rng[0][1], seg_sum(v.shape[0]))): raise Unsupported('assignment to part of a batch')
        sel = []
        for ax in range(len(v.content())):
            sizes, a, b = bounds(v.content()[ax], *rng[ax + c0])
            v = refine(v, ax, sizes); sel.append((a, b))
        if is_scalar(o):
            t = T.toR(t_of(o))
            if not (T.isnum(t) and T.val(t) == 0): raise Unsupported('constant block')
            nb = {i: p for i, p in v.blocks.items() if not all(a <= i[x] < b for x, (a, b) in enumerate(sel))}
            self.write(v.with_(blocks=nb)); return
        w = o.val
        if len(w.shape) < len(v.shape) and v.bat and not w.bat: w = w.with_(shape=(v.shape[0],) + w.shape, bat=True)
        if len(w.shape) != len(v.shape): raise Unsupported('assignment of another dimension')
        if w.bat is None: w = w.with_(bat=v.bat)
        if bool(w.bat) != bool(v.bat): raise Unsupported('assignment: batch')
        for ax in range(len(v.content())):
            a, b = sel[ax]
            tgt = v.content()[ax][a:b]
            cm = common(tgt, w.content()[ax])
            w = refine(w, ax, cm)
            if cm != tuple(tgt):
                v = refine(v, ax, v.content()[ax][:a] + cm + v.content()[ax][b:])
                sel[ax] = (a, a + len(cm))
        nb = {i: p for i, p in v.blocks.items() if not all(a <= i[x] < b for x, (a, b) in enumerate(sel))}
        for i, p in w.blocks.items(): nb[tuple(k + sel[x][0] for x, k in enumerate(i))] = p
        self.write(v.with_(blocks=nb, cut=v.cut or w.cut))

    def iterate(self): raise Unsupported('iteration over a block tensor')
    def __eq__(self, o): return self is o
    def __hash__(self): return id(self)


class Masked:
    """X[mask] with the identity as mask: the diagonal"""
    def __init__(self, x, mask): self.x, self.mask, self.result = x, mask, None
    def inplace(self, op, o):
        v = self.x.val
        s = {'+': 1, '-': -1}.get(op)
        if s is None: raise Unsupported('masked ' + op)
        d, _ = diag_of_masked(v, self.mask, o)
        for i in list(d): d[i] = p_add(poly(v.blocks.get(i, Poly())), poly(d[i]), Fraction(s))
        self.result = ('blocks', d)
        return self


def diag_of_masked(v, mask, src):
    m = mask.val
    if isinstance(src, tuple) and src[0] == 'blocks': return src[1], mask
    if len(m.content()) != 2 or not m.bat or not v.bat: raise Unsupported('mask')
    if not eqz(seg_sum(m.shape[0]), seg_sum(v.shape[0])): raise IRaise('RuntimeError', 'mask of another batch')
    if not (eqz(seg_sum(m.content()[0]), seg_sum(v.content()[0])) and eqz(seg_sum(m.content()[1]), seg_sum(v.content()[1]))): raise IRaise('RuntimeError', 'mask of another size')
    if any(i != j or poly(b).key() != p_one().key() for (i, j), b in m.blocks.items()) or len(m.blocks) != len(m.content()[0]): raise Unsupported('mask is not the identity')
    if not isinstance(src, BT): raise Unsupported('masked source')
    if not getattr(src, 'flat', False): raise Unsupported('masked source is not flat')
    s = src.val
    if not eqz(seg_sum(s.shape[0]), seg_sum(v.shape[0])): raise Unsupported('masked source of another batch')
    segs = common(s.content()[0], v.content()[0])
    if segs != v.content()[0]: raise Unsupported('masked source')
    s = refine(s, 0, segs)
    return {(i[0], i[0]): diag_poly(poly(b)) for i, b in s.blocks.items()}, mask


def cutter(d, lo, hi):
    def f(v):
        if v.bat is None and not v.blocks:
            sh = list(v.shape); sh[d] = drop0((T.sub(hi, lo),))
            return v.with_(shape=sh)
        if v.bat and d == 0: raise Unsupported('part of a batch')
        ax = d - (1 if v.bat else 0)
        sizes, a, b = bounds(v.content()[ax], lo, hi)
        v = refine(v, ax, sizes)
        sh = list(v.shape); sh[d] = sizes[a:b]
        return v.with_(shape=sh, blocks={i[:ax] + (i[ax] - a,) + i[ax + 1:]: p for i, p in v.blocks.items() if a <= i[ax] < b})
    return f


def poly(b):
    if not isinstance(b, Poly): raise Unsupported('arithmetic on packed factors')
    return b


def map_val(v, f):
    return v.with_(blocks={i: f(poly(b)) for i, b in v.blocks.items()})


def unify(v, w):
    """two values of the same shape, cut alike"""
    if len(v.shape) != len(w.shape):
        # broadcasting of an unbatched matrix or vector over a batch
        if v.bat and not w.bat and len(w.shape) + 1 == len(v.shape): w = w.with_(shape=(v.shape[0],) + w.shape, bat=True)
        elif w.bat and not v.bat and len(v.shape) + 1 == len(w.shape): v = v.with_(shape=(w.shape[0],) + v.shape, bat=True)
        elif not v.blocks and not v.shape: v = v.with_(shape=w.shape, bat=w.bat)
        else: raise Unsupported('broadcasting')
    if v.bat is None: v = v.with_(bat=w.bat)
    if w.bat is None: w = w.with_(bat=v.bat)
    if bool(v.bat) != bool(w.bat): raise Unsupported('mixing batched and unbatched')
    if v.bat and not eqz(seg_sum(v.shape[0]), seg_sum(w.shape[0])):
        if seg_sum(w.shape[0]) is ONE_D: w = w.with_(shape=(v.shape[0],) + w.shape[1:])
        elif seg_sum(v.shape[0]) is ONE_D: v = v.with_(shape=(w.shape[0],) + v.shape[1:])
        else: raise IRaise('RuntimeError', 'batch sizes')
    for ax in range(len(v.content())):
        s, t = seg_sum(v.content()[ax]), seg_sum(w.content()[ax])
        if not eqz(s, t): raise Unsupported('broadcasting')
        c = common(v.content()[ax], w.content()[ax])
        v, w = refine(v, ax, c), refine(w, ax, c)
    return v, w


def b_add(a, b, sign):
    if is_scalar(b):
        t = t_of(b)
        if a.val.kind == 'piv':
            return a.new(a.val.with_(blocks={i: p.shift(T.mul(T.num(sign, 'I'), t)) for i, p in a.val.blocks.items()}))
        if T.isnum(t) and T.val(t) == 0: return a.new(a.val)
        c, s = split_coef(T.toR(t))
        v = a.val
        if len(v.content()) != 1: raise Unsupported('adding a number to a matrix')
        r = {}
        for i, n in enumerate(v.content()[0]):
            r[(i,)] = p_add(poly(v.blocks.get((i,), Poly())), p_scale(p_atom(ones(n)), T.toR(t)), Fraction(sign))
        return a.new(v.with_(blocks=r))
    v, w = unify(a.val, b.val)
    r = dict(v.blocks)
    for i, p in w.blocks.items(): r[i] = p_add(poly(r.get(i, Poly())), poly(p), Fraction(sign))
    return a.new(v.with_(blocks={i: p for i, p in r.items() if not isinstance(p, Poly) or p}, cut=v.cut or w.cut))


def b_mul(a, b):
    if is_scalar(b):
        t = T.toR(t_of(b))
        return a.new(map_val(a.val, lambda p: p_scale(p, t)))
    if isinstance(b, FT):
        t = b.scalar(); return a.new(map_val(a.val, lambda p: p_scale(p, t)))
    v, w = unify(a.val, b.val)
    if len(v.content()) != 1: raise Unsupported('elementwise product of matrices')
    r = {}
    for i, p in v.blocks.items():
        q = w.blocks.get(i)
        if q is not None: r[i] = p_mul(diag_poly(poly(p)), poly(q))
    return a.new(v.with_(blocks=r, cut=v.cut or w.cut))


def b_recip(a):
    v = a.val
    if len(v.content()) != 1: raise Unsupported('reciprocal of a matrix')
    r = {}
    for i in range(len(v.content()[0])):
        p = v.blocks.get((i,))
        if p is None: raise Unsupported('division by zero')
        r[(i,)] = recip(poly(p))
    return a.new(v.with_(blocks=r))


def b_div(a, b):
    if is_scalar(b):
        t = T.toR(t_of(b)); CUR.it.divisor(t)
        return a.new(map_val(a.val, lambda p: p_scale(p, T.div(R1, t))))
    if not a.val.blocks:
        v, w = unify(a.val, b.val); return a.new(v)
    return b_mul(b_recip(b), a)


def as_mat(v):
    """(rows, cols, blocks, was vector)"""
    c = v.content()
    if len(c) == 2: return c[0], c[1], v.blocks, False
    if len(c) == 1: return c[0], (ONE_D,), {(i[0], 0): b for i, b in v.blocks.items()}, True
    raise Unsupported('product of numbers')


def b_matmul(a, b):
    if not isinstance(b, BT): raise Unsupported('product with another kind of tensor')
    v, w = a.val, b.val
    if v.bat is None and len(v.shape) == 2: v = v.with_(bat=False)
    if w.bat is None and len(w.shape) == 2: w = w.with_(bat=False)
    if v.bat is None: v = v.with_(bat=len(v.shape) == 3)
    if w.bat is None: w = w.with_(bat=len(w.shape) == 3)
    # a batched vector in a product is a matrix of rows: (B, n) @ (n, m)
    for x in (v, w):
        if x.bat and len(x.content()) == 1: raise Unsupported('product of a batch of vectors')
    if v.bat or w.bat:
        sv, sw = (seg_sum(x.shape[0]) if x.bat else ONE_D for x in (v, w))
        if not eqz(sv, sw) and not (sv is ONE_D or sw is ONE_D): raise IRaise('RuntimeError', 'batch sizes')
        B = v.shape[0] if v.bat and sv is not ONE_D or not w.bat else w.shape[0]
    ra, ca, A, va = as_mat(v)
    if va:
        # vector times ...: a row
        ra, ca, A = (ONE_D,), v.content()[0], {(0, i[0]): p_t(poly(p)) for i, p in v.blocks.items()}
    rb, cb, Bk, vb = as_mat(w)
    cm = common(ca, rb)
    if cm != tuple(ca):
        v2 = refine(Val((ra, ca), False, A), 1, cm); A = v2.blocks
    if cm != tuple(rb):
        w2 = refine(Val((rb, cb), False, Bk), 0, cm); Bk = w2.blocks
    r = {}
    for (i, k), p in A.items():
        for (k2, j), q in Bk.items():
            if k == k2: r[i, j] = p_add(r.get((i, j), Poly()), p_mul(poly(p), poly(q)))
    r = {i: p for i, p in r.items() if p}
    if va and vb: sh, bl = (), {(): p for i, p in r.items()}
    elif va: sh, bl = (cb,), {(j,): p_t(p) for (i, j), p in r.items()}
    elif vb: sh, bl = (ra,), {(i,): p for (i, j), p in r.items()}
    else: sh, bl = (ra, cb), r
    bat = bool(v.bat or w.bat)
    if bat: sh = (B,) + tuple(sh)
    return a.new(Val(sh, bat, bl, v.cut or w.cut))


# ------------------------------------------------------------------ construction
def sizes_of(s):
    if len(s) == 1 and isinstance(s[0], (tuple, PList)): s = tuple(CUR.it.iter(s[0]))
    return [t_of(x) for x in s]


def zeros(*s, dtype=None, device=None, **kw):
    sh = tuple(drop0((x,)) for x in sizes_of(s))
    return BT(Val(sh, {0: False, 1: False, 2: None, 3: True}.get(len(sh)), {}))


def t_ones(*s, dtype=None, device=None, **kw):
    ss = sizes_of(s)
    if len(ss) == 1: return BT(Val((axis(ss[0]),), False, {(0,): p_atom(ones(ss[0]))}))
    if len(ss) == 2: return BT(Val((axis(ss[0]), axis(ss[1])), True, {(0,): p_atom(ones(ss[1]))}))
    raise Unsupported('ones')


def t_eye(n, m=None, dtype=None, device=None):
    if m is not None: raise Unsupported('eye')
    a = axis(n)
    return BT(Val((a, a), False, {(i, i): p_one() for i in range(len(a))}))


def t_tensor(x, dtype=None, device=None, **kw):
    x = CUR.it.force(x)
    if isinstance(x, BT): return x.m_detach().m_clone()
    if isinstance(x, (PList, tuple)) and not CUR.it.iter(x): return BT(Val(((),), False, {}))
    raise Unsupported('tensor of numbers')


def t_inttensor(x):
    x = CUR.it.force(x)
    if isinstance(x, Seq):
        q = T.var('#q', 'I')
        if T.eq(t_of(x.elem(q)), T.add(q, ONE_D)) is T.TRUE: return BT(Val((axis(x.n),), False, {(0,): Piv(None, Z)}, kind='piv'))
    raise Unsupported('integer tensor')


def t_cat(xs, dim=0, axis=None):
    if axis is not None: dim = axis
    xs = list(CUR.it.iter(xs))
    for x in xs:
        if not isinstance(x, BT): raise Unsupported('cat of other tensors')
    vs = [x.val for x in xs]
    vs = [v for v in vs if not (len(v.shape) == 1 and not v.shape[0] and any(len(u.shape) > 1 for u in vs))]
    n = max(len(v.shape) for v in vs)
    if any(len(v.shape) != n for v in vs): raise IRaise('RuntimeError', 'Tensors must have same number of dimensions')
    dim %= n
    bats = {v.bat for v in vs if v.bat is not None}
    if len(bats) > 1: raise Unsupported('cat of batched and unbatched tensors')
    bat = bats.pop() if bats else (None if n == 2 else n == 3)
    vs = [v.with_(bat=bat) for v in vs]
    if bat is None: 
        if all(not v.blocks for v in vs):
            sh = list(vs[0].shape); sh[dim] = tuple(s for v in vs for s in v.shape[dim]); return BT(vs[0].with_(shape=sh))
    if bat and dim == 0: raise Unsupported('cat of batches')
    ax0 = dim - (1 if bat else 0)
    nc = n - (1 if bat else 0)
    for ax in range(nc):
        if ax == ax0: continue
        cm = vs[0].content()[ax]
        for v in vs[1:]:
            if not eqz(seg_sum(cm), seg_sum(v.content()[ax])): raise IRaise('RuntimeError', 'Sizes of tensors must match')
            cm = common(cm, v.content()[ax])
        vs = [refine(v, ax, cm) for v in vs]
    if bat:
        for v in vs:
            if not eqz(seg_sum(v.shape[0]), seg_sum(vs[0].shape[0])): raise IRaise('RuntimeError', 'cat: batch sizes')
    bl = {}; off = 0; segs = ()
    for v in vs:
        for i, p in v.blocks.items(): bl[i[:ax0] + (i[ax0] + off,) + i[ax0 + 1:]] = p
        off += len(v.content()[ax0]); segs += v.content()[ax0]
    sh = list(vs[0].shape); sh[dim] = segs
    return BT(Val(sh, bat, bl, any(v.cut for v in vs), vs[0].kind))


def t_diag(x):
    v = x.val
    if len(v.content()) != 1: raise Unsupported('diag of a matrix')
    a = v.content()[0]
    sh = (a, a)
    return BT(Val(((v.shape[0],) if v.bat else ()) + sh, v.bat, {(i[0], i[0]): diag_poly(poly(p)) for i, p in v.blocks.items()}, v.cut))


def square(v):
    c = v.content()
    if len(c) != 2 or len(c[0]) != len(c[1]) or not all(eqz(a, b) for a, b in zip(*c)): 
        if len(c) == 2 and eqz(seg_sum(c[0]), seg_sum(c[1])):
            cm = common(c[0], c[1]); v = refine(refine(v, 0, cm), 1, cm); return v
        raise IRaise('RuntimeError', 'square matrix expected')
    return v


def full_val(v, env):
    """numeric value of a block matrix or vector"""
    r, c, bl, vec = as_mat(v)
    nr, nc_ = [env.size(x) for x in r], [env.size(x) for x in c]
    out = np.zeros((sum(nr), sum(nc_)))
    for (i, j), p in bl.items():
        a, b = sum(nr[:i]), sum(nc_[:j])
        if isinstance(p, Packed): out[a:a + nr[i], b:b + nc_[j]] = p.k.packed(env)[0]
        else: out[a:a + nr[i], b:b + nc_[j]] = p_val(p, env, (r[i], c[j]))
    return out


def block_of(x, i, segs, env):
    n = [env.size(s) for s in segs]
    return x[sum(n[:i]):sum(n[:i + 1])]


_inv = {}


def inverse(x):
    """the inverse N of a block matrix P: N P = P N = 1"""
    v = square(x.val)
    if len(v.content()[0]) == 1 and v.blocks:
        p = poly(v.blocks[0, 0])
        if len(p.d) == 1:
            (s, w), c = next(iter(p.d.items()))
            if s is R1 and w and all(a.inv is not None for a in w): return x.new(v.with_(blocks={(0, 0): norm_word(1 / c, R1, tuple(a.inv for a in reversed(w)))}))
    if len(v.content()[0]) == 0: return x.new(v)
    segs = v.content()[0]
    key = (segs, frozenset((i, poly(p).key()) for i, p in v.blocks.items()))
    n = len(segs)
    if key not in _inv:
        def num(env, i, j):
            M = env.vals.get(('inv', key))
            if M is None: M = env.vals['inv', key] = np.linalg.inv(full_val(v, env))
            s = [env.size(q) for q in segs]
            return M[sum(s[:i]):sum(s[:i + 1]), sum(s[:j]):sum(s[:j + 1])]
        N = {(i, j): Atom('N%d_%d%d' % (len(_inv), i, j), segs[i], segs[j], lambda env, i=i, j=j: num(env, i, j)) for i in range(n) for j in range(n)}
        hy = []
        for i in range(n):
            for j in range(n):
                l = r = Poly()
                for k in range(n):
                    p = v.blocks.get((i, k)); q = v.blocks.get((k, j))
                    if p: l = p_add(l, p_mul(p, p_atom(N[k, j])))
                    if q: r = p_add(r, p_mul(p_atom(N[i, k]), q))
                if i == j: l, r = p_add(l, p_one(), Fraction(-1)), p_add(r, p_one(), Fraction(-1))
                hy += [l, r]
        _inv[key] = (N, hy)
    N, hy = _inv[key]
    given(hy)
    CUR.it.used_specs['torch.inverse: the inverse of an invertible matrix'] = 1
    return x.new(Val(((v.shape[0],) if v.bat else ()) + (segs, segs), v.bat, {i: p_atom(a) for i, a in N.items()}, v.cut))


def facts(it):
    """matrix equations (polynomials that are zero) that hold on this path"""
    return it.__dict__.get('blk_facts', ())


def given(ps):
    it = CUR.it
    ps = [p for p in ps if p]
    if ps: it.put_in(it, it.__dict__, 'blk_facts', facts(it) + tuple(ps))


_lus = {}


def lu_factor(x, pivot=True):
    v = square(x.val)
    if len(v.content()[0]) != 1: raise Unsupported('factorisation of a block matrix')
    n = v.content()[0][0]
    p = poly(v.blocks.get((0, 0), Poly()))
    key = (n, p.key())
    if key not in _lus: _lus[key] = LU(p, n)
    k = _lus[key]
    CUR.it.used_specs['torch.linalg.lu_factor: P L U of an invertible matrix, packed factors and 1-based pivots'] = 1
    B = (v.shape[0],) if v.bat else ()
    return (BT(Val(B + v.content(), v.bat, {(0, 0): Packed(k)}, v.cut)), BT(Val(B + (v.content()[0],), v.bat, {(0,): Piv(k, Z)}, kind='piv')))


def unpack(data, piv, unpack_data=True, unpack_pivots=True):
    """what efficient_btriunpack returns"""
    v = data.val
    if len(v.content()[0]) != 1 or not isinstance(v.blocks.get((0, 0)), Packed): raise Unsupported('unpacking other data')
    k = v.blocks[0, 0].k
    sh = v.shape
    P = L = U = None
    if unpack_data:
        L = BT(Val(sh, v.bat, {(0, 0): p_atom(k.L)}, v.cut)); U = BT(Val(sh, v.bat, {(0, 0): p_atom(k.U)}, v.cut))
    if unpack_pivots:
        w = piv.val
        if len(w.content()[0]) != 1: raise Unsupported('pivots')
        b = w.blocks[(0,)]
        if not eqz(b.off, Z): raise IRaise('IndexError', 'pivots out of range')
        if not eqz(w.content()[0][0], v.content()[0][0]): raise Unsupported('pivots of another size')
        P = BT(Val(sh, v.bat, {(0, 0): p_one() if b.k is None else p_atom(b.k.P)}))
    return P, L, U


_cnt = [0]


def perm_num(piv, segs, env):
    """numeric 0-based pivots of a pivot vector"""
    out = []
    for i, s in enumerate(segs):
        n = env.size(s); b = piv.blocks[(i,)]
        off = env.size(b.off) if isinstance(b.off, T.Term) else b.off
        base = np.arange(n) if b.k is None else b.k.packed(env)[1]
        out += [int(x) + off for x in base]
    return np.array(out)


def lu_solve(data, piv, b):
    v, w, r = data.val, piv.val, b.val
    if len(v.shape) != len(r.shape): raise Unsupported('lu_solve: dimensions')
    if not eqz(seg_sum(v.content()[1]), seg_sum(r.content()[0])): raise IRaise('RuntimeError', 'lu_solve: sizes')
    if v.bat:
        B = [seg_sum(x.shape[0]) for x in (v, r)]
        if not eqz(*B): raise IRaise('RuntimeError', 'lu_solve: batches')
    v = square(v); segs = v.content()[0]
    if w.content()[0] != segs: w = refine(w, 0, segs)
    if r.bat is None: r = r.with_(bat=v.bat)
    r = refine(r, 0, common(segs, r.content()[0]))
    if r.content()[0] != segs: raise Unsupported('lu_solve: blocks')
    n = len(segs)
    CUR.it.used_specs['torch.linalg.lu_solve: X with P L U X = B for packed factors and pivots'] = 1
    cut = v.cut or r.cut
    if n == 1 and isinstance(v.blocks.get((0, 0)), Packed):
        k = v.blocks[0, 0].k; p = w.blocks[(0,)]
        if p.k is k and eqz(p.off, Z) and k.word() is not None:
            s = k.solve_poly()
            return b.new(r.with_(blocks={i: p_mul(s, poly(q)) for i, q in r.blocks.items()}, cut=cut))
    # the solution is a fresh matrix X with P L U X = B
    cols = r.content()[1]
    _cnt[0] += 1; tag = _cnt[0]
    def num(env, i, j):
        X = env.vals.get(('lus', tag))
        if X is None:
            import scipy.linalg as sl
            try: X = sl.lu_solve((full_val(v, env), perm_num(w, segs, env)), full_val(r.with_(bat=False, shape=r.content()), env))
            except Exception: X = np.full((sum(env.size(s) for s in segs), sum(env.size(s) for s in cols)), 1e3)
            env.vals['lus', tag] = X
        s = [env.size(q) for q in segs]; c = [env.size(q) for q in cols]
        return X[sum(s[:i]):sum(s[:i + 1]), sum(c[:j]):sum(c[:j + 1])]
    v0 = v.with_(bat=False, shape=v.content())
    v = v0
    X = {}
    for i in range(n):
        for j in range(len(cols)):
            X[i, j] = Atom('X%d_%d' % (tag, i), segs[i], cols[j], lambda env, i=i, j=j: num(env, i, j))
            if is_one(cols[j]): X[i, j].vec = X[i, j]
    # S = P L U blockwise
    ok = all(isinstance(v.blocks.get((i, i)), Packed) and eqz(w.blocks[(i,)].off, seg_sum(segs[:i])) for i in range(n))
    if ok:
        L, U, P = {}, {}, {}
        for i in range(n):
            k = v.blocks[i, i].k
            L[i, i], U[i, i] = p_atom(k.L), p_atom(k.U)
            kp = w.blocks[(i,)].k
            P[i] = p_one() if kp is None else p_atom(kp.P)
            for j in range(n):
                if j < i and (i, j) in v.blocks: L[i, j] = poly(v.blocks[i, j])
                if j > i and (i, j) in v.blocks: U[i, j] = poly(v.blocks[i, j])
        for i in range(n):
            for c in range(len(cols)):
                eq = p_scale(poly(r.blocks.get((i, c), Poly())), T.num(-1))
                for j in range(n):
                    S = Poly()
                    for m in range(n):
                        if (i, m) in L and (m, j) in U: S = p_add(S, p_mul(p_mul(P[i], L[i, m]), U[m, j]))
                    eq = p_add(eq, p_mul(S, p_atom(X[j, c])))
                given([eq])
    return b.new(Val(r.shape, r.bat, {i: p_atom(a) for i, a in X.items()}, cut))


def torch_mod():
    from .stubs import NS, TypeMark, Missing
    env = dict(Tensor=TypeMark('Tensor', lambda v: isinstance(v, (BT, FT))), double=DT['f64'], float64=DT['f64'], float32=DT['f32'], bool=DT['b'], strided='strided', long=DT['i64'],
               bmm=lambda a, b: a.m_bmm(b), matmul=lambda a, b: b_matmul(a, b), mm=lambda a, b: b_matmul(a, b), mv=lambda a, b: b_matmul(a, b), cat=t_cat, concat=t_cat,
               zeros=zeros, ones=t_ones, eye=t_eye, tensor=t_tensor, zeros_like=lambda x, **k: BT(x.val.with_(blocks={}, cut=False, kind='f')), IntTensor=t_inttensor,
               ones_like=lambda x, **k: t_ones(*x.m_size()), inverse=inverse, diag=t_diag, diag_embed=t_diag, is_tensor=lambda x: isinstance(x, BT), neg=lambda x: -x, reciprocal=b_recip,
               transpose=lambda x, a, b: x.m_transpose(a, b), t=lambda x: x.m_t(), unsqueeze=lambda x, d: x.m_unsqueeze(d), squeeze=lambda x, d=None: x.m_squeeze(d),
               add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b: a / b, clone=lambda x: x.m_clone(), get_default_dtype=lambda: DT['f32'], device=lambda *a, **k: 'cpu', set_default_dtype=lambda *a: None)
    m = NS('torch', **env)
    m.env['linalg'] = NS('torch.linalg', lu_factor=lu_factor, lu_solve=lu_solve, inv=inverse)
    m.env['autograd'] = NS('torch.autograd', Function=Missing('Function'))
    return m


# ------------------------------------------------------------------ proof
def certificate(goal, hyps, ignore=lambda w: False, rounds=4, limit=900):
    """coefficients c and words u, v with goal = sum c * u hyp v, modulo words that are ignored; True or False"""
    drop = lambda p: {k: c for k, c in p.d.items() if not ignore(k[1])}
    g = drop(goal)
    if not g: return True
    scalar = any(w and is_one(w[0].rows) for (s, w) in g)
    if scalar:
        more = []
        for h in hyps:
            t = p_t(h)
            if t.key() != h.key(): more.append(t)
        hyps = list(hyps) + more
    rows = []; have = set()
    support = set(g)
    seen = set()
    for _ in range(rounds):
        new = support - seen
        seen |= support
        for (s, w) in new:
            for w1 in orientations(w):
                for hi, h in enumerate(hyps):
                    for (s2, w2) in h.d:
                        for at in occurrences(w1, w2):
                            u, v = w1[:at], w1[at + len(w2):]
                            s3 = s if s2 is R1 else (R1 if s is s2 else None)
                            if s3 is None: s3 = T.div(s, s2)
                            k = (hi, u, v, s3)
                            if k in have or len(rows) > limit: continue
                            have.add(k)
                            r = p_mul(p_mul(Poly({(R1, u): Fraction(1)}), h), Poly({(R1, v): Fraction(1)}))
                            if s3 is not R1: r = p_scale(r, s3)
                            r = drop(r)
                            if r: rows.append(r); support |= set(r)
        if solve(rows, g): return True
        if support == seen: return False
    return False


def orientations(w):
    """the ways to write a product in which some factors are numbers: each may be transposed"""
    cuts = [0] + [i for i in range(1, len(w)) if is_one(w[i].rows)] + [len(w)]
    segs = [tuple(w[a:b]) for a, b in zip(cuts, cuts[1:]) if b > a]
    out = [()]
    for g in segs:
        alt = [g]
        if is_one(g[0].rows) and is_one(g[-1].cols):
            h = tuple(transposed(a) for a in reversed(g))
            if h != g: alt.append(h)
        out = [o + a for o in out for a in alt]
        if len(out) > 8: return [w]
    return out


def occurrences(w, m):
    """positions where m occurs in w"""
    n = len(m)
    for i in range(len(w) - n + 1):
        if w[i:i + n] == m: yield i


def solve(rows, g):
    """is g a rational combination of rows?  (Gaussian elimination)"""
    piv = {}
    def reduce(r):
        r = dict(r)
        while True:
            k = next((k for k in r if k in piv), None)
            if k is None: return r
            c = r[k]; b = piv[k]
            for q, x in b.items():
                y = r.get(q, 0) - c * x
                if y: r[q] = y
                else: r.pop(q, None)
    for r in rows:
        r = reduce(r)
        if r:
            k = next(iter(r)); c = r[k]
            r = {q: x / c for q, x in r.items()}
            for p in list(piv):
                if k in piv[p]:
                    c = piv[p][k]
                    for q, x in r.items():
                        y = piv[p].get(q, 0) - c * x
                        if y: piv[p][q] = y
                        else: piv[p].pop(q, None)
            piv[k] = r
    return not reduce(g)
