"""The symbolic tensor: a view into a store of terms (functional, possibly of symbolic size), with dtype and aliasing."""
from . import terms as T
from .base import *

Z = T.num(0, 'I')
DTYPES = {'f32': 3, 'f64': 4, 'f16': 2, 'i64': 1, 'b': 0}


class DType:
    def __init__(self, name): self.name = name
    def __repr__(self): return 'torch.' + self.name


DT = {n: DType(n) for n in DTYPES}


def dim(x):
    """normalise a size: int or integer Term"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, SV): x = x.t
    if isinstance(x, T.Term):
        if x.op == 'num': return int(x.args[0])
        return x
    raise Unsupported('size %r' % (x,))


def tt(d): return T.num(d, 'I') if isinstance(d, int) else d


def same(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    c = T.eq(tt(a), tt(b))
    return CUR.it.permissive or CUR.it.implied(c)


def shape_eq(s, t): return len(s) == len(t) and all(same(a, b) for a, b in zip(s, t))


class BaseV:
    def __init__(self, fn): self.fn = fn; self.memo = {}
    def at(self, ix):
        r = self.memo.get(ix)
        if r is None:
            r = self.memo[ix] = self.fn(*ix)
        return r


class WriteV:
    """prev, overwritten with val where match holds"""
    def __init__(self, prev, match, val): self.prev, self.match, self.val = prev, match, val; self.memo = {}
    def at(self, ix):
        r = self.memo.get(ix)
        if r is None:
            m = self.match(*ix)
            if m is T.FALSE: r = self.prev.at(ix)
            elif m is T.TRUE: r = self.val(*ix)
            else:
                st = CUR.it.status(m) if CUR.it.eager else None
                if st is True: r = self.val(*ix)
                elif st is False: r = self.prev.at(ix)
                else: r = T.ite(m, self.val(*ix), self.prev.at(ix))
            if m.op == 'bool': self.memo[ix] = r
        return r


class Store(Host):
    def __init__(self, shape, ver, dtype):
        Host.__init__(self)
        self.__dict__.update(shape=tuple(shape), ver=ver, dtype=dtype, frozen=False)


def ints(n): return [T.num(k, 'I') for k in range(n)]


class FT:
    """tensor value"""
    ident = None            # (owner, index) of an element of a list of distinct objects: identity is that of the index
    def __init__(self, store, shape, vmap):
        self.store, self.shape_, self.vmap = store, tuple(shape), vmap

    # ---- construction
    @staticmethod
    def fn(shape, f, dtype):
        shape = tuple(dim(s) for s in shape)
        if all(isinstance(s, int) for s in shape):
            n = 1
            for s in shape: n *= s
            if n > 4000: raise Unsupported('large tensor')
            tab = {}
            def rec(pre, rest):
                if not rest: tab[pre] = f(*pre); return
                for k in ints(rest[0]): rec(pre + (k,), rest[1:])
            rec((), shape)
            g = lambda *ix: lookup(tab, ix, shape)
            st = Store(shape, BaseV(g), dtype)
        else:
            st = Store(shape, BaseV(f), dtype)
        return FT(st, shape, tuple((Z, k) for k in range(len(shape))))

    @staticmethod
    def const(x, dtype='f64', shape=()):
        t = t_of(x); t = numeric(t) if dtype not in ('b',) else t
        if dtype in ('f32', 'f64', 'f16'): t = T.toR(t)
        if dtype == 'b' and t.sort != 'B': t = truth_term(t)
        return FT.fn(shape, lambda *ix: t, dtype)

    def __repr__(self): return 'FT%r:%s' % (self.shape_, self.dtype_)

    @property
    def dtype_(self): return self.store.dtype

    def at(self, *ix):
        return self.store.ver.at(tuple(T.add(o, ix[v]) if v is not None else o for o, v in self.vmap))

    def snap(self):
        """the value now, as a function"""
        ver, vmap = self.store.ver, self.vmap
        return lambda *ix: ver.at(tuple(T.add(o, ix[v]) if v is not None else o for o, v in vmap))

    def frozen_copy(self):
        f = self.snap()
        r = FT.fn(self.shape_, f, self.dtype_)
        r.store.__dict__['frozen'] = True
        return r

    def terms(self):
        """all entries, concrete shapes only"""
        out = []
        def rec(pre, rest):
            if not rest: out.append(self.at(*pre)); return
            if not isinstance(rest[0], int): raise Unsupported('entries of a symbolic size')
            for k in ints(rest[0]): rec(pre + (k,), rest[1:])
        rec((), self.shape_)
        return out

    def scalar(self):
        t = self.terms()
        if len(t) != 1: raise IRaise('RuntimeError', 'one element expected')
        return t[0]

    # ---- views
    def index(self, key):
        if hasattr(key, 'items_') and all(is_scalar(x) and not isinstance(x, bool) for x in key.items_()): return self.gather_(0, key.items_())
        if isinstance(key, FT) and key.dtype_ == 'b' and key.shape_ == () == self.shape_: return Masked(key, (), self.snap(), self.dtype_)
        if not isinstance(key, tuple): key = (key,)
        nd = len(self.shape_)
        n_spec = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (nd - n_spec) + key[p + 1:]
        specs = []; d = 0; shape = []
        off = [None] * nd; vd = [None] * nd
        for k in key:
            if k is None: shape.append(1); continue
            if d >= nd: raise IRaise('IndexError', 'too many indices')
            size = self.shape_[d]
            if isinstance(k, slice):
                st, ln = self.slice_(k, size)
                off[d] = st; vd[d] = len(shape); shape.append(ln)
            elif isinstance(k, (int, SV)) and not isinstance(k, bool):
                off[d] = self.norm_index(k, size); vd[d] = None
            elif isinstance(k, FT) and k.dtype_ == 'b' and len(key) == 1 and shape_eq(k.shape_, self.shape_): return Masked(k, self.shape_, self.snap(), self.dtype_)
            elif isinstance(k, FT) and k.shape_ == () and k.dtype_ == 'i64':
                off[d] = self.norm_index(wrap(k.scalar()), size); vd[d] = None
            else: return None
            d += 1
        while d < nd:
            off[d] = Z; vd[d] = len(shape); shape.append(self.shape_[d]); d += 1
        vmap = tuple((T.add(o, off[v]) if v is not None else o, None if v is None else vd[v]) for o, v in self.vmap)
        return FT(self.store, shape, vmap)

    def norm_index(self, k, size):
        k = t_of(k); s = tt(size)
        if T.isnum(k) and isinstance(size, int):
            v = int(T.val(k))
            if not -size <= v < size: raise IRaise('IndexError', 'index %d is out of bounds' % v)
            return T.num(v % size, 'I')
        it = CUR.it
        if it.implied(T.le(Z, k)):
            it.oblige('index in bounds', T.lt(k, s)); return k
        if it.implied(T.lt(k, Z)):
            it.oblige('index in bounds', T.le(T.neg(s), k)); return T.add(k, s)
        raise Unsupported('index of unknown sign')

    def slice_(self, sl, size):
        if sl.step not in (None, 1): raise Unsupported('slice step')
        s = tt(size)
        def bound(x, default):
            if x is None: return default
            t = t_of(x)
            if T.isnum(t) and isinstance(size, int):
                v = int(T.val(t))
                if v < 0: v = max(0, v + size)
                return T.num(min(v, size), 'I')
            it = CUR.it
            if it.permissive: return t
            if it.implied(T.and_(T.le(Z, t), T.le(t, s))): return t
            if it.implied(T.and_(T.lt(t, Z), T.le(Z, T.add(t, s)))): return T.add(t, s)
            if it.implied(T.le(Z, t)):
                return T.min_(t, s)
            raise Unsupported('slice bound of unknown sign')
        a, b = bound(sl.start, Z), bound(sl.stop, s)
        ln = T.sub(b, a)
        if not T.isnum(ln) and not CUR.it.permissive and not CUR.it.implied(T.le(Z, ln)):
            raise Unsupported('slice of unknown length')
        if T.isnum(ln) and T.val(ln) < 0: ln = Z
        return a, dim(ln)

    def assign(self, value):
        """in-place write of the whole view"""
        st = self.store
        if st.frozen: raise Unsupported('in-place write into a shared tensor')
        if not isinstance(value, FT): value = FT.const(value, st.dtype if st.dtype != 'b' else 'b')
        g = broadcast_to(value, self.shape_)
        vmap, shape = self.vmap, self.shape_
        isf = st.dtype.startswith('f')
        if all(v is None or (o is Z and same(shape[v], st.shape[i])) for i, (o, v) in enumerate(vmap)) and len({v for o, v in vmap}) == len(vmap) and all(v is not None for o, v in vmap):
            inv = [v for o, v in vmap]
            new = BaseV(lambda *ix: g(*[ix[inv.index(j)] if j in inv else Z for j in range(len(shape))]))
            if all(isinstance(s, int) for s in st.shape):
                c = FT.fn(st.shape, lambda *ix: new.at(ix), st.dtype); new = c.store.ver
            st.put('ver', new); return
        def match(*ix):
            cs = []; first = {}
            for i, (o, v) in enumerate(vmap):
                if v is not None and v in first: cs.append(T.eq(T.sub(ix[i], o), T.sub(ix[first[v]], vmap[first[v]][0])))
                first.setdefault(v, i)
                if v is None: cs.append(T.eq(ix[i], o))
                else:
                    cs.append(T.le(o, ix[i])); cs.append(T.lt(ix[i], T.add(o, tt(shape[v]))))
            return T.and_(*cs)
        def val(*ix):
            vi = [Z] * len(shape)
            for i, (o, v) in enumerate(vmap):
                if v is not None: vi[v] = T.sub(ix[i], o)
            return g(*vi)
        w = WriteV(st.ver, match, val)
        w.vmap, w.shape = vmap, shape
        st.put('ver', w)

    # ---- operators
    def _ew(self, o, f, swap=False, out=None):
        if isinstance(o, FT) or is_scalar(o):
            return ew2(o, self, f, out) if swap else ew2(self, o, f, out)
        return NotImplemented
    def __add__(self, o): return self._ew(o, T.add)
    def __radd__(self, o): return self._ew(o, T.add, True)
    def __sub__(self, o): return self._ew(o, T.sub)
    def __rsub__(self, o): return self._ew(o, T.sub, True)
    def __mul__(self, o): return self._ew(o, T.mul)
    def __rmul__(self, o): return self._ew(o, T.mul, True)
    def __truediv__(self, o): return self._ew(o, pydiv)
    def __rtruediv__(self, o): return self._ew(o, pydiv, True)
    def __matmul__(self, o): return matmul(self, o)
    def __neg__(self): return ew1(self, T.neg)
    def __abs__(self): return ew1(self, T.abs_)
    def __pow__(self, n):
        if isinstance(n, float) and n == int(n): n = int(n)
        if isinstance(n, int): return ew1(self, lambda t: T.powi(t, n))
        if n == .5: return ew1(self, T.sqrt)
        raise Unsupported('power')
    def __lt__(self, o): return self._ew(o, T.lt, out='b')
    def __le__(self, o): return self._ew(o, T.le, out='b')
    def __gt__(self, o): return self._ew(o, T.gt, out='b')
    def __ge__(self, o): return self._ew(o, T.ge, out='b')
    def eq_(self, o): return self._ew(o, T.eq, out='b')
    def ne_(self, o): return self._ew(o, T.ne, out='b')
    def inplace(self, op, o):
        import operator as O
        r = {'+': O.add, '-': O.sub, '*': O.mul, '/': O.truediv}[op](self, o)
        if not shape_eq(r.shape_, self.shape_): raise IRaise('RuntimeError', 'in-place shape')
        self.assign(r)
        return self

    # ---- attributes and methods seen by the interpreted code
    def getattr(self, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None: return m
        if name == 'shape': return tuple(wrap(tt(s)) for s in self.shape_)
        if name == 'dtype': return DT[self.dtype_]
        if name == 'requires_grad':
            return wrap(T.var('inputs_require_grad', 'B')) if any(has_input(t) for t in self.sample()) else False
        if name in ('is_cuda',): return False
        if name == 'device': return 'cpu'
        if name == 'data': return self.m_detach()
        if name == 'T': return self.m_t()
        raise Unsupported('tensor attribute ' + name)

    def sample(self):
        if all(isinstance(s, int) for s in self.shape_): return self.terms()
        return [self.at(*[T.var('ix%d' % k, 'I') if not isinstance(s, int) else Z for k, s in enumerate(self.shape_)])]

    def m_size(self, d=None):
        if d is None: return tuple(wrap(tt(s)) for s in self.shape_)
        return wrap(tt(self.shape_[d]))
    def m_dim(self): return len(self.shape_)
    m_ndimension = m_dim
    def m_nelement(self):
        r = T.num(1, 'I')
        for s in self.shape_: r = T.mul(r, tt(s))
        return wrap(r)
    m_numel = m_nelement
    def m_item(self):
        t = self.scalar()
        return wrap(T.det(t)) if t.sort == 'R' else wrap(t)
    def m_tolist(self):
        raise Unsupported('tolist')
    def m_detach(self): return self.detached(FT(self.store, self.shape_, self.vmap))
    def detached(self, v):
        f = v.snap()
        r = FT.fn(v.shape_, lambda *ix: T.det(f(*ix)), v.dtype_)
        r.store.__dict__['frozen'] = True       # shares memory with v: writes are not tracked
        return r
    def m_clone(self): return FT.fn(self.shape_, self.snap(), self.dtype_)
    def m_contiguous(self): return self
    def m_requires_grad_(self, f=True): return self
    def m_new_tensor(self, x, dtype=None, device=None, requires_grad=False): return make_tensor(x, self.dtype_ if dtype is None else dtype.name, True)
    def m_new_zeros(self, *s): return FT.const(0, self.dtype_, sizes(s))
    def m_new_ones(self, *s): return FT.const(1, self.dtype_, sizes(s))
    def m_new_full(self, s, v): return FT.const(v, self.dtype_, sizes((s,)))
    def m_new_empty(self, *s):
        k = CUR.it.fresh_name('empty'); sh = sizes(s)
        ctx = tuple(CUR.it.loop_ix)
        return FT.fn(sh, lambda *ix: T.app(k, ctx + ix), self.dtype_)
    def m_zero_(self): self.assign(0); return self
    def m_fill_(self, v): self.assign(v); return self
    def m_copy_(self, o): self.assign(o); return self
    def m_add_(self, o): return self.inplace('+', o)
    def m_sub_(self, o): return self.inplace('-', o)
    def m_mul_(self, o): return self.inplace('*', o)
    def m_div_(self, o): return self.inplace('/', o)
    def m_unsqueeze(self, d):
        n = len(self.shape_)
        if d < 0: d += n + 1
        return FT(self.store, self.shape_[:d] + (1,) + self.shape_[d:], tuple((o, v if v is None or v < d else v + 1) for o, v in self.vmap))
    def m_squeeze(self, d=None):
        n = len(self.shape_)
        if d is not None and d < 0: d += n
        drop = [k for k in range(n) if (d is None or d == k) and (self.shape_[k] == 1 if isinstance(self.shape_[k], int) else not CUR.it.permissive and CUR.it.decide(T.eq(self.shape_[k], T.num(1, 'I'))))]
        keep = [k for k in range(n) if k not in drop]
        return FT(self.store, [self.shape_[k] for k in keep], tuple((o, None if v in drop else (keep.index(v) if v is not None else None)) for o, v in self.vmap))
    def m_transpose(self, a, b):
        n = len(self.shape_); a %= n; b %= n
        p = list(range(n)); p[a], p[b] = p[b], p[a]
        return FT(self.store, [self.shape_[k] for k in p], tuple((o, None if v is None else p.index(v)) for o, v in self.vmap))
    def m_t(self):
        return self.m_transpose(0, 1) if len(self.shape_) == 2 else self
    def m_permute(self, *p):
        p = list(p[0]) if len(p) == 1 else list(p)
        return FT(self.store, [self.shape_[k] for k in p], tuple((o, None if v is None else p.index(v)) for o, v in self.vmap))
    def m_reshape(self, *s):
        s = list(sizes(s))
        src = [k for k, z in enumerate(self.shape_) if z != 1]
        if -1 in s:
            tot = [z for z in self.shape_ if z != 1]; oth = [z for z in s if z not in (1, -1)]
            rest = list(tot)
            for z in oth:
                m = [q for q in rest if same(q, z)]
                if not m: raise Unsupported('reshape')
                rest.remove(m[0])
            if len(rest) > 1: raise Unsupported('reshape')
            s[s.index(-1)] = rest[0] if rest else 1
        dst = [k for k, z in enumerate(s) if z != 1]
        if len(src) != len(dst) or not all(same(self.shape_[a], s[b]) for a, b in zip(src, dst)):
            if all(isinstance(z, int) for z in self.shape_) and all(isinstance(z, int) for z in s):
                return reshape_general(self, s)
            raise Unsupported('reshape')
        vm = tuple((o, None if v is None or v not in src else dst[src.index(v)]) for o, v in self.vmap)
        return FT(self.store, s, vm)
    m_view = m_reshape
    def m_flatten(self): return self.m_reshape(-1)
    def m_expand(self, *s):
        s = list(sizes(s)); n = len(s) - len(self.shape_)
        sh = []; one = []
        for k, z in enumerate(s):
            if k < n: sh.append(z); continue
            q = self.shape_[k - n]
            if z == -1: z = q
            if q == 1 and z != 1: one.append(k - n)
            sh.append(z)
        return FT(self.store, sh, tuple((o, None if v is None or v in one else v + n) for o, v in self.vmap))
    def m_expand_as(self, o): return self.m_expand(*o.m_size())
    def m_repeat(self, *s):
        s = list(sizes(s)); n = len(s) - len(self.shape_)
        if n < 0: raise IRaise('RuntimeError', 'repeat: number of dimensions')
        f = self.snap(); old = (1,) * n + self.shape_
        sh = [q if r == 1 and isinstance(r, int) else r if q == 1 and isinstance(q, int) else dim(T.mul(tt(q), tt(r))) for q, r in zip(old, s)]
        def g(*ix): return f(*[ix[k] if isinstance(s[k], int) and s[k] == 1 else Z if isinstance(old[k], int) and old[k] == 1 else T.imod(ix[k], tt(old[k])) for k in range(n, len(s))])
        return FT.fn(sh, g, self.dtype_)
    def zero_t(self): return T.FALSE if self.dtype_ == 'b' else T.num(0) if self.dtype_[0] == 'f' else T.num(0, 'I')
    def m_triu(self, d=0):
        f = self.snap(); z = self.zero_t(); d = t_of(d)
        return FT.fn(self.shape_, lambda *ix: T.ite(T.le(T.add(ix[-2], d), ix[-1]), f(*ix), z), self.dtype_)
    def m_tril(self, d=0):
        f = self.snap(); z = self.zero_t(); d = t_of(d)
        return FT.fn(self.shape_, lambda *ix: T.ite(T.le(ix[-1], T.add(ix[-2], d)), f(*ix), z), self.dtype_)
    def m_triu_(self, d=0): self.assign(self.m_triu(d)); return self
    def m_tril_(self, d=0): self.assign(self.m_tril(d)); return self
    def m_diagonal(self, offset=0, dim1=0, dim2=1):
        n = len(self.shape_); dim1 %= n; dim2 %= n
        if offset != 0 or not same(self.shape_[dim1], self.shape_[dim2]): raise Unsupported('diagonal')
        rest = [k for k in range(n) if k not in (dim1, dim2)]
        return FT(self.store, [self.shape_[k] for k in rest] + [self.shape_[dim1]], tuple((o, None if v is None else len(rest) if v in (dim1, dim2) else rest.index(v)) for o, v in self.vmap))
    def m_fill_diagonal_(self, v): self.m_diagonal(0, -2, -1).assign(v); return self
    def m_index_select(self, d, ix): return self.gather_(d, ix)
    def gather_(self, d, ks):
        """rows (axis d) by a list of concrete indices"""
        f = self.snap(); d %= len(self.shape_)
        ks = [self.norm_index(k, self.shape_[d]) for k in ks]
        sh = self.shape_[:d] + (len(ks),) + self.shape_[d + 1:]
        return FT.fn(sh, lambda *ix: f(*(ix[:d] + (pick(ks, ix[d]),) + ix[d + 1:])), self.dtype_)
    def m_type_as(self, o): return self.cast(o.dtype_)
    def m_to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, FT): return self.cast(x.dtype_)
            if isinstance(x, DType): return self.cast(x.name)
        return self
    def m_type(self, t): return self.cast(t.name) if isinstance(t, DType) else _uns('type')
    def m_double(self): return self.cast('f64')
    def m_float(self): return self.cast('f32')
    def m_half(self): return self.cast('f16')
    def m_long(self): return self.cast('i64')
    def m_bool(self): return self.cast('b')
    def m_cpu(self): return self
    def m_cuda(self): return self
    def cast(self, d):
        if d == self.dtype_: return self
        f = self.snap()
        if d == 'b': g = lambda *ix: truth_term(f(*ix))
        elif d.startswith('f'): g = lambda *ix: T.toR(f(*ix))
        elif self.dtype_.startswith('f'): raise Unsupported('float to int')
        else: g = lambda *ix: f(*ix)
        return FT.fn(self.shape_, g, d)
    def m_dot(self, o):
        if not isinstance(o, FT) or len(self.shape_) != 1 or len(o.shape_) != 1: raise IRaise('RuntimeError', '1D tensors expected')
        if self.dtype_ != o.dtype_: raise IRaise('RuntimeError', 'dot : expected both vectors to have same dtype')
        return matmul(self, o)
    def m_matmul(self, o): return matmul(self, o)
    m_mm = m_mv = m_matmul
    def m_norm(self, p=2, dim=None, keepdim=False):
        if p not in (2, 'fro'): raise Unsupported('norm')
        if dim is not None: return ew1((self * self).m_sum(dim, keepdim), T.sqrt)
        return ew1(self.m_mul_all(), T.sqrt)
    def m_mul_all(self): return (self * self).m_sum()
    def m_sum(self, dim=None, keepdim=False):
        f = self.snap(); sh = self.shape_
        dt = self.dtype_ if self.dtype_ != 'b' else 'i64'
        if self.dtype_ == 'b': f = (lambda h: lambda *ix: T.ite(h(*ix), T.num(1, 'I'), T.num(0, 'I')))(f)
        if dim is None:
            if all(isinstance(s, int) for s in sh): r = T.add(T.num(0, 'R' if dt[0] == 'f' else 'I'), *FT.fn(sh, f, dt).terms())
            elif len(sh) == 1:
                bv = T.fresh_bv(); r = T.summ(bv, Z, tt(sh[0]), f(bv))
            else: raise Unsupported('sum')
            return FT.fn((), lambda: r, dt)
        dim %= len(sh)
        rest = sh[:dim] + sh[dim + 1:]
        def g(*ix):
            if keepdim: ix = ix[:dim] + ix[dim + 1:]
            if isinstance(sh[dim], int): return T.add(self.zero_t() if dt == self.dtype_ else T.num(0, 'I'), *[f(*(ix[:dim] + (k,) + ix[dim:])) for k in ints(sh[dim])])
            bv = T.fresh_bv(); return T.summ(bv, Z, tt(sh[dim]), f(*(ix[:dim] + (bv,) + ix[dim:])))
        return FT.fn(sh[:dim] + ((1,) if keepdim else ()) + sh[dim + 1:], g, dt)
    def m_mean(self): return self.m_sum() / self.m_nelement()
    def m_abs(self): return ew1(self, T.abs_)
    def m_sqrt(self): return ew1(self, T.sqrt)
    def m_sin(self): return ew1(self, T.sin)
    def m_cos(self): return ew1(self, T.cos)
    def m_neg(self): return -self
    def m_pow(self, n): return self ** n
    def m_add(self, o): return self + o
    def m_sub(self, o): return self - o
    def m_mul(self, o): return self * o
    def m_div(self, o): return self / o
    def m_max(self, dim=None, keepdim=False): return minmax(self, True, dim, keepdim)
    def m_min(self, dim=None, keepdim=False): return minmax(self, False, dim, keepdim)
    def m_amax(self, dim=None, keepdim=False): r = minmax(self, True, dim, keepdim); return r if dim is None else r[0]
    def m_amin(self, dim=None, keepdim=False): r = minmax(self, False, dim, keepdim); return r if dim is None else r[0]
    def m_bmm(self, o):
        if len(self.shape_) != 3 or len(o.shape_) != 3: raise IRaise('RuntimeError', 'batch1 must be a 3D tensor')
        if not same(self.shape_[0], o.shape_[0]): raise IRaise('RuntimeError', 'bmm: batch sizes') if isinstance(self.shape_[0], int) and isinstance(o.shape_[0], int) else Unsupported('bmm batch')
        return matmul(self, o)
    def m_masked_scatter_(self, m, src):
        masked_write(self, m, src, True); return self
    def m_masked_fill_(self, m, v): masked_write(self, m, v); return self
    def m_masked_select(self, m):
        r = self.index(m)
        return r if isinstance(r, Masked) else _uns('masked_select')
    def m_clamp(self, min=None, max=None):
        x = self
        if min is not None: x = ew2(x, min, T.max_)
        if max is not None: x = ew2(x, max, T.min_)
        return x
    def m_inverse(self): return inverse(self)
    def m_diag(self): return diag(self)
    def m_masked_fill(self, m, v): return ew2(m, self, lambda a, b: T.ite(a, T.toR(t_of(v)), b), self.dtype_)
    def m_any(self): return wrap(T.or_(*self.terms()))
    def m_all(self): return wrap(T.and_(*self.terms()))
    def m_numpy(self): raise Unsupported('numpy')
    def m_backward(self, *a): raise Unsupported('backward')
    def m_ger(self, o): return self.m_unsqueeze(1) * o.m_unsqueeze(0)
    m_outer = m_ger


def pick(ks, i):
    if T.isnum(i): return ks[int(T.val(i))]
    r = ks[-1]
    for j in reversed(range(len(ks) - 1)): r = T.ite(T.eq(i, T.num(j, 'I')), ks[j], r)
    return r


def _uns(x): raise Unsupported(x)


def has_input(t):
    """does the term depend on a variable on a differentiable path?"""
    if t.op == 'det': return False
    if t.op == 'var': return t is not T.PI and t.sort == 'R'
    if t.op == 'app': return t.sort == 'R'
    if t.op == 'ite': return has_input(t.args[1]) or has_input(t.args[2])
    if t.op in ('sum', 'forall'): return has_input(t.args[3])
    return any(has_input(c) for c in T.children(t))


def lookup(tab, ix, shape):
    r = tab.get(ix)
    if r is not None: return r
    # a symbolic index into a concrete table
    for d, i in enumerate(ix):
        if not T.isnum(i):
            ks = ints(shape[d])
            r = lookup(tab, ix[:d] + (ks[-1],) + ix[d + 1:], shape)
            for k in reversed(ks[:-1]):
                r = T.ite(T.eq(i, k), lookup(tab, ix[:d] + (k,) + ix[d + 1:], shape), r)
            return r
    raise IRaise('IndexError', 'index out of range')


def sizes(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)): s = s[0]
    elif len(s) == 1 and hasattr(s[0], 'items_'): s = s[0].items_()
    return tuple(-1 if (isinstance(x, int) and x == -1) else dim(x) for x in s)


def reshape_general(x, s):
    t = x.terms(); n = 1
    for z in s: n *= z
    if n != len(t): raise IRaise('RuntimeError', 'shape is invalid')
    def f(*ix):
        k = 0
        for z, i in zip(s, ix): k = k * z + int(T.val(i))
        return t[k]
    r = FT.fn(s, f, x.dtype_)
    r.store.__dict__['frozen'] = True
    return r


def promote(xs):
    """torch type promotion among tensors (dtype, ndim) and Python scalars"""
    cat = lambda d: 2 if d[0] == 'f' else 1 if d == 'i64' else 0
    dims = [x for x in xs if isinstance(x, FT) and x.shape_ != ()]
    zero = [x for x in xs if isinstance(x, FT) and x.shape_ == ()]
    def top(l):
        if not l: return None
        m = max(l, key=lambda d: DTYPES[d])
        if {'f16'} < set(l) and False: pass
        return m
    r = top([x.dtype_ for x in dims]); z = top([x.dtype_ for x in zero])
    if r is None: r = z
    elif z is not None and cat(z) > cat(r): r = z
    for x in xs:
        if not isinstance(x, FT):
            c = 'f' if (isinstance(x, float) or (isinstance(x, SV) and x.t.sort == 'R')) else 'i'
            if c == 'f' and cat(r) < 2: r = 'f32'
            if c == 'i' and r == 'b' and not isinstance(x, bool): r = 'i64'
    return r


def bshape(a, b):
    n = max(len(a), len(b)); out = []
    for k in range(n):
        x = a[k - n + len(a)] if k - n + len(a) >= 0 else 1
        y = b[k - n + len(b)] if k - n + len(b) >= 0 else 1
        if isinstance(x, int) and x == 1: out.append(y)
        elif isinstance(y, int) and y == 1: out.append(x)
        elif same(x, y): out.append(x)
        elif isinstance(x, int) and isinstance(y, int): raise IRaise('RuntimeError', 'shapes do not broadcast')
        else: raise Unsupported('broadcast of sizes not known to be equal: %r %r' % (x, y))
    return tuple(out)


def broadcast_to(x, shape):
    f = x.snap(); xs = x.shape_
    if not shape_eq(bshape(xs, shape), shape): 
        # a[...] = value with superfluous leading 1s
        while len(xs) > len(shape) and xs[0] == 1:
            x = x.m_squeeze(0) if True else x; f = x.snap(); xs = x.shape_
        if not shape_eq(bshape(xs, shape), shape): raise IRaise('RuntimeError', 'shape mismatch in assignment')
    o = len(shape) - len(xs)
    if o < 0:
        return broadcast_to(x.m_squeeze(0), shape)
    one = [isinstance(s, int) and s == 1 for s in xs]
    return lambda *ix: f(*[Z if one[k] else ix[k + o] for k in range(len(xs))])


def ew2(a, b, f, out=None):
    dt = out or promote([a, b])
    if not isinstance(a, FT):
        ta = numeric(t_of(a)); fb = b.snap(); return FT.fn(b.shape_, lambda *ix: f(ta, numeric(fb(*ix))), dt)
    if not isinstance(b, FT):
        tb = numeric(t_of(b)); fa = a.snap(); return FT.fn(a.shape_, lambda *ix: f(numeric(fa(*ix)), tb), dt)
    sh = bshape(a.shape_, b.shape_)
    ga, gb = broadcast_to(a, sh), broadcast_to(b, sh)
    return FT.fn(sh, lambda *ix: f(ga(*ix), gb(*ix)), dt)


def ew1(a, f, out=None):
    g = a.snap()
    return FT.fn(a.shape_, lambda *ix: f(g(*ix)), out or a.dtype_)


def dot_(n, fa, fb):
    if isinstance(n, int):
        return T.add(T.num(0), *[T.mul(fa(k), fb(k)) for k in ints(n)])
    bv = T.fresh_bv()
    return T.summ(bv, Z, tt(n), T.mul(fa(bv), fb(bv)))


def matmul(a, b):
    if a.dtype_ != b.dtype_: raise IRaise('RuntimeError', 'expected both to have the same dtype')
    fa, fb = a.snap(), b.snap(); sa, sb = a.shape_, b.shape_; dt = a.dtype_
    def chk(x, y):
        if not same(x, y):
            if isinstance(x, int) and isinstance(y, int): raise IRaise('RuntimeError', 'size mismatch')
            raise Unsupported('matmul sizes %r %r' % (x, y))
    if len(sa) == 1 and len(sb) == 1:
        chk(sa[0], sb[0]); return FT.fn((), lambda: dot_(sa[0], fa, fb), dt)
    if len(sa) == 2 and len(sb) == 1:
        chk(sa[1], sb[0]); return FT.fn((sa[0],), lambda i: dot_(sa[1], lambda k: fa(i, k), fb), dt)
    if len(sa) == 1 and len(sb) == 2:
        chk(sa[0], sb[0]); return FT.fn((sb[1],), lambda j: dot_(sa[0], fa, lambda k: fb(k, j)), dt)
    if len(sa) == 2 and len(sb) == 2:
        chk(sa[1], sb[0]); return FT.fn((sa[0], sb[1]), lambda i, j: dot_(sa[1], lambda k: fa(i, k), lambda k: fb(k, j)), dt)
    if len(sa) == 3 and len(sb) == 3:
        chk(sa[2], sb[1]); B = bshape(sa[:1], sb[:1])[0]
        one = lambda z: isinstance(z, int) and z == 1
        za, zb = one(sa[0]), one(sb[0])
        return FT.fn((B, sa[1], sb[2]), lambda e, i, j: dot_(sa[2], lambda k: fa(Z if za else e, i, k), lambda k: fb(Z if zb else e, k, j)), dt)
    raise Unsupported('batched matmul')


class MinMax(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])
    def getattr(self, k):
        if k in ('values', 'indices'): return getattr(self, k)
        raise IRaise('AttributeError', k)


_red = {}


def minmax(x, mx, d=None, keepdim=False):
    """max / min over one axis (values and indices) or over all"""
    it = CUR.it; sh = x.shape_; n = len(sh)
    if d is None:
        if all(isinstance(s, int) for s in sh): return reduce_minmax(x, T.max_ if mx else T.min_)
        over = list(range(n))
    else: over = [d % n]
    rest = [k for k in range(n) if k not in over]
    f = x.snap()
    le_ = (lambda a, b: T.le(b, a)) if mx else T.le        # the first is the extreme one
    if len(over) == 1 and isinstance(sh[over[0]], int):
        o = over[0]; m = sh[o]
        if m == 0: raise IRaise('IndexError', 'max(): expected reduction dim to have non-zero size')
        def both(*ix):
            v, w = None, Z
            for k in ints(m):
                u = f(*(ix[:o] + (k,) + ix[o:]))
                if v is None: v = u
                else: c = T.not_(le_(v, u)); v, w = T.ite(c, u, v), T.ite(c, k, w)
            return v, w
        val, arg = lambda *ix: both(*ix)[0], lambda *ix: both(*ix)[1]
    else:
        if it.loop_ix: raise Unsupported('reduction over a symbolic size inside a summarised loop')
        for o in over:
            if isinstance(sh[o], int) and sh[o] == 0 or not isinstance(sh[o], int) and not it.implied(T.lt(Z, sh[o])): raise Unsupported('reduction over a possibly empty dimension')
        gen = tuple(T.var('#r%d' % k, 'I') for k in range(n))
        key = (mx, tuple(over), tuple(tt(s) for s in sh), f(*gen))
        name = _red.setdefault(key, '%s!r%d' % ('max' if mx else 'min', len(_red)))
        arg_ = '%s!arg' % name
        if name not in it.prover.lem.defs:
            body = key[3]; srt = body.sort
            def at(rix, oix):
                m = {gen[k]: v for k, v in zip(rest, rix)}; m.update({gen[k]: v for k, v in zip(over, oix)})
                return T.subst(body, m)
            sizes_ = [tt(sh[k]) for k in over]
            def facts(*rix):
                v = T.app(name, rix, srt)
                ws = tuple(T.app(arg_ + str(q), rix, 'I') for q in range(len(over)))
                bs = [T.fresh_bv() for _ in over]
                all_ = le_(v, at(rix, bs))
                for bv, s in reversed(list(zip(bs, sizes_))): all_ = T.forall(bv, Z, s, all_)
                return [all_, T.eq(v, at(rix, ws))] + [c for w, s in zip(ws, sizes_) for c in (T.le(Z, w), T.lt(w, s))]
            if d is not None or not it.prover.triggers: it.prover.lem.select[name] = facts     # (what a maximum over everything is has no use in the proofs)
            def ext(args, env):
                import itertools
                rix = [T.num(int(a), 'I') for a in args]
                rng = [range(int(T.evaluate(s, env))) for s in sizes_]
                best = None
                for o in itertools.product(*rng):
                    u = T.evaluate(at(rix, [T.num(q, 'I') for q in o]), env)
                    if best is None or (u > best[0] if mx else u < best[0]): best = (u, o)
                if best is None: raise T.EvalError('empty')
                return best
            it.prover.lem.defs[name] = lambda args, env: ext(args, env)[0]
            for q in range(len(over)): it.prover.lem.defs[arg_ + str(q)] = (lambda q: lambda args, env: ext(args, env)[1][q])(q)
            it.prover.fcache.clear(); it.stcache.clear()
        srt = key[3].sort
        val = lambda *ix: T.app(name, ix, srt)
        arg = lambda *ix: T.app(arg_ + '0', ix, 'I')
    if d is None: return FT.fn((), val, x.dtype_)
    o = over[0]; cut = (lambda g: lambda *ix: g(*(ix[:o] + ix[o + 1:]))) if keepdim else (lambda g: g)
    rs = sh[:o] + ((1,) if keepdim else ()) + sh[o + 1:]
    return MinMax((FT.fn(rs, cut(val), x.dtype_), FT.fn(rs, cut(arg), 'i64')))


class Masked:
    """x[mask]: the selected elements, seen elementwise at the positions of the mask"""
    def __init__(self, mask, shape, fn, dtype): self.mask, self.shape, self.fn, self.dtype_ = mask.snap() if isinstance(mask, FT) else mask, shape, fn, dtype
    def generic(self): return tuple(T.var('#m%d' % k, 'I') if not (isinstance(s, int) and s == 1) else Z for k, s in enumerate(self.shape))
    def same_mask(self, m, shape):
        if not shape_eq(shape, self.shape): return False
        g = self.generic(); return m(*g) is self.mask(*g)
    def _b(self, o, f, swap=False):
        if isinstance(o, Masked):
            if not self.same_mask(o.mask, o.shape): raise Unsupported('masked selections by different masks')
            g = o.fn; dt = DTYPES[self.dtype_] >= DTYPES[o.dtype_] and self.dtype_ or o.dtype_
        elif isinstance(o, FT):
            if o.shape_ != (): raise Unsupported('masked selection with a tensor')
            v = o.scalar(); g = lambda *ix: v; dt = self.dtype_
        elif is_scalar(o): v = numeric(t_of(o)); g = lambda *ix: v; dt = self.dtype_ if self.dtype_[0] == 'f' or v.sort == 'I' else _uns('masked promotion')
        else: return NotImplemented
        a = self.fn
        return Masked(self.mask, self.shape, (lambda *ix: f(g(*ix), a(*ix))) if swap else (lambda *ix: f(a(*ix), g(*ix))), dt)
    def __add__(self, o): return self._b(o, T.add)
    def __radd__(self, o): return self._b(o, T.add, True)
    def __sub__(self, o): return self._b(o, T.sub)
    def __rsub__(self, o): return self._b(o, T.sub, True)
    def __mul__(self, o): return self._b(o, T.mul)
    def __rmul__(self, o): return self._b(o, T.mul, True)
    def __truediv__(self, o): return self._b(o, pydiv)
    def __neg__(self): a = self.fn; return Masked(self.mask, self.shape, lambda *ix: T.neg(a(*ix)), self.dtype_)
    def inplace(self, op, o):
        import operator as O
        return {'+': O.add, '-': O.sub, '*': O.mul, '/': O.truediv}[op](self, o)
    def m_clone(self): return self
    def getattr(self, k):
        if k in ('clone', 'detach', 'contiguous'): return self.m_clone
        raise Unsupported('attribute %s of a masked selection' % k)


def masked_write(o, m, v, scatter=False):
    g = o.snap(); mf = broadcast_to(m, o.shape_)
    if isinstance(v, Masked):
        if not v.same_mask(mf, o.shape_): raise Unsupported('masked write of another selection')
        if v.dtype_ != o.dtype_: raise Unsupported('masked write: dtype')
        f = v.fn
        o.assign(FT.fn(o.shape_, lambda *ix: T.ite(mf(*ix), f(*ix), g(*ix)), o.dtype_)); return
    if scatter or isinstance(v, FT) and v.shape_ != (): raise Unsupported('masked write of a tensor')
    val = v.scalar() if isinstance(v, FT) else t_of(v)
    if o.dtype_[0] == 'f': val = T.toR(val)
    o.assign(FT.fn(o.shape_, lambda *ix: T.ite(mf(*ix), val, g(*ix)), o.dtype_))


def reduce_minmax(x, f):
    t = x.terms(); r = t[0]
    for u in t[1:]: r = f(r, u)
    return FT.fn((), lambda: r, x.dtype_)


def diag(x):
    f = x.snap()
    if len(x.shape_) == 1:
        n = x.shape_[0]
        z = T.num(0) if x.dtype_[0] == 'f' else T.num(0, 'I')
        return FT.fn((n, n), lambda i, j: T.ite(T.eq(i, j), f(i), z), x.dtype_)
    return FT.fn((x.shape_[0],), lambda i: f(i, i), x.dtype_)


def inverse(x):
    n = x.shape_[0]
    if x.shape_ not in ((1, 1), (2, 2), (3, 3)): raise Unsupported('inverse of this size')
    f = x.snap(); K = ints(n)
    m = [[f(i, j) for j in K] for i in K]
    def minor(i, j):
        r = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != i]
        return detm(r)
    d = detm(m)
    CUR.it.divisor(d)
    def g(i, j):
        i, j = int(T.val(i)), int(T.val(j))
        return T.div(T.mul(T.num((-1) ** (i + j)), minor(j, i)), d)
    return FT.fn(x.shape_, g, x.dtype_)


def detm(m):
    if not m: return T.num(1)
    if len(m) == 1: return m[0][0]
    return T.add(*[T.mul(T.mul(T.num((-1) ** j), m[0][j]), detm([r[:j] + r[j + 1:] for r in m[1:]])) for j in range(len(m))])


def make_tensor(x, dtype, detached):
    """torch.tensor / new_tensor on scalars, nested lists and tensors"""
    D = (lambda t: T.det(t)) if detached else (lambda t: t)
    if isinstance(x, FT):
        f = x.cast(dtype).snap()
        return FT.fn(x.shape_, lambda *ix: D(f(*ix)), dtype)
    if is_scalar(x):
        t = t_of(x)
        if dtype[0] == 'f': t = T.toR(t)
        return FT.fn((), lambda: D(t), dtype)
    if isinstance(x, (tuple, list)) or hasattr(x, 'items_'):
        l = list(x) if isinstance(x, (tuple, list)) else x.items_()
        if not l: return FT.const(0, dtype, (0,))
        es = [make_tensor(e, dtype, detached) for e in l]
        return stack(es)
    raise Unsupported('tensor from %r' % type(x))


def stack(es, dim=0):
    sh = es[0].shape_
    for e in es:
        if not shape_eq(e.shape_, sh): raise IRaise('RuntimeError', 'stack expects each tensor to be equal size')
    return cat([e.m_unsqueeze(dim) for e in es], dim)


def cat(es, dim=0):
    es = [e for e in es if not (len(e.shape_) == 1 and e.shape_[0] == 0 and any(len(x.shape_) > 1 for x in es))]
    dt = promote([e if e.shape_ != () else _uns('cat of scalars') for e in es])
    nd = len(es[0].shape_); dim %= nd
    for e in es:
        if len(e.shape_) != nd: raise IRaise('RuntimeError', 'cat: number of dimensions')
        for k in range(nd):
            if k != dim and not same(e.shape_[k], es[0].shape_[k]):
                if isinstance(e.shape_[k], int) and isinstance(es[0].shape_[k], int): raise IRaise('RuntimeError', 'cat: sizes must match')
                raise Unsupported('cat sizes')
    fs = [e.cast(dt).snap() for e in es]
    offs = [Z]
    for e in es: offs.append(T.add(offs[-1], tt(e.shape_[dim])))
    def g(*ix):
        i = ix[dim]
        r = None
        for k in range(len(es) - 1, -1, -1):
            v = lambda: fs[k](*(ix[:dim] + (T.sub(i, offs[k]),) + ix[dim + 1:]))
            if k == len(es) - 1:
                if T.isnum(i) and T.isnum(offs[k]) and T.val(i) < T.val(offs[k]): continue
                r = v(); continue
            c = T.lt(i, offs[k + 1])
            if T.isnum(offs[k]) and T.isnum(i) and T.val(i) < T.val(offs[k]): continue
            if c is T.TRUE: r = v()
            elif c is T.FALSE: pass
            else: r = T.ite(c, v(), r) if r is not None else v()
        return r
    sh = list(es[0].shape_); sh[dim] = offs[-1]
    return FT.fn(sh, g, dt)


def cat_seq(n, elem, dim=0):
    """torch.cat over a sequence of symbolic length n; every element has the same constant length"""
    k = T.var(CUR.it.fresh_name('kc'), 'I')
    e = elem(k)
    if not isinstance(e, FT) or len(e.shape_) != 1 or dim != 0: raise Unsupported('cat over a symbolic sequence')
    w = e.shape_[0]
    if not isinstance(w, int): raise Unsupported('cat over a symbolic sequence')
    W = T.num(w, 'I')
    f = e.snap()
    def g(i):
        q, r = T.idiv(i, W), T.imod(i, W)
        return T.subst(f(r), {k: q})
    return FT.fn((T.mul(tt(n), W),), g, e.dtype_)
