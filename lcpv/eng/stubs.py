"""What the interpreted code sees of torch, math, ode, pygame, ... (trusted contracts of external functions) and of the builtins."""
import math as _math
from . import terms as T
from .base import *
from .ft import *
from .interp import *

ONE = T.num(1, 'I')


class NS:
    """a stub module or object with named members"""
    def __init__(self, name, **env): self.name, self.env = name, env
    def getattr(self, k):
        if k in self.env:
            v = self.env[k]
            return Native(v, self.name + '.' + k) if callable(v) and not isinstance(v, (Native, IClass, TypeMark, NS, DType, Missing)) and type(v).__name__ == 'function' else v
        return Missing(self.name + '.' + k)


class TypeMark:
    def __init__(self, name, test, make=None): self.name, self.test, self.make = name, test, make
    def call(self, *a, **k):
        if self.make is None: raise Unsupported('construct ' + self.name)
        return self.make(*a, **k)
    def getattr(self, k):
        if k == '__name__': return self.name
        raise IRaise('AttributeError', k)


def F(x, like=None):
    """value -> FT"""
    if isinstance(x, FT): return x
    raise IRaise('TypeError', 'tensor expected')


def dt_of(dtype, default='f32'): return default if dtype is None else dtype.name


# ---------------------------------------------------------------- torch
def t_tensor(x, dtype=None, device=None, requires_grad=False):
    x = CUR.it.force(x)
    if dtype is None:
        if isinstance(x, FT): d = x.dtype_
        else:
            d = 'i64'
            st = [x]
            while st:
                y = st.pop()
                if isinstance(y, (tuple, PList)): st += list(CUR.it.iter(y))
                elif isinstance(y, FT): d = y.dtype_ if d in ('i64', 'b') else d
                elif isinstance(y, float) or (isinstance(y, SV) and y.t.sort == 'R'): d = 'f32' if d == 'i64' else d
    else: d = dtype.name
    return make_tensor(x, d, True)


def shape_args(s):
    if len(s) == 1 and isinstance(s[0], (tuple, PList)): return tuple(CUR.it.iter(s[0]))
    return s


def t_zeros(*s, dtype=None, device=None, **k): return FT.const(0, dt_of(dtype), sizes(shape_args(s)))
def t_ones(*s, dtype=None, device=None, **k): return FT.const(1, dt_of(dtype), sizes(shape_args(s)))
def t_empty(*s, dtype=None, device=None, **k): return FT.const(0, dt_of(dtype), ()).m_new_empty(*s)


def t_eye(n, m=None, dtype=None, device=None):
    m = n if m is None else m
    d = dt_of(dtype)
    one, zero = (T.num(1), T.num(0)) if d[0] == 'f' else (T.num(1, 'I'), T.num(0, 'I'))
    return FT.fn((dim(n), dim(m)), lambda i, j: T.ite(T.eq(i, j), one, zero), d)


def t_cat(xs, dim=0, axis=None):
    if axis is not None: dim = axis
    xs = CUR.it.force(xs)
    if isinstance(xs, Seq) or is_sym(xs):
        if T.isnum(xs.n): xs = [xs.elem(k) for k in ints(int(T.val(xs.n)))]
        else: return cat_seq(xs.n, xs.elem, dim)
    return cat([F(x) for x in CUR.it.iter(PList(xs) if isinstance(xs, list) else xs)], dim)


def t_stack(xs, dim=0):
    if isinstance(xs, Seq) or is_sym(xs): raise Unsupported('stack of a symbolic sequence')
    return stack([F(x) for x in CUR.it.iter(xs)], dim)


def t_minmax(name):
    f = T.max_ if name == 'max' else T.min_
    def g(x, y=None, dim=None, keepdim=False):
        if isinstance(y, int) and not isinstance(y, bool): dim, y = y, None
        if isinstance(y, FT): return ew2(F(x), y, f)
        return minmax(F(x), name == 'max', dim, keepdim)
    return g


def t_where(c, a, b):
    c = F(c)
    dt = promote([v for v in (a, b) if isinstance(v, FT)] + [v for v in (a, b) if not isinstance(v, FT)]) if any(isinstance(v, FT) for v in (a, b)) else 'f32'
    a = a if isinstance(a, FT) else FT.const(a, dt); b = b if isinstance(b, FT) else FT.const(b, dt)
    sh = bshape(bshape(c.shape_, a.shape_), b.shape_)
    fc, fa, fb = (broadcast_to(v, sh) for v in (c, a, b))
    return FT.fn(sh, lambda *ix: T.ite(truth_term(fc(*ix)), fa(*ix), fb(*ix)), dt)


def t_clamp(x, min=None, max=None):
    if min is not None: x = ew2(x, min, T.max_)
    if max is not None: x = ew2(x, max, T.min_)
    return x


def t_allclose(a, b, rtol=1e-5, atol=1e-8): raise Unsupported('allclose')


def torch_mod():
    D = DT
    env = dict(
        Tensor=TypeMark('Tensor', lambda v: isinstance(v, FT)), double=D['f64'], float64=D['f64'], float32=D['f32'], float=D['f32'], half=D['f16'], float16=D['f16'],
        long=D['i64'], int64=D['i64'], bool=D['b'], strided='strided',
        device=lambda *a: 'cpu', tensor=t_tensor, as_tensor=lambda x, **k: x if isinstance(x, FT) and not k else t_tensor(x, **k), zeros=t_zeros, ones=t_ones, empty=t_empty, eye=t_eye,
        zeros_like=lambda x, dtype=None: FT.const(0, dtype.name if dtype else x.dtype_, x.shape_), ones_like=lambda x, dtype=None: FT.const(1, dtype.name if dtype else x.dtype_, x.shape_),
        empty_like=lambda x: x.m_new_empty(*[wrap(tt(s)) for s in x.shape_]), full_like=lambda x, v: FT.const(v, x.dtype_, x.shape_),
        cat=t_cat, concat=t_cat, stack=t_stack, matmul=lambda a, b: matmul(F(a), F(b)), mm=lambda a, b: matmul(F(a), F(b)), mv=lambda a, b: matmul(F(a), F(b)),
        dot=lambda a, b: F(a).m_dot(b), norm=lambda x, p=2, dim=None, keepdim=False: F(x).m_norm(p, dim, keepdim), bmm=lambda a, b: F(a).m_bmm(b), amin=lambda x, dim=None, keepdim=False: F(x).m_amin(dim, keepdim), amax=lambda x, dim=None, keepdim=False: F(x).m_amax(dim, keepdim), sqrt=lambda x: F(x).m_sqrt(), sin=lambda x: F(x).m_sin(), cos=lambda x: F(x).m_cos(),
        atan2=lambda y, x: ew2(F(y), F(x), T.atan2), abs=lambda x: F(x).m_abs(), sum=lambda x, dim=None, keepdim=False: F(x).m_sum(dim, keepdim), mean=lambda x: F(x).m_mean(),
        max=t_minmax('max'), min=t_minmax('min'), maximum=lambda a, b: ew2(a, b, T.max_), minimum=lambda a, b: ew2(a, b, T.min_), inverse=lambda x: F(x).m_inverse(),
        diag=lambda x: diag(F(x)), where=t_where, clamp=t_clamp, is_tensor=lambda x: isinstance(x, FT), neg=lambda x: -x, pow=lambda x, n: x ** n, square=lambda x: x * x,
        ger=lambda a, b: a.m_ger(b), outer=lambda a, b: a.m_ger(b), t=lambda x: x.m_t(), transpose=lambda x, a, b: x.m_transpose(a, b), reshape=lambda x, s: x.m_reshape(s),
        unsqueeze=lambda x, d: x.m_unsqueeze(d), squeeze=lambda x, d=None: x.m_squeeze(d), add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, div=lambda a, b: a / b,
        logical_and=lambda a, b: ew2(a, b, T.and_, 'b'), logical_or=lambda a, b: ew2(a, b, T.or_, 'b'), logical_not=lambda a: ew1(a, T.not_),
        get_default_dtype=lambda: D['f32'], finfo=lambda d: NS('finfo', eps=1e-16), full=lambda s, v, dtype=None, device=None: FT.const(v, dt_of(dtype), sizes((s,))),
        triu=lambda x: FT.fn(x.shape_, (lambda f: lambda i, j: T.ite(T.le(i, j), f(i, j), T.num(0)))(x.snap()), x.dtype_))
    m = NS('torch', **env)
    m.env['linalg'] = NS('torch.linalg', inv=lambda x: F(x).m_inverse(), norm=lambda x: F(x).m_norm())
    m.env['autograd'] = NS('torch.autograd', Function=Missing('Function'))
    return m


# ---------------------------------------------------------------- math, ode, others
def num1(x):
    if isinstance(x, FT): return T.det(T.toR(x.scalar()))
    if x is None: raise IRaise('TypeError', 'None')
    return T.toR(numeric(t_of(x)))


def math_mod():
    f = lambda g: (lambda x: wrap(g(num1(x))))
    return NS('math', pi=SV(T.PI), sin=f(T.sin), cos=f(T.cos), sqrt=f(T.sqrt), fabs=f(T.abs_), atan2=lambda y, x: wrap(T.atan2(num1(y), num1(x))),
              hypot=lambda x, y: wrap(T.sqrt(T.add(T.mul(num1(x), num1(x)), T.mul(num1(y), num1(y))))), pow=lambda x, n: x ** n,
              radians=lambda x: wrap(T.div(T.mul(num1(x), T.PI), T.num(180))), inf=float('inf'))


class Geom(Host):
    """an ODE geom: its shape parameters, pose and the attributes the code hangs on it"""
    def __init__(self, kind, size):
        Host.__init__(self)
        self.__dict__.update(kind=kind, size=size, attrs={}, pos=None, quat=None)
    def getattr(self, k):
        if k in ('setPosition', 'setQuaternion', 'getPosition', 'getQuaternion', 'setRotation', 'getRotation', 'getRadius', 'getLengths', 'getAABB', 'enable', 'disable', 'setBody', 'getBody'):
            m = getattr(self, 'g_' + k, None)
            if m is None: raise Unsupported('geom.' + k)
            return Native(m, k)
        if k in self.attrs:
            v = self.attrs[k]
            if isinstance(v, Poison): raise PoisonRead(v.loc)
            return v
        raise IRaise('AttributeError', k)
    def setattr(self, k, v): CUR.it.put_in(self, self.attrs, k, v)
    def g_setPosition(self, x): self.put('pos', tuple(num1(v) for v in CUR.it.iter(x)))
    def g_setQuaternion(self, x): self.put('quat', tuple(num1(v) for v in CUR.it.iter(x)))
    def g_getPosition(self): return tuple(wrap(v) for v in self.pos)
    def g_getRadius(self): return wrap(self.size[0])
    def g_getLengths(self): return tuple(wrap(v) for v in self.size)


class Space(Host):
    def __init__(self): Host.__init__(self); self.__dict__.update(geoms=PList(()), collided=PList(()), hook=None)
    def getattr(self, k):
        if k == 'add': return Native(lambda g: list_method(CUR.it, self.geoms, 'append', (g,), {}), 'space.add')
        if k == 'collide': return Native(self.collide, 'space.collide')
        if k == 'remove': raise Unsupported('space.remove')
        raise Unsupported('space.' + k)
    def collide(self, arg, cb):
        hook = self.hook or getattr(CUR.it, 'collide', None)
        if hook is None: raise Unsupported('space.collide')
        return hook(self, arg, cb)


def ode_mod():
    return NS('ode', GeomSphere=lambda space, r: Geom('sphere', (num1(r),)), GeomBox=lambda space, l: Geom('box', tuple(num1(v) for v in CUR.it.iter(l))),
              HashSpace=lambda *a: Space(), SimpleSpace=lambda *a: Space(), Space=lambda *a: Space(), collide=Missing('ode.collide'))


# ---------------------------------------------------------------- builtins
def b_len(x):
    x = CUR.it.force(x)
    if isinstance(x, Seq) or is_sym(x): return wrap(x.n)
    if isinstance(x, FT):
        if not x.shape_: raise IRaise('TypeError', 'len() of a 0-d tensor')
        return wrap(tt(x.shape_[0]))
    if isinstance(x, (PList, PSet)): return len(x.items)
    if isinstance(x, PDict): return len(x.d)
    if isinstance(x, (tuple, str, list)): return len(x)
    if hasattr(x, 'length'): return x.length()
    raise Unsupported('len of %s' % type(x).__name__)


def b_range(*a):
    ts = [t_of(x.scalar()) if isinstance(x, FT) else t_of(x) for x in a]
    lo, hi = (Z, ts[0]) if len(ts) == 1 else ts[:2]
    st = int(T.val(ts[2])) if len(ts) > 2 else 1
    if T.isnum(lo) and T.isnum(hi): return tuple(range(int(T.val(lo)), int(T.val(hi)), st))
    n = T.sub(hi, lo)
    if st != 1: raise Unsupported('range step')
    if T.isnum(n): return tuple(wrap(T.add(lo, T.num(k, 'I'))) for k in range(int(T.val(n))))
    it = CUR.it
    if not it.implied(T.le(Z, n)): n = T.ite(T.le(Z, n), n, Z)
    return Seq(n, lambda k: wrap(T.add(lo, k)))


def b_enumerate(x, start=0):
    s = CUR.it.symseq(CUR.it.force(x))
    if s is not None: return Seq(s.n, lambda k: (wrap(T.add(k, T.num(start, 'I'))), s.elem(k)))
    return tuple((k + start, v) for k, v in enumerate(CUR.it.iter(x)))


def b_zip(*xs):
    it = CUR.it
    ss = [it.symseq(it.force(x)) for x in xs]
    if any(s is not None for s in ss):
        n = [s for s in ss if s is not None][0].n
        if any(s is None for s in ss): raise Unsupported('zip of symbolic and concrete sequences')
        for s in ss:
            if not it.implied(T.eq(s.n, n)): raise Unsupported('zip of different lengths')
        return Seq(n, lambda k: tuple(s.elem(k) for s in ss))
    return tuple(zip(*[it.iter(x) for x in xs]))


def b_isinstance(x, c):
    x = CUR.it.force(x)
    if isinstance(c, (tuple, PList)):
        return any(b_isinstance(x, d) for d in CUR.it.iter(c))
    if isinstance(c, TypeMark): return c.test(x)
    if isinstance(c, IClass):
        k = x.cls if isinstance(x, (IObj, SymObj)) else None
        return k is not None and c in k.mro()
    if isinstance(c, Missing): return False
    raise Unsupported('isinstance')


def elem_term(v):
    return truth_term(v.scalar() if isinstance(v, FT) else t_of(v))


def b_all(x):
    s = CUR.it.symseq(CUR.it.force(x))
    if s is not None:
        bv = T.fresh_bv()
        return wrap(T.forall(bv, Z, s.n, elem_term(s.elem(bv))))
    return wrap(T.and_(*[elem_term(v) if not (v is None or isinstance(v, str)) else T.boolc(bool(v)) for v in CUR.it.iter(x)]))


def b_any(x):
    s = CUR.it.symseq(CUR.it.force(x))
    if s is not None:
        bv = T.fresh_bv()
        return wrap(T.not_(T.forall(bv, Z, s.n, T.not_(elem_term(s.elem(bv))))))
    return wrap(T.or_(*[elem_term(v) for v in CUR.it.iter(x)]))


def b_sum(x, start=0):
    it = CUR.it
    s = it.symseq(it.force(x))
    if s is not None:
        bv = T.fresh_bv()
        e = s.elem(bv)
        if isinstance(e, FT):
            f = e.snap()
            def g(*ix):
                b2 = T.fresh_bv()
                return T.summ(b2, Z, s.n, T.subst(f(*ix), {bv: b2}))
            r = FT.fn(e.shape_, g, e.dtype_)
            return r if start == 0 and not isinstance(start, FT) else r + start
        return wrap(T.add(t_of(start), T.summ(bv, Z, s.n, numeric(t_of(e)))))
    r = start
    for v in it.iter(x): r = it.binop(ast.Add, r, v)
    return r


def b_max_(name):
    mx = name == 'max'
    def f(*xs, key=None, default=None):
        it = CUR.it
        if key is not None: raise Unsupported('max with key')
        if len(xs) == 1:
            s = it.symseq(it.force(xs[0]))
            if s is not None:
                it.oblige('%s of a non-empty sequence' % name, T.lt(Z, s.n))
                m = T.var(it.fresh_name(name)); w = T.var(it.fresh_name('arg' + name), 'I')
                tm = lambda k: numeric(s.elem(k).scalar() if isinstance(s.elem(k), FT) else t_of(s.elem(k)))
                bv = T.fresh_bv()
                it.assume(T.forall(bv, Z, s.n, T.le(tm(bv), m) if mx else T.le(m, tm(bv))))
                it.assume(T.and_(T.le(Z, w), T.lt(w, s.n), T.eq(m, tm(w))))
                return wrap(m)
            xs = it.iter(xs[0])
        if not xs: raise IRaise('ValueError', 'empty sequence')
        r = xs[0]
        for x in xs[1:]:
            if not isinstance(r, (SV, FT)) and not isinstance(x, (SV, FT)): r = max(r, x) if mx else min(r, x); continue
            a = r.scalar() if isinstance(r, FT) else t_of(r); b = x.scalar() if isinstance(x, FT) else t_of(x)
            c = T.lt(a, b) if mx else T.lt(b, a)
            r = merge(c, x, r) if not (isinstance(r, FT) or isinstance(x, FT)) else (x if it.decide(c) else r)
        return r
    return f


def b_float(x=0):
    x = CUR.it.force(x)
    if isinstance(x, FT): return wrap(T.det(T.toR(x.scalar())))
    if isinstance(x, SV): return wrap(T.toR(numeric(x.t)))
    if isinstance(x, str): raise Unsupported('float of a string')
    return float(x)


def b_int(x=0):
    if isinstance(x, FT): x = wrap(x.scalar())
    if isinstance(x, SV):
        if x.t.sort == 'I': return x
        if x.t.sort == 'B': return wrap(T.ite(x.t, ONE, Z))
        n = T.var(CUR.it.fresh_name('trunc'), 'I'); r = T.toR(n)
        CUR.it.assume(T.or_(T.and_(T.le(T.num(0), r), T.le(r, x.t), T.lt(x.t, T.add(r, T.num(1)))), T.and_(T.le(r, T.num(0)), T.le(x.t, r), T.lt(T.sub(r, T.num(1)), x.t))))
        return SV(n)
    return int(x)


def b_bool(x=False):
    if isinstance(x, SV): return wrap(truth_term(x.t))
    return CUR.it.truth(x)


def b_list(x=()):
    x = CUR.it.force(x)
    s = CUR.it.symseq(x)
    if s is not None:
        ver = x.items.ver if is_sym(x) else ListBase(s.elem)
        return PList(SymItems(s.n, ver))
    return PList(CUR.it.iter(x))


def b_tuple(x=()):
    s = CUR.it.symseq(CUR.it.force(x))
    if s is not None: return s
    return tuple(CUR.it.iter(x))


def b_abs(x):
    return abs(x) if not isinstance(x, FT) else x.m_abs()


def b_hasattr(o, k):
    it = CUR.it
    try: it.getattr(o, k)
    except IRaise as e:
        if e.name == 'AttributeError': return False
        raise
    return True


def b_getattr(o, k, *d):
    try: return CUR.it.getattr(o, k)
    except IRaise as e:
        if e.name == 'AttributeError' and d: return d[0]
        raise


def b_setattr(o, k, v): CUR.it.setattr(o, k, v)


def b_reversed(x):
    s = CUR.it.symseq(CUR.it.force(x))
    if s is not None: return Seq(s.n, lambda k: s.elem(T.sub(T.sub(s.n, ONE), k)))
    return tuple(reversed(CUR.it.iter(x)))


def b_set(x=()):
    out = PSet(())
    for v in CUR.it.iter(x): set_method(CUR.it, out, 'add', (v,))
    return out


def b_sorted(x, key=None, reverse=False):
    v = CUR.it.iter(x)
    if all(isinstance(y, (int, float, str)) for y in v) and key is None: return PList(sorted(v, reverse=reverse))
    raise Unsupported('sorted')


def b_type(x):
    if isinstance(x, IObj): return x.cls
    if isinstance(x, SymObj): return x.cls
    raise Unsupported('type()')


def b_callable(x): return isinstance(x, (IFunc, Bound, Native, IClass, TypeMark))


def b_round(*a): raise Unsupported('round')


def builtins():
    N = lambda f, n: Native(f, n)
    b = {n: N(f, n) for n, f in dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, isinstance=b_isinstance, all=b_all, any=b_any, sum=b_sum, max=b_max_('max'), min=b_max_('min'),
         abs=b_abs, hasattr=b_hasattr, getattr=b_getattr, setattr=b_setattr, reversed=b_reversed, sorted=b_sorted, type=b_type, callable=b_callable, round=b_round,
         print=lambda *a, **k: None, id=lambda x: (_ for _ in ()).throw(Unsupported('id')), iter=lambda x: x, map=lambda f, *xs: PList([CUR.it.call(f, list(v), {}) for v in b_zip(*xs)]), 
         repr=lambda x: '<str>', divmod=lambda a, b: (a // b, a % b)).items()}
    for n, t, mk in (('float', lambda v: isinstance(v, float) or (isinstance(v, SV) and v.t.sort == 'R'), b_float), ('int', lambda v: (isinstance(v, int) or (isinstance(v, SV) and v.t.sort == 'I')), b_int),
                     ('bool', lambda v: isinstance(v, bool) or (isinstance(v, SV) and v.t.sort == 'B'), b_bool), ('str', lambda v: isinstance(v, str), lambda *a: to_str(CUR.it.force(a[0])) if a else ''),
                     ('list', lambda v: isinstance(v, PList), b_list), ('tuple', lambda v: isinstance(v, tuple), b_tuple), ('set', lambda v: isinstance(v, PSet), b_set),
                     ('dict', lambda v: isinstance(v, PDict), lambda *a, **k: PDict(a[0].d if a else k)), ('object', lambda v: True, lambda: IObj(None))):
        b[n] = TypeMark(n, t, mk)
    for e in ('Exception', 'ValueError', 'RuntimeError', 'AssertionError', 'IndexError', 'KeyError', 'TypeError', 'NotImplementedError', 'AttributeError', 'ZeroDivisionError', 'StopIteration'):
        b[e] = TypeMark(e, lambda v: False)
    ident = lambda f=None, *a, **k: f
    b['property'] = N(lambda f: Prop(f), 'property'); b['staticmethod'] = N(lambda f: Static(f), 'staticmethod'); b['classmethod'] = N(lambda f: ClsM(f), 'classmethod')
    return b


def shallow(v):
    """copy.copy: a new object with the same attributes"""
    if type(v) is IObj:
        if v.cls is None or any(isinstance(b, Missing) for c in v.cls.mro() for b in c.bases): raise Unsupported('copy of a foreign object')
        if any(v.cls.find(n)[1] is not None for n in ('__copy__', '__reduce__', '__reduce_ex__', '__getstate__', '__setstate__')): raise Unsupported('copy hooks')
        return IObj(v.cls, v.attrs)
    if isinstance(v, PList): return PList(v.items)
    if isinstance(v, (tuple, bool, int, float, str)) or v is None: return v
    raise Unsupported('copy of %s' % type(v).__name__)



def random_mod():
    def below(n):
        n = t_of(n); i = T.var(CUR.it.fresh_name('random'), 'I')
        if CUR.it.decide(T.le(n, Z)): raise IRaise('ValueError', 'empty range')
        CUR.it.assume(T.and_(T.le(Z, i), T.lt(i, n)))
        return wrap(i)
    def choice(v):
        v = CUR.it.force(v); s = CUR.it.symseq(v)
        n = s.n if s is not None else T.num(len(CUR.it.iter(v)), 'I')
        if CUR.it.decide(T.le(n, Z)): raise IRaise('IndexError', 'choice of nothing')
        return CUR.it.getitem(v, below(wrap(n)))
    return NS('random', choice=choice, randrange=below)


def stubs():
    s = {'torch': torch_mod(), 'math': math_mod(), 'ode': ode_mod(), 'pygame': Missing('pygame'), 'random': random_mod(), 'numpy': Missing('numpy'),
         'matplotlib': Missing('matplotlib'), 'scipy': Missing('scipy')}
    s['os'] = NS('os', path=NS('os.path', join=lambda *a: PStr(sum([str_parts(x) + ['/'] for x in a], [])[:-1]) if any(isinstance(x, PStr) for x in a) else '/'.join(a), exists=lambda p: True), makedirs=lambda *a, **k: None)
    s['time'] = NS('time', time=lambda: wrap(T.var(CUR.it.fresh_name('clock'))), sleep=lambda x: None)
    s['functools'] = NS('functools', lru_cache=Native(lambda *a, **k: (_ for _ in ()).throw(Unsupported('lru_cache'))), wraps=Native(lambda f: Native(lambda g: g)))
    s['copy'] = NS('copy', copy=shallow, deepcopy=Missing('deepcopy'))
    s['enum'] = NS('enum', Enum=Missing('Enum')); s['itertools'] = Missing('itertools'); s['operator'] = Missing('operator'); s['collections'] = Missing('collections')
    s['typing'] = Missing('typing')
    return s
