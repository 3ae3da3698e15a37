"""Shared pieces of the symbolic executor: scalars, the mutation trail, errors."""
from . import terms as T


class Unsupported(Exception):
    """outside the verified subset: the contract stays undecided"""


class PathEnd(Exception):
    """the rest of this path is covered elsewhere (loop body checked) or infeasible"""


class IRaise(Exception):
    """an exception raised by the interpreted code"""
    def __init__(self, name, msg=''): self.name, self.msg = name, msg


class PoisonRead(Exception):
    def __init__(self, loc): self.loc = loc


class Cur:
    it = None       # the current interpreter


CUR = Cur()
_stamp = [0]


def stamp():
    _stamp[0] += 1
    return _stamp[0]


class Host:
    """base of mutable host objects: mutations go through put() so that they can be undone"""
    def __init__(self): self.__dict__['stamp'] = stamp()

    def put(self, k, v):
        CUR.it.put(self, k, v)


class Poison:
    def __init__(self, loc): self.loc = loc


def t_of(x):
    """Python number or SV -> Term"""
    if isinstance(x, SV): return x.t
    if isinstance(x, bool): return T.boolc(x)
    if isinstance(x, int): return T.num(x, 'I')
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('non-finite constant')
        return T.num(x)
    if isinstance(x, T.Term): return x
    raise Unsupported('not a scalar: %r' % (type(x),))


def wrap(t):
    """Term -> Python number when constant, else SV"""
    if t.op == 'num':
        v = t.args[0]
        if t.sort == 'I': return int(v)
        return SV(t)
    if t.op == 'bool': return t.args[0]
    return SV(t)


def numeric(t):
    return T.toR(t) if t.sort == 'B' else t


def is_scalar(x): return isinstance(x, (SV, int, float, bool))


class SV:
    """a symbolic Python scalar"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'SV(%r)' % self.t
    def _b(self, o, f, swap=False):
        if not is_scalar(o): return NotImplemented
        a, b = numeric(self.t), numeric(t_of(o))
        if swap: a, b = b, a
        return wrap(f(a, b))
    def __add__(self, o): return self._b(o, T.add)
    def __radd__(self, o): return self._b(o, T.add, True)
    def __sub__(self, o): return self._b(o, T.sub)
    def __rsub__(self, o): return self._b(o, T.sub, True)
    def __mul__(self, o): return self._b(o, T.mul)
    def __rmul__(self, o): return self._b(o, T.mul, True)
    def __truediv__(self, o): return self._b(o, pydiv)
    def __rtruediv__(self, o): return self._b(o, pydiv, True)
    def __floordiv__(self, o): return self._b(o, intdiv)
    def __rfloordiv__(self, o): return self._b(o, intdiv, True)
    def __mod__(self, o): return self._b(o, pymod)
    def __rmod__(self, o): return self._b(o, pymod, True)
    def __pow__(self, o):
        if isinstance(o, int): return wrap(T.powi(self.t, o))
        if isinstance(o, float) and o == .5: return wrap(T.sqrt(self.t))
        if isinstance(o, float) and o == int(o): return wrap(T.powi(self.t, int(o)))
        raise Unsupported('power')
    def __neg__(self): return wrap(T.neg(self.t))
    def __pos__(self): return self
    def __abs__(self): return wrap(T.abs_(self.t))
    def __lt__(self, o): return self._b(o, T.lt)
    def __le__(self, o): return self._b(o, T.le)
    def __gt__(self, o): return self._b(o, T.gt)
    def __ge__(self, o): return self._b(o, T.ge)
    def __eq__(self, o):
        if self.t.sort == 'B' and isinstance(o, (bool, SV)): return wrap(T.eq(self.t, t_of(o)))
        return self._b(o, T.eq)
    def __ne__(self, o): return self._b(o, T.ne)
    def __hash__(self): return hash(self.t)
    def __bool__(self): return CUR.it.decide(truth_term(self.t))
    def __float__(self): raise Unsupported('float() of a symbolic value')
    def __index__(self):
        t = self.t
        if t.op == 'num': return int(t.args[0])
        raise Unsupported('symbolic index')
    def __and__(self, o): return wrap(T.and_(self.t, t_of(o)))
    def __or__(self, o): return wrap(T.or_(self.t, t_of(o)))
    def __invert__(self): return wrap(T.not_(self.t))
    def item(self): return self


def truth_term(t): return t if t.sort == 'B' else T.ne(t, T.num(0, t.sort))


def pydiv(a, b):
    if CUR.it is not None: CUR.it.divisor(b)
    return T.div(a, b)


def intdiv(a, b):
    if a.sort == 'I' and b.sort == 'I': return T.idiv(a, b)
    raise Unsupported('// on reals')


def pymod(a, b):
    if a.sort != 'I' or b.sort != 'I': raise Unsupported('% on reals')
    if T.isnum(b): return T.imod(a, b)
    it = CUR.it; z = T.num(0, 'I')
    if it.implied(T.and_(T.le(z, a), T.lt(a, b))): return a
    if it.implied(T.and_(T.le(z, a), T.lt(a, T.mul(T.num(2, 'I'), b)))):
        if it.split_mod: return a if it.decide(T.lt(a, b)) else T.sub(a, b)
        return T.ite(T.lt(a, b), a, T.sub(a, b))
    if it.implied(T.and_(T.le(T.neg(b), a), T.lt(a, b))):
        if it.split_mod: return a if it.decide(T.le(z, a)) else T.add(a, b)
        return T.ite(T.le(z, a), a, T.add(a, b))
    raise Unsupported('% with symbolic modulus')
