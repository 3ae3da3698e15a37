"""Terms: a hash-consed DAG of integer, real and boolean expressions.

Machine floating point is read as real arithmetic.  `det(t)` marks a value that left the differentiable path (.item(), .detach(),
.data, new_tensor(...)): it is equal to t, but carries no gradient."""
from fractions import Fraction
import math

_tab = {}
_ctr = [0]


class Term:
    __slots__ = ('op', 'args', 'sort', 'id')

    def __repr__(self):
        return show(self)

    def __hash__(self): return self.id
    # == is identity (hash-consed)


def _mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op, t.args, t.sort = op, args, sort
        _ctr[0] += 1; t.id = _ctr[0]
        _tab[k] = t
    return t


def frac(x):
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, Fraction): return x
    if math.isinf(x) or math.isnan(x): raise ValueError('non-finite constant')
    f = Fraction(x).limit_denominator(10 ** 6)
    # a float literal stands for the simple rational that rounds to it
    if float(f) == x: return f
    f = Fraction(repr(x))
    return f


def num(x, sort='R'): return _mk('num', (frac(x),), sort)
def var(name, sort='R'): return _mk('var', (name,), sort)
def app(name, args, sort='R'): return _mk('app', (name,) + tuple(args), sort)


TRUE, FALSE = _mk('bool', (True,), 'B'), _mk('bool', (False,), 'B')
PI = _mk('var', ('pi',), 'R')


def boolc(b): return TRUE if b else FALSE
def isnum(t): return t.op == 'num'
def val(t): return t.args[0]


def toR(t):
    if t.sort == 'R': return t
    if t.sort == 'B': return ite(t, num(1), num(0))
    if isnum(t): return num(val(t), 'R')
    return _mk('toR', (t,), 'R')


def _coef(t):
    if t.op == 'mul' and isnum(t.args[0]):
        r = t.args[1:]
        return val(t.args[0]), (r[0] if len(r) == 1 else _mk('mul', r, t.sort))
    return Fraction(1), t


def add(*ts):
    sort = 'R' if any(t.sort == 'R' for t in ts) else 'I'
    if sort == 'R': ts = [toR(t) for t in ts]
    acc = {}; c = Fraction(0); st = list(ts)
    while st:
        t = st.pop()
        if isnum(t): c += val(t)
        elif t.op == 'add': st.extend(t.args)
        else:
            k, m = _coef(t)
            acc[m] = acc.get(m, 0) + k
    out = []
    for m in sorted(acc, key=lambda m: m.id):
        k = acc[m]
        if k != 0: out.append(m if k == 1 else _scale(k, m))
    if c != 0 or not out: out.append(num(c, sort))
    return out[0] if len(out) == 1 else _mk('add', tuple(out), sort)


def _scale(k, m):
    a = m.args if m.op == 'mul' else (m,)
    return _mk('mul', (num(k, m.sort),) + a, m.sort)


def mul(a, b):
    if a.sort != b.sort or a.sort == 'B': a, b = toR(a), toR(b)
    sort = a.sort
    if isnum(a) and isnum(b): return num(val(a) * val(b), sort)
    if isnum(b): a, b = b, a
    if isnum(a):
        if val(a) == 0: return num(0, sort)
        if val(a) == 1: return b
        if b.op == 'add': return add(*[mul(a, t) for t in b.args])
        k, m = _coef(b)
        k *= val(a)
        return m if k == 1 else _scale(k, m)
    if sort == 'I':
        if a.op == 'add': return add(*[mul(t, b) for t in a.args])
        if b.op == 'add': return add(*[mul(a, t) for t in b.args])
    ka, ma = _coef(a); kb, mb = _coef(b)
    fs = (ma.args if ma.op == 'mul' else (ma,)) + (mb.args if mb.op == 'mul' else (mb,))
    m = _mk('mul', tuple(sorted(fs, key=lambda t: t.id)), sort)
    k = ka * kb
    return m if k == 1 else _scale(k, m)


def neg(a): return mul(num(-1, a.sort if a.sort != 'B' else 'R'), a)
def sub(a, b): return add(a, neg(b))


def div(a, b):
    a, b = toR(a), toR(b)
    if isnum(b) and val(b) != 0: return mul(num(1 / val(b)), a)
    if isnum(a) and val(a) == 0: return a
    return _mk('div', (a, b), 'R')


def powi(a, n):
    if n < 0: return div(num(1), powi(a, -n))
    r = num(1, a.sort)
    for _ in range(n): r = mul(r, a)
    return r


def idiv(a, b):
    if isnum(a) and isnum(b): return num(val(a) // val(b), 'I')
    if isnum(b) and val(b) == 1: return a
    if isnum(b) and val(b) > 0:           # (b*q + r) div b
        q, r = _split(a, val(b))
        if r is not None: return q
    return _mk('idiv', (a, b), 'I')


def imod(a, b):
    if isnum(a) and isnum(b): return num(val(a) % val(b), 'I')
    if isnum(b) and val(b) == 1: return num(0, 'I')
    if isnum(b) and val(b) > 0:
        q, r = _split(a, val(b))
        if r is not None: return r
    return _mk('imod', (a, b), 'I')


def _split(a, b):
    q = []; r = Fraction(0)
    for t in (a.args if a.op == 'add' else (a,)):
        if isnum(t): r += val(t); continue
        k, m = _coef(t)
        if k % b: return None, None
        q.append(mul(num(k / b, 'I'), m))
    return add(num(r // b, 'I'), *q), num(r % b, 'I')


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.sort != b.sort: a, b = toR(a), toR(b)
    if c.op == 'not': return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return _mk('ite', (c, a, b), a.sort)


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return _mk('not', (a,), 'B')


def and_(*ts):
    s = {}
    for t in ts:
        for u in (t.args if t.op == 'and' else (t,)):
            if u is FALSE: return FALSE
            if u is not TRUE: s[u] = 1
    for u in s:
        if not_(u) in s: return FALSE
    s = list(s)
    return TRUE if not s else s[0] if len(s) == 1 else _mk('and', tuple(s), 'B')


def or_(*ts):
    s = {}
    for t in ts:
        for u in (t.args if t.op == 'or' else (t,)):
            if u is TRUE: return TRUE
            if u is not FALSE: s[u] = 1
    for u in s:
        if not_(u) in s: return TRUE
    s = list(s)
    return FALSE if not s else s[0] if len(s) == 1 else _mk('or', tuple(s), 'B')


def implies(a, b): return or_(not_(a), b)


def _sub0(a, b):
    d = sub(a, b)
    return d


def le(a, b):
    d = _sub0(a, b)
    if isnum(d): return boolc(val(d) <= 0)
    return _mk('le0', (d,), 'B')


def lt(a, b):
    if a.sort == 'I' and b.sort == 'I': return le(add(a, num(1, 'I')), b)
    d = _sub0(a, b)
    if isnum(d): return boolc(val(d) < 0)
    return _mk('lt0', (d,), 'B')


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return _mk('iff', (a, b), 'B')
    d = sub(a, b)
    if isnum(d): return boolc(val(d) == 0)
    k, m = _coef(d.args[0] if d.op == 'add' else d)
    if k < 0: d = neg(d)
    return _mk('eq0', (d,), 'B')


def ne(a, b): return not_(eq(a, b))


def sqrt(t):
    t = toR(t)
    if isnum(t) and val(t) >= 0:
        v = val(t); n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator: return num(Fraction(n, d))
    return _mk('sqrt', (t,), 'R')


def sin(t):
    t = toR(t)
    if isnum(t) and val(t) == 0: return t
    k, m = _coef(t) if t.op != 'add' else _coef(t.args[0])
    if k < 0: return neg(_mk('sin', (neg(t),), 'R'))
    return _mk('sin', (t,), 'R')


def cos(t):
    t = toR(t)
    if isnum(t) and val(t) == 0: return num(1)
    k, m = _coef(t) if t.op != 'add' else _coef(t.args[0])
    return _mk('cos', (neg(t) if k < 0 else t,), 'R')


def atan2(y, x): return _mk('atan2', (toR(y), toR(x)), 'R')
def abs_(t): return ite(le(num(0, t.sort), t), t, neg(t))
def min_(a, b): return ite(le(a, b), a, b)
def max_(a, b): return ite(le(b, a), a, b)


def det(t):
    if t.op in ('num', 'det', 'bool') or t.sort != 'R': return t
    return _mk('det', (t,), t.sort)


def summ(bv, lo, hi, body):
    """SUM_{lo <= bv < hi} body"""
    if isnum(body) and val(body) == 0: return body
    if isnum(lo) and isnum(hi) and val(hi) <= val(lo): return num(0, body.sort)
    if body.op == 'add': return add(*[summ(bv, lo, hi, b) for b in body.args])
    if body.op == 'mul':
        out = [f for f in body.args if bv not in free(f)]
        if out:
            ins = [f for f in body.args if bv in free(f)]
            r = summ(bv, lo, hi, _mulall(*ins)) if ins else _mk('sum', (bv, lo, hi, num(1, body.sort)), body.sort)
            return mul(_mulall(*out), r)
    return _mk('sum', (bv, lo, hi, body), body.sort)


def forall(bv, lo, hi, body):
    if body is TRUE: return TRUE
    return _mk('forall', (bv, lo, hi, body), 'B')


_bv = [0]


def fresh_bv():
    _bv[0] += 1
    return var('#%d' % _bv[0], 'I')


def children(t):
    if t.op in ('num', 'var', 'bool'): return ()
    if t.op == 'app': return t.args[1:]
    return t.args


def rebuild(t, ch):
    op = t.op
    if op == 'app': return app(t.args[0], ch, t.sort)
    f = _RB.get(op)
    if f: return f(*ch)
    return _mk(op, tuple(ch), t.sort)


_RB = {'add': add, 'mul': None, 'div': div, 'idiv': idiv, 'imod': imod, 'ite': ite, 'not': not_, 'and': and_, 'or': or_, 'iff': eq,
       'le0': lambda d: le(d, num(0, d.sort)), 'eq0': lambda d: eq(d, num(0, d.sort)),
       'lt0': lambda d: lt(d, num(0, d.sort)) if d.sort == 'R' else le(add(d, num(1, 'I')), num(0, 'I')),
       'sqrt': sqrt, 'sin': sin, 'cos': cos, 'atan2': atan2, 'det': det, 'toR': toR, 'sum': summ, 'forall': forall}


def _mulall(*a):
    r = a[0]
    for x in a[1:]: r = mul(r, x)
    return r


_RB['mul'] = _mulall


def subst(t, m, memo=None):
    """m: {Term: Term}"""
    if memo is None: memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None: return r
    if t.op in ('num', 'var', 'bool'): return t
    r = memo.get(t)
    if r is not None: return r
    ch = children(t)
    if t.op in ('sum', 'forall') and any(bv in free(x) for bv in (ch[0],) for x in m.values()):
        nb = fresh_bv()
        body = _subst(ch[3], {ch[0]: nb}, {})
        ch = (nb, ch[1], ch[2], body)
        t = _mk(t.op, ch, t.sort)
    nch = tuple(_subst(c, m, memo) for c in ch)
    r = t if all(a is b for a, b in zip(ch, nch)) else rebuild(t, nch)
    memo[t] = r
    return r


_free = {}


def free(t):
    """the variables (not function symbols) occurring in t"""
    r = _free.get(t)
    if r is None:
        if t.op == 'var': r = frozenset([t])
        else:
            r = frozenset().union(*[free(c) for c in children(t)]) if children(t) else frozenset()
            if t.op in ('sum', 'forall'): r = r - {t.args[0]}
        _free[t] = r
    return r


def subterms(ts):
    seen = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen: continue
        seen[t] = 1
        st.extend(children(t))
    return list(seen)


def strip_det(t, memo):
    r = memo.get(t)
    if r is None:
        if t.op == 'det': r = strip_det(t.args[0], memo)
        else:
            ch = children(t)
            n = tuple(strip_det(c, memo) for c in ch)
            r = t if all(a is b for a, b in zip(ch, n)) else rebuild(t, n)
        memo[t] = r
    return r


def show(t, d=0):
    if t.op == 'num': return str(t.args[0])
    if t.op in ('var', 'bool'): return str(t.args[0])
    if d > 7: return '..'
    if t.op == 'app': return '%s(%s)' % (t.args[0], ', '.join(show(a, d + 1) for a in t.args[1:]))
    if t.op == 'add': return '(' + ' + '.join(show(a, d + 1) for a in t.args) + ')'
    if t.op == 'mul': return '*'.join(show(a, d + 1) for a in t.args)
    return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.args))


ZERODIV = [False]      # evaluate x / 0 to a huge number instead of giving up


class EvalError(Exception): pass


def evaluate(t, env, memo=None):
    """numeric value (floats); env: callable(name, args) -> number"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    op = t.op; E = lambda x: evaluate(x, env, memo)
    if op == 'num': r = float(t.args[0]) if t.sort == 'R' else int(t.args[0])
    elif op == 'bool': r = t.args[0]
    elif op == 'var': r = math.pi if t is PI else env(t.args[0], (), t.sort)
    elif op == 'app': r = env(t.args[0], tuple(E(a) for a in t.args[1:]), t.sort)
    elif op == 'add': r = sum(E(a) for a in t.args)
    elif op == 'mul':
        r = 1
        for a in t.args: r *= E(a)
        if t.sort == 'I': r = int(r)
    elif op == 'div':
        b = E(t.args[1])
        if b == 0:
            if not ZERODIV[0]: raise EvalError('division by zero')
            r = math.copysign(1e30, E(t.args[0])) if E(t.args[0]) else 0.
        else: r = E(t.args[0]) / b
    elif op == 'idiv': r = E(t.args[0]) // E(t.args[1])
    elif op == 'imod': r = E(t.args[0]) % E(t.args[1])
    elif op == 'ite': r = E(t.args[1]) if E(t.args[0]) else E(t.args[2])
    elif op == 'not': r = not E(t.args[0])
    elif op == 'and': r = all(E(a) for a in t.args)
    elif op == 'or': r = any(E(a) for a in t.args)
    elif op == 'iff': r = E(t.args[0]) == E(t.args[1])
    elif op == 'le0': r = E(t.args[0]) <= 0
    elif op == 'lt0': r = E(t.args[0]) < 0
    elif op == 'eq0':
        d = t.args[0]
        v = E(d)
        m = max([abs(E(a)) for a in d.args] + [1e-300]) if d.op == 'add' else 1.
        r = abs(v) <= 1e-9 * max(m, 1.) if d.sort == 'R' else v == 0
    elif op == 'sqrt':
        v = E(t.args[0])
        if v < 0:
            if v > -1e-9: v = 0.
            else: raise EvalError('sqrt')
        r = math.sqrt(v)
    elif op == 'sin': r = math.sin(E(t.args[0]))
    elif op == 'cos': r = math.cos(E(t.args[0]))
    elif op == 'atan2': r = math.atan2(E(t.args[0]), E(t.args[1]))
    elif op in ('det', 'toR'): r = E(t.args[0])
    elif op in ('sum', 'forall'):
        bv, lo, hi, body = t.args
        lo, hi = E(lo), E(hi)
        if hi - lo > 200: raise EvalError('long sum')
        vs = [evaluate(subst(body, {bv: num(k, 'I')}), env, memo) for k in range(lo, hi)]
        r = sum(vs) if op == 'sum' else all(vs)
    else: raise EvalError(op)
    memo[t] = r
    return r
