"""C18: no dependence of a state on a tensor input is cut.

The contracts of the other properties say which value every function on the path from the inputs to the states computes.  Here the
same contracts are executed again, and of every value they speak about it is required that the term the code built for it contains
no detached part (.item(), .detach(), .data, new_tensor, torch.tensor of a tensor) that depends on a tensor input.  Branch conditions
and indices are not values.  So automatic differentiation of the real code sees the whole expression that the functional contract has
shown equal to the specified one."""
import importlib, random, zlib
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['torch differentiates each of its operations correctly; LCPFunction.backward is the gradient of the problem (C12)',
           'the functional contracts the values are taken from are discharged under their own properties (C01-C07, C13-C17, C19, C21)',
           'a number (not a tensor) given for a parameter carries no gradient']


def value_dets(t, seen=None, out=None):
    """det nodes on value positions"""
    if seen is None: seen, out = set(), []
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'det': out.append(x); continue
        if x.op == 'ite': st += [x.args[1], x.args[2]]; continue
        if x.op in ('sum', 'forall'): st.append(x.args[3]); continue
        if x.op in ('app', 'var', 'num', 'bool'):
            if x.op == 'app': st += [a for a in x.args[1:] if a.sort == 'R']
            continue
        st += list(T.children(x))
    return out


def inputs(t, numbers):
    """the tensor inputs a term depends on"""
    r = set()
    for x in T.subterms([t]):
        if x.op == 'var' and x.sort == 'R' and x is not T.PI and x.args[0] not in numbers: r.add(x)
        if x.op == 'app' and x.sort == 'R' and x.args[0] not in numbers: r.add(x)
    return r


def reals(t):
    """the real-valued operands of a condition"""
    out = []; st = [t]
    while st:
        x = st.pop()
        if x.sort == 'B':
            if x.op in ('sum', 'forall'): st.append(x.args[3])
            elif x.op == 'ite': st += x.args[1:]
            else: st += [c for c in T.children(x)]
        elif x.sort == 'R': out.append(x)
    return out


def matters(t, dets, numbers):
    """does treating the detached parts as constants change a derivative?  (numerically)"""
    for seed in range(6):
        def env(h):
            def f(name, args, sort):
                k = zlib.crc32(repr((name, args, seed)).encode())
                if sort == 'B': return bool(k & 1)
                if sort == 'I': return k % 5
                d = 0. if name in numbers else (zlib.crc32(repr((name, args, seed, 'd')).encode()) % 2000 - 1000) / 500.
                return (k % 4000) / 1000. - 1.5 + h * d
            return f
        try:
            base = {d: T.evaluate(d, env(0.), {}) for d in dets}
            s = T.strip_det(t, {})
            h = 1e-5
            a = (T.evaluate(s, env(h), {}) - T.evaluate(s, env(-h), {})) / (2 * h)
            b = (T.evaluate(t, env(h), dict(base)) - T.evaluate(t, env(-h), dict(base))) / (2 * h)
        except (T.EvalError, ZeroDivisionError, OverflowError, ValueError, KeyError): continue
        if abs(a - b) > 1e-4 * (1 + abs(a) + abs(b)): return True
    return False


def cuts(goal, numbers):
    """'' | 'cut' | 'maybe'"""
    r = ''
    for t in reals(goal):
        ds = [d for d in value_dets(t) if inputs(d, numbers)]
        if ds:
            if matters(t, ds, numbers): return 'cut'
            r = 'maybe'
    return r


class KG(K):
    """the same contracts, asked for gradients instead of values"""
    def __init__(self, *a, **kw):
        K.__init__(self, *a, **kw); self.cache = {}
    def real(self, name): self.plain(name); return K.real(self, name)
    def plain(self, *names):
        for n in names: self.it.assume(T.var('number:' + n, 'B'))
    def same(self, name, a, b):
        for i, x in enumerate(flat(a)):
            if x.sort == 'R': self.ensure('value of %s[%d]' % (name, i), T.eq(x, T.var('any value')))
        K.same(self, name, a, b)
    def gradients(self, obls):
        out = []
        for name, pc, goal in obls:
            if not name.startswith(('ensures', 'invariant')): continue
            nums = frozenset(p.args[0][7:] for p in pc if p.op == 'var' and p.args[0].startswith('number:'))
            if (goal, nums) not in self.cache: self.cache[goal, nums] = cuts(goal, nums)
            c = self.cache[goal, nums]
            g = T.TRUE if c == '' else T.FALSE if c == 'cut' else T.var('derivative of ' + name, 'B')
            out.append(('ensures the gradient is not cut: ' + name.split(' ', 1)[1], pc, g))
        return out


TAKEN = [('c03', None), ('c04', None), ('c05', None), ('c06', None), ('c07', None), ('c13', None), ('c15', None), ('c19', None), ('c21', None)]

for m, names in TAKEN:
    pm = importlib.import_module('lcpv.proofs.' + m)
    for c in pm.CONTRACTS:
        if names is None or c.name in names:
            fl = dict(c.flags, kclass=KG, divisors=False)
            CONTRACTS.append(Contract(c.fn, '%s: %s' % (m.upper(), c.name), c.under, c.budget, ('f64',), fl))


def is_eq(c): return c.op == 'eq0' and c.args[0].sort == 'R'


@contract(CONTRACTS, 'vertices depend on the pose also where it does not turn the body', ['bodies.Hull.set_p', 'bodies.Hull.rotate_verts', 'bodies.Rect.rotate_verts'], divisors=False)
def still(k):
    """inputs carry gradients: the vertices are the function of the new pose that a turn gives, not only equal to it in value"""
    k.require(T.var('inputs_require_grad', 'B'))
    box = k.it.choose()
    b, nv = (rect(k, 'b'), n_(4)) if box else moved_hull(k)
    q = k.vec('q', 3)
    old = k.attr(b, 'verts'); p = k.attr(b, 'p').terms()
    i = n_(0) if box else skolem(k, 'i', nv)
    olds = [old.items[j].terms() for j in range(4)] if box else [old.elem(i).terms()]
    how = k.it.choose()
    if how: k.inv(b, 'set_p', q)
    else:
        k.set(b, 'v', k.vec('w', 3)); k.inv(b, 'move', k.real('dt'))
        q = None
    new = k.attr(b, 'verts')
    news = [new.items[j].terms() for j in range(4)] if box else [new.elem(i).terms()]
    pn = k.attr(b, 'p').terms()
    pc = [c for c in k.it.pc if not is_eq(c)]
    for j, (o, n) in enumerate(zip(olds, news)):
        for c, e in enumerate(rot2(T.sub(pn[0], p[0]), *o)):
            k.it.obls.append(('ensures vertex %d as a function of the pose[%d]' % (j, c), pc, T.eq(T.strip_det(n[c], {}), e)))
            if cuts(T.eq(n[c], T.var('any value')), {'dt'}): k.ensure('vertex %d is not cut' % j, False)
