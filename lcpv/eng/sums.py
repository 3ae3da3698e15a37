"""Expanded form of terms with sums over the edges of a polygon: polynomials over atoms, sums distributed over monomials, and
SUM_i f(next(i)) = SUM_i f(i) for the cyclic successor next(i) = (i + 1) mod n."""
from fractions import Fraction
from . import terms as T

Z, I1 = T.num(0, 'I'), T.num(1, 'I')


class TooBig(Exception): pass


def next_terms(bv, hi):
    s = T.add(bv, I1)
    if T.isnum(hi): return []
    return [T.imod(s, hi), T.ite(T.lt(s, hi), s, T.sub(s, hi)), T.ite(T.eq(s, hi), Z, s), T.ite(T.le(hi, s), T.sub(s, hi), s), T.ite(T.le(s, T.sub(hi, I1)), s, Z)]


def uses_next(ts):
    for t in T.subterms(ts):
        if t.op in ('sum', 'forall') and t.args[1] is Z:
            sub = set(T.subterms([t.args[3]]))
            if any(x in sub for x in next_terms(t.args[0], t.args[2])): return True
    return False


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def p_mul(p, q):
    if len(p) * len(q) > 6000: raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            e = {}
            for a, k in m + n: e[a] = e.get(a, 0) + k
            key = tuple(sorted(((a, k) for a, k in e.items() if k), key=lambda x: x[0].id))
            v = r.get(key, 0) + c * d
            if v: r[key] = v
            else: r.pop(key, None)
    return r


def mono(m):
    r = T.num(1)
    for a, k in m:
        if k > 0: r = T.mul(r, T.powi(a, k))
    for a, k in m:
        if k < 0: r = T.mul(r, T.div(T.num(1), T.powi(a, -k)))
    return r


def term(p): return T.add(T.num(0), *[T.mul(T.num(c), mono(m)) for m, c in sorted(p.items(), key=lambda x: [(a.id, k) for a, k in x[0]])])


class Nf:
    def __init__(self, sign=None): self.memo = {}; self.sign = sign; self.ranges = []

    def atom(self, a): return {((a, 1),): Fraction(1)}

    def poly(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.poly_(t)
        return r

    def poly_(self, t):
        op = t.op
        if op == 'num': return {(): t.args[0]} if t.args[0] else {}
        if op == 'add':
            r = {}
            for a in t.args: r = p_add(r, self.poly(a))
            return r
        if op == 'mul':
            r = {(): Fraction(1)}
            for a in t.args: r = p_mul(r, self.poly(a))
            return r
        if op == 'div':
            return p_mul(self.poly(t.args[0]), self.inv(self.poly(t.args[1])))
        if op == 'sum': return self.sum(t)
        if op == 'sqrt':
            a = t.args[0]
            if a.op == 'mul' and len(a.args) == 2 and a.args[0] is a.args[1] and self.sign:
                s = self.sign(self.norm(a.args[0]), list(self.ranges))
                if s: return {m: s * c for m, c in self.poly(a.args[0]).items()}
        if op == 'toR': return self.atom(T.toR(self.norm(t.args[0])))
        ch = T.children(t)
        if not ch: return self.atom(t)
        return self.atom(T.rebuild(t, tuple(self.norm(c) for c in ch)))

    def inv(self, p):
        if not p: raise ZeroDivisionError()
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -k) for a, k in m): 1 / c}
        lead = min(p, key=lambda m: [(a.id, k) for a, k in m])
        c = p[lead]
        return {((term({m: v / c for m, v in p.items()}), -1),): 1 / c}

    def sum(self, t):
        bv, lo, hi, body = t.args
        b = T.var('#n%d' % len(self.ranges), 'I')
        cyc = T.app('#next', (b, hi), 'I')
        body = T.subst(body, {bv: b})
        if lo is Z: body = T.subst(body, {x: cyc for x in next_terms(b, hi)})
        self.ranges.append((b, lo, hi))
        try: p = self.poly(body)
        finally: self.ranges.pop()
        r = {}
        for m, c in p.items():
            out = tuple((a, k) for a, k in m if b not in T.free(a))
            ins = mono(tuple((a, k) for a, k in m if b in T.free(a)))
            if lo is Z and cyc in T.subterms([ins]):
                h = T.var('#h', 'I')
                u = T.subst(ins, {cyc: h})
                if b not in T.free(u): ins = T.subst(u, {h: b})
            s = T._mk('sum', (b, lo, hi, ins), 'R')
            r = p_add(r, p_mul({out: c}, self.atom(s)))
        return r

    def norm(self, t):
        if t.sort == 'R': return term(self.poly(t))
        op = t.op
        if op in ('le0', 'lt0', 'eq0') and t.args[0].sort == 'R':
            d = self.norm(t.args[0])
            return {'le0': lambda d: T.le(d, T.num(0)), 'lt0': lambda d: T.lt(d, T.num(0)), 'eq0': lambda d: T.eq(d, T.num(0))}[op](d)
        if op == 'forall':
            bv, lo, hi, body = t.args
            b = T.var('#n%d' % len(self.ranges), 'I')
            body = T.subst(body, {bv: b})
            if lo is Z: body = T.subst(body, {x: T.app('#next', (b, hi), 'I') for x in next_terms(b, hi)})
            self.ranges.append((b, lo, hi))
            try: return T.forall(b, lo, hi, self.norm(body))
            finally: self.ranges.pop()
        ch = T.children(t)
        if not ch or t.sort == 'I': return t
        return T.rebuild(t, tuple(self.norm(c) for c in ch))
