"""Normal forms of real terms: quotients of polynomials over atoms, with sqrt(e)^2 = e, sin^2 + cos^2 = 1 and the angle addition rules.
Decides equalities that are identities in those rules; every denominator met is reported (it has to be non-zero)."""
from fractions import Fraction
from . import terms as T

ONE = ()


class TooBig(Exception): pass


LIMIT = 60000


def p_const(c): return {ONE: Fraction(c)} if c else {}
def p_atom(a, e=1): return {((a, e),): Fraction(1)}


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def m_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b: d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def p_mul(p, q):
    if len(p) * len(q) > LIMIT: raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r


def p_pow(p, n):
    r = p_const(1)
    for _ in range(n): r = p_mul(r, p)
    return r


class Ring:
    def __init__(self):
        self.atoms = {}     # key -> index
        self.info = []      # index -> ('v',) | ('s', n, d) | ('sin', j) | ('cos', j)
        self.cache = {}
        self.dens = {}
        self.red = {}

    def atom(self, key, info):
        i = self.atoms.get(key)
        if i is None:
            i = self.atoms[key] = len(self.info); self.info.append(info)
        return i

    def frozen(self, p): return tuple(sorted(p.items()))

    def reduce(self, num, den):
        """apply s^2 = e and sin^2 = 1 - cos^2 until none applies; den is treated in the same way"""
        for _ in range(40):
            n2, d2, ch = self._red1(num)
            if ch:
                num = n2; den = p_mul(den, d2)
            m2, e2, ch2 = self._red1(den)
            if ch2:
                den = m2; num = p_mul(num, e2)
            if not (ch or ch2): break
        else: raise TooBig()
        if den and len(den) == 1:            # monomial denominator: cancel
            (dm, dc), = den.items()
            if dc != 1: num = {m: c / dc for m, c in num.items()}; den = {dm: Fraction(1)}
            if dm and num:
                common = dict(dm)
                for m in num:
                    md = dict(m)
                    for a in list(common):
                        e = min(common[a], md.get(a, 0))
                        if e: common[a] = e
                        else: del common[a]
                    if not common: break
                if common:
                    def cut(m):
                        d = dict(m)
                        for a, e in common.items():
                            d[a] -= e
                            if not d[a]: del d[a]
                        return tuple(sorted(d.items()))
                    num = {cut(m): c for m, c in num.items()}
                    den = {cut(dm): Fraction(1)}
        if not num: den = p_const(1)
        elif num == den: num = p_const(1); den = p_const(1)
        return num, den

    def _red1(self, p):
        """one pass over a polynomial: returns (num, den, changed)"""
        target = None
        for m in p:
            for a, e in m:
                if e >= 2 and self.info[a][0] in ('s', 'sin', 'abs'):
                    target = a if target is None else max(target, a)
        if target is None: return p, p_const(1), False
        inf = self.info[target]
        if inf[0] == 's': rn, rd = inf[1], inf[2]
        elif inf[0] == 'abs': rn, rd = p_mul(inf[1], inf[1]), p_const(1)
        else:
            c = inf[1]
            rn, rd = p_add(p_const(1), p_atom(c, 2), -1), p_const(1)
        q = max(dict(m).get(target, 0) for m in p) // 2
        out = {}
        pw = [p_const(1)]; dw = [p_const(1)]
        for _ in range(q): pw.append(p_mul(pw[-1], rn)); dw.append(p_mul(dw[-1], rd))
        for m, c in p.items():
            d = dict(m); e = d.pop(target, 0)
            k, r = divmod(e, 2)
            if r: d[target] = 1
            t = {tuple(sorted(d.items())): c}
            t = p_mul(p_mul(t, pw[k]), dw[q - k])
            out = p_add(out, t)
        return out, dw[q], True

    def nf(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._nf(t)
        return r

    def _nf(self, t):
        op = t.op
        if op == 'num': return p_const(t.args[0]), p_const(1)
        if op in ('toR',):
            x = t.args[0]
            if x.op in ('add', 'mul', 'num'): return self._nf_ops(x)
            return p_atom(self.atom(('t', x), ('v', t))), p_const(1)
        if op == 'det': return self.nf(t.args[0])
        if op in ('add', 'mul'): return self._nf_ops(t)
        if op == 'div':
            an, ad = self.nf(t.args[0]); bn, bd = self.nf(t.args[1])
            if not bn: raise ZeroDivisionError()
            self.dens[t.args[1]] = 1
            return self.reduce(p_mul(an, bd), p_mul(ad, bn))
        if op == 'sqrt':
            n, d = self.nf(t.args[0])
            return self.root(n, d, t)
        if op in ('sin', 'cos'): return self.trig(op, t.args[0])
        if op == 'ite' and t.sort == 'R':
            return p_atom(self.atom(('t', t), ('v', t))), p_const(1)
        return p_atom(self.atom(('t', t), ('v', t))), p_const(1)

    def root(self, n, d, t):
        # rational square factor / constants
        if not n: return {}, p_const(1)
        if len(n) == 1 and len(d) == 1 and ONE in n and ONE in d:
            x = T.sqrt(T.num(n[ONE] / d[ONE]))
            if x.op == 'num': return p_const(x.args[0]), p_const(1)
        key = ('s', self.frozen(n), self.frozen(d))
        return p_atom(self.atom(key, ('s', n, d, t))), p_const(1)

    def _nf_ops(self, t):
        wrap = (lambda x: x) if t.sort == 'R' else (lambda x: T.toR(x) if x.op != 'num' else x)
        if t.op == 'num': return p_const(t.args[0]), p_const(1)
        if t.op == 'mul':
            n, d = p_const(1), p_const(1)
            for a in t.args:
                an, ad = self.nf(wrap(a)) if a.op not in ('add', 'mul') or t.sort == 'R' else self._nf_ops(a)
                n, d = p_mul(n, an), p_mul(d, ad)
            return self.reduce(n, d)
        n, d = {}, p_const(1)
        for a in t.args:
            an, ad = self.nf(wrap(a)) if a.op not in ('add', 'mul') or t.sort == 'R' else self._nf_ops(a)
            if ad == d: n = p_add(n, an)
            else:
                n = p_add(p_mul(n, ad), p_mul(an, d)); d = p_mul(d, ad)
                n, d = self.reduce(n, d)
        return self.reduce(n, d)

    def trig(self, op, arg):
        parts = list(arg.args) if arg.op == 'add' else [arg]
        if len(parts) > 1:
            a = parts[0]; b = T.add(*parts[1:])
            (sa, x1), (ca, x2) = self.trig('sin', a), self.trig('cos', a)
            (sb, x3), (cb, x4) = self.trig('sin', b), self.trig('cos', b)
            if op == 'sin': n = p_add(p_mul(p_mul(sa, x2), p_mul(cb, x3)), p_mul(p_mul(ca, x1), p_mul(sb, x4)))
            else: n = p_add(p_mul(p_mul(ca, x1), p_mul(cb, x3)), p_mul(p_mul(sa, x2), p_mul(sb, x4)), -1)
            # all denominators are the same product only in the common case of atoms (den 1)
            if x1 == x2 == x3 == x4 == p_const(1): return self.reduce(n, p_const(1))
            if op == 'sin':
                return self._rat([(p_mul(sa, cb), p_mul(x1, x4), 1), (p_mul(ca, sb), p_mul(x2, x3), 1)])
            return self._rat([(p_mul(ca, cb), p_mul(x2, x4), 1), (p_mul(sa, sb), p_mul(x1, x3), -1)])
        k, m = T._coef(arg)
        if T.isnum(arg):
            base = arg; k = Fraction(1)
            if T.val(arg) == 0: return (({}, p_const(1)) if op == 'sin' else (p_const(1), p_const(1)))
            m = arg
        if m.op == 'atan2' and abs(k) == 1:
            y, x = m.args
            h = self.nf(T.sqrt(T.add(T.mul(x, x), T.mul(y, y))))
            v = self.nf(y if op == 'sin' else x)
            if not h[0]: raise ZeroDivisionError()
            self.dens[T.sqrt(T.add(T.mul(x, x), T.mul(y, y)))] = 1
            n, d = self.reduce(p_mul(v[0], h[1]), p_mul(v[1], h[0]))
            return ({mm: -c for mm, c in n.items()}, d) if op == 'sin' and k < 0 else (n, d)
        if m is T.PI and k.denominator in (1, 2):
            h = int(k * 2) % 4
            v = {'sin': (0, 1, 0, -1), 'cos': (1, 0, -1, 0)}[op][h]
            return p_const(v), p_const(1)
        if k.denominator == 1 and 1 < abs(k) <= 4:
            n = abs(int(k)); e = T.add(*[m])
            # sin(n m) through repeated addition
            s, c = self.trig('sin', m)[0], self.trig('cos', m)[0]
            S, C = s, c
            for _ in range(n - 1):
                S, C = p_add(p_mul(S, c), p_mul(C, s)), p_add(p_mul(C, c), p_mul(S, s), -1)
            if op == 'sin' and k < 0: S = {mm: -cc for mm, cc in S.items()}
            return self.reduce(S if op == 'sin' else C, p_const(1))
        sg = -1 if k < 0 else 1
        n, d = self.nf(T.mul(T.num(abs(k)), m)) if not T.isnum(arg) else self.nf(arg)
        key = (self.frozen(n), self.frozen(d))
        cj = self.atom(('cos', key), ('cos', None))
        sj = self.atom(('sin', key), ('sin', cj))
        if op == 'cos': return p_atom(cj), p_const(1)
        return {((sj, 1),): Fraction(sg)}, p_const(1)

    def _rat(self, parts):
        n, d = {}, p_const(1)
        for pn, pd, k in parts:
            n = p_add(p_mul(n, pd), p_mul(pn, d), k); d = p_mul(d, pd)
        return self.reduce(n, d)

    def is_zero(self, t):
        n, d = self.nf(t)
        return not n
