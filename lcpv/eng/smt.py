"""Discharging obligations: z3 for conditions, the ring normal form for identities, case splits over the conditions of ite terms.
Verdicts: 'proved', 'refuted' (with an evaluated witness), 'unknown'."""
import time, random
from fractions import Fraction
import z3
from . import terms as T, sums
from .ring import Ring, TooBig

STATS = dict(z3_calls=0, z3_s=0., ring=0)
TIMEOUT = 6000


_z3 = {}            # term -> (z3 expression, the special functions in it)
_fdecl = {}
_none = frozenset()


class Conv:
    """terms -> z3; collects the instances of special functions"""
    def __init__(self): self.special = set()

    def sortof(self, s): return {'R': z3.RealSort(), 'I': z3.IntSort(), 'B': z3.BoolSort()}[s]

    def fn(self, name, args, sort):
        k = (name, tuple(a.sort for a in args), sort)
        f = _fdecl.get(k)
        if f is None:
            f = _fdecl[k] = z3.Function(name, *([self.sortof(a.sort) for a in args] + [self.sortof(sort)]))
        return f

    def __call__(self, t):
        e, sp = self.get(t)
        self.special |= sp
        return e

    def get(self, t):
        r = _z3.get(t)
        if r is None:
            sp = []
            def C(u):
                e, s = self.get(u)
                if s: sp.append(s)
                return e
            e = self.conv(t, C, sp)
            r = _z3[t] = e, (sp[0] if len(sp) == 1 else frozenset().union(*sp)) if sp else _none
        return r

    def conv(self, t, C, sp):
        op = t.op
        if op == 'num':
            return z3.IntVal(int(t.args[0])) if t.sort == 'I' else z3.RealVal(str(t.args[0]))
        if op == 'bool': return z3.BoolVal(t.args[0])
        if op == 'var': return z3.Const(t.args[0], self.sortof(t.sort))
        if op == 'app':
            return self.fn(t.args[0], t.args[1:], t.sort)(*[C(a) for a in t.args[1:]])
        if op == 'add': return z3.Sum([C(a) for a in t.args])
        if op == 'mul':
            r = C(t.args[0])
            for a in t.args[1:]: r = r * C(a)
            return r
        if op == 'div': return C(t.args[0]) / C(t.args[1])
        if op == 'idiv': return C(t.args[0]) / C(t.args[1])
        if op == 'imod': return C(t.args[0]) % C(t.args[1])
        if op == 'ite': return z3.If(C(t.args[0]), C(t.args[1]), C(t.args[2]))
        if op == 'not': return z3.Not(C(t.args[0]))
        if op == 'and': return z3.And([C(a) for a in t.args])
        if op == 'or': return z3.Or([C(a) for a in t.args])
        if op == 'iff': return C(t.args[0]) == C(t.args[1])
        if op == 'le0': return C(t.args[0]) <= 0
        if op == 'lt0': return C(t.args[0]) < 0
        if op == 'eq0': return C(t.args[0]) == 0
        if op == 'toR': return z3.ToReal(C(t.args[0]))
        if op == 'det': return C(t.args[0])
        if op == 'sqrt':
            C(t.args[0]); sp.append(frozenset([t])); return z3.Real('sqrt!%d' % t.id)
        if op in ('sin', 'cos'):
            C(t.args[0]); sp.append(frozenset([t])); return z3.Real('%s!%d' % (op, t.args[0].id))
        if op == 'atan2':
            C(t.args[0]); C(t.args[1]); sp.append(frozenset([t])); return z3.Real('atan2!%d' % t.id)
        if op in ('sum', 'forall'):
            k = canon(t)
            return z3.Const('%s!%d' % (op, k.id), self.sortof(t.sort))
        raise NotImplementedError(op)

    def axioms(self):
        out = [z3.Real('pi') > z3.RealVal('3.14159'), z3.Real('pi') < z3.RealVal('3.1416')]; done = set()
        for t in sorted(self.special, key=lambda t: t.id):
            if t.op == 'sqrt':
                a, x = self.get(t.args[0])[0], self.get(t)[0]
                out += [x >= 0, z3.Implies(a >= 0, x * x == a)]
            elif t.op == 'atan2':
                x = self.get(t)[0]; y_, x_ = self.get(t.args[0])[0], self.get(t.args[1])[0]
                pi = z3.Real('pi')
                out += [x <= pi, x > -pi, z3.Implies(y_ > 0, x > 0), z3.Implies(y_ < 0, x < 0), z3.Implies(z3.And(y_ == 0, x_ >= 0), x == 0)]
            elif t.args[0] not in done:
                done.add(t.args[0])
                s, c = z3.Real('sin!%d' % t.args[0].id), z3.Real('cos!%d' % t.args[0].id)
                out += [s * s + c * c == 1]
        return out


def subst_mono(t, m, r, memo):
    """replace the monomial m, also under numeric coefficients"""
    if t is m: return r
    q = memo.get(t)
    if q is not None: return q
    if t.op == 'mul' and T.isnum(t.args[0]) and T._coef(t)[1] is m: q = T.mul(t.args[0], r)
    else:
        ch = T.children(t)
        n = tuple(subst_mono(c, m, r, memo) for c in ch)
        q = t if all(a is b for a, b in zip(ch, n)) else T.rebuild(t, n)
    memo[t] = q
    return q


_canon = {}


def canon(t):
    """rename bound variables canonically: by the number of binders nested inside, so that a closed subterm looks the same everywhere"""
    return canon_(t)[0]


def canon_(t):
    r = _canon.get(t)
    if r is not None: return r
    if t.op in ('sum', 'forall'):
        lo, hi = canon_(t.args[1]), canon_(t.args[2])
        body, h = canon_(t.args[3])
        b = T.var('#c%d' % h, 'I')
        if t.args[0] is not b: body = T.subst(body, {t.args[0]: b})
        q = T._mk(t.op, (b, lo[0], hi[0], body), t.sort)
        r = q, max(h + 1, lo[1], hi[1])
    else:
        ch = T.children(t)
        rs = [canon_(c) for c in ch]
        n = tuple(x for x, _ in rs)
        r = (t if all(a is b for a, b in zip(ch, n)) else T.rebuild(t, n)), max([h for _, h in rs] + [0])
    _canon[t] = r
    return r


class Lemmas:
    """facts about uninterpreted functions: prefix sums, instantiated at the index terms that occur"""
    def __init__(self):
        self.prefix = {}     # name -> (step: callable(term)->term, lo, hi, base)
        self.select = {}     # name -> callable(args) -> list of facts
        self.defs = {}       # name -> callable(args, env) -> value, for functions with one interpretation only

    def add_prefix(self, name, step, lo, hi, base):
        """prefix sums with the same steps, start and base are the same function (by induction): one name for them"""
        q = T.var('#prefix', 'I')
        for nm, (st, l, h, b) in self.prefix.items():
            if st(q) is step(q) and l is lo and b is base and h is hi: return nm
        self.prefix[name] = (step, lo, hi, base)
        return name

    def instances(self, ts):
        out = []; seen = set(); pend = list(ts)
        for _ in range(3):
            sub = T.subterms(pend)
            new = []
            byf = {}
            for t in sub:
                if t.op == 'app': byf.setdefault(t.args[0], []).append(t)
            for f, l in byf.items():
                if f in self.prefix:
                    step, lo, hi, base = self.prefix[f]
                    mk = lambda a: T.app(f, (a,), l[0].sort)
                    for t in l:
                        if ('p', t) in seen: continue
                        seen.add(('p', t))
                        a = t.args[1]
                        new.append(T.eq(mk(lo), base))
                        new.append(T.implies(T.and_(T.le(lo, a), T.lt(a, hi)), T.and_(T.eq(mk(T.add(a, T.num(1, 'I'))), T.add(t, step(a))), T.le(T.num(0, 'I'), step(a)))))
                    for t in l:
                        for u in l:
                            if t is u or ('m', t, u) in seen: continue
                            seen.add(('m', t, u))
                            new.append(T.implies(T.and_(T.le(lo, t.args[1]), T.le(t.args[1], u.args[1]), T.le(u.args[1], hi)), T.le(t, u)))
                if f in self.select:
                    for t in l:
                        if ('s', t) in seen: continue
                        seen.add(('s', t))
                        new += self.select[f](*t.args[1:])
            if not new: break
            out += new; pend = pend + new
        return out


_inst = {}
_pats = {}


def false_foralls(facts):
    """the foralls that may have to be false to make the facts true"""
    out = set(); seen = set(); st = [(f, True) for f in facts]
    while st:
        t, pos = st.pop()
        if (t, pos) in seen or t.sort != 'B': continue
        seen.add((t, pos))
        if t.op == 'not': st.append((t.args[0], not pos))
        elif t.op in ('and', 'or'): st += [(a, pos) for a in t.args]
        elif t.op == 'forall':
            if not pos: out.add(t)
        else:       # iff, comparisons of ite terms
            for u in T.subterms([t]):
                if u.op == 'forall': out.add(u)
    return out


_plain = {}


def plain(f):
    r = _plain.get(f)
    if r is None: r = _plain[f] = not any(t.op in ('forall', 'sum') for t in T.subterms([f]))
    return r


class Lin:
    """a weaker reading in which products of real terms are uninterpreted after everything is multiplied out: what follows from it
    follows, by linear arithmetic and congruence only"""
    def __init__(self, quotients=False): self.memo = {}; self.pm = {}; self.quotients = quotients    # quotients: left as they are

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.conv(t)
        return r

    def conv(self, t):
        if t.op in ('var', 'num', 'bool'): return t
        if t.op in ('add', 'mul') and t.sort == 'R': return self.back(self.poly(t))
        if t.op in ('sqrt', 'sin', 'cos', 'atan2'): return T.app('*' + t.op, tuple(self(a) for a in t.args))
        if t.op == 'div': return self.back(self.poly(t))
        if t.op in ('sum', 'forall'): return canon(t)
        ch = T.children(t)
        n = tuple(self(c) for c in ch)
        return t if all(a is b for a, b in zip(ch, n)) else T.rebuild(t, n)

    def back(self, p):
        out = []
        for m, c in p.items():
            if not m: out.append(T.num(c)); continue
            out.append(T.mul(T.num(c), self.prod(m)))
        return T.add(T.num(0), *out)

    def prod(self, m):
        r = m[-1]
        for a in m[-2::-1]: r = T.app('*nl', (a, r))
        return r

    def axioms(self, fs):
        """a few true facts about the uninterpreted symbols"""
        out = []; z = T.num(0)
        if self.quotients: return out
        for t in T.subterms(fs):
            if t.op != 'app': continue
            if t.args[0] == '*sqrt':
                x = t.args[1]
                out += [T.le(z, t), T.implies(T.lt(z, x), T.lt(z, t)), T.implies(T.le(z, x), T.eq(T.app('*nl', (t, t)), x))]
            elif t.args[0] == '*inv':
                x = t.args[1]
                out += [T.implies(T.lt(z, x), T.lt(z, t)), T.implies(T.ne(x, z), T.eq(self.back(self.times(self.poly(x), {(t,): Fraction(1)})), T.num(1)))]
            elif t.args[0] == '*nl':
                a, b = t.args[1:]
                if a is b: out.append(T.le(z, t))
                else:
                    out += [T.implies(T.and_(T.le(z, a), T.le(z, b)), T.le(z, t)), T.implies(T.and_(T.le(a, z), T.le(b, z)), T.le(z, t)), T.implies(T.and_(T.le(z, a), T.le(b, z)), T.le(t, z)), T.implies(T.and_(T.le(a, z), T.le(z, b)), T.le(t, z)),
                            T.implies(T.and_(T.ne(a, z), T.ne(b, z)), T.ne(t, z))]
        return out

    def poly(self, t):
        r = self.pm.get(t)
        if r is None: r = self.pm[t] = self.poly_(t)
        return r

    def poly_(self, t):
        if t.op == 'num': return {(): t.args[0]} if t.args[0] else {}
        if t.op == 'add':
            r = {}
            for a in t.args:
                for m, c in self.poly(a).items():
                    v = r.get(m, 0) + c
                    if v: r[m] = v
                    else: r.pop(m, None)
            return r
        if t.op == 'mul':
            r = self.poly(t.args[0])
            for a in t.args[1:]: r = self.times(r, self.poly(a))
            return r
        if t.op == 'div' and self.quotients: return {(T.app('*div', (self(t.args[0]), self(t.args[1]))),): Fraction(1)}
        if t.op == 'div':
            d = self(t.args[1])
            return self.times(self.poly(t.args[0]), {(T.app('*inv', (d,)),): Fraction(1)})
        return {(self(t),): Fraction(1)}

    def times(self, p, q):
        if len(p) * len(q) > 3000: raise TooBig()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n, key=lambda a: a.id))
                v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        return r


def known_conditions(fs, others=()):
    """replace conditions inside terms that are themselves among the facts"""
    m = {}
    for f in fs:
        for g in (f.args if f.op == 'and' else (f,)):
            a = g.args[0] if g.op == 'not' else g
            if a.op in ('le0', 'eq0') and a.args[0].sort == 'I': m[a] = T.boolc(g is a)
    if not m: return fs + list(others)
    for c, v in list(m.items()): m[T.not_(c)] = T.not_(v)
    memo = {}
    return [f if f in m or f.op in ('not', 'and') else T.subst(f, m, memo) for f in fs] + [T.subst(f, m, memo) for f in others]


_lin = Lin(); _linq = Lin(True)
_nonlin = {}


def nonlinear(f):
    r = _nonlin.get(f)
    if r is None:
        r = _nonlin[f] = any(t.op == 'div' or t.op == 'mul' and t.sort == 'R' and (len(t.args) > 2 or not T.isnum(t.args[0])) for t in T.subterms([f]))
    return r


_intonly = {}


def intonly(f):
    """nothing but integer comparisons"""
    r = _intonly.get(f)
    if r is None: r = _intonly[f] = not any(t.sort == 'R' or t.op in ('forall', 'sum') for t in T.subterms([f]))
    return r


class Prover:
    def __init__(self, lemmas=None):
        self.lem = lemmas or Lemmas()
        self.linear = False        # first try everything by linear arithmetic, products left uninterpreted
        self.fcache = {}
        self.guards = {}           # requirements which only witnesses are checked against
        self.examples = {}         # generators of input values inside the precondition: rnd -> {(name, arguments): value}
        self.triggers = False      # instantiate a forall only at the arguments its functions are applied to

    def instantiate(self, facts, goal, seen_inst):
        out = []; pol = list(facts)
        for rnd in range(3):
            sub = T.subterms(list(facts) + out + list(goal))
            alls = [t for t in sub if t.op == 'forall' and not any(s.args[0].startswith('#') for s in T.free(t))]
            n0 = len(out)
            negs = false_foralls(pol)
            for t in alls:
                if t not in negs: continue
                k = canon(t)
                if ('w', k) in seen_inst: continue
                seen_inst.add(('w', k))
                bv, lo, hi, body = t.args
                w = T.var('wit!%d' % k.id, 'I'); nb = T.not_(self.inst(t, w))
                out.append(T.or_(t, T.and_(T.le(lo, w), T.lt(w, hi), nb))); pol.append(nb)
            if len(out) > n0: sub = T.subterms(list(facts) + out + list(goal))
            idxs = self.by_position(sub) if self.triggers else self.indices(sub)
            for t in alls:
                k = canon(t)
                bv, lo, hi, body = t.args
                for i in (self.candidates(t, idxs) if self.triggers else idxs):
                    if ('i', k, i) in seen_inst: continue
                    seen_inst.add(('i', k, i))
                    e = self.inst(t, i)
                    out.append(T.implies(T.and_(t, T.le(lo, i), T.lt(i, hi)), e)); pol.append(e)
            if len(out) == n0: break
        return out

    def by_position(self, sub):
        """the closed arguments of every function, by position"""
        s = {}
        for t in sub:
            if t.op == 'app':
                for q, a in enumerate(t.args[1:]):
                    if a.sort == 'I' and not any(v.args[0].startswith('#') for v in T.free(a)): s.setdefault((t.args[0], q), {})[a] = 1
        return s

    def candidates(self, t, idxs):
        """the index terms at which the body of a forall meets a term that occurs"""
        bv = t.args[0]; out = {}
        pats = _pats.get(t)
        if pats is None:
            pats = _pats[t] = {(u.args[0], q, T.sub(a, bv)) for u in T.subterms([t.args[3]]) if u.op == 'app' for q, a in enumerate(u.args[1:]) if a.sort == 'I' and bv in T.free(a) and T.isnum(T.sub(a, bv))}
        for f, q, off in sorted(pats, key=lambda p: (p[0], p[1], p[2].id)):
            for a in idxs.get((f, q), ()): out[T.sub(a, off)] = 1
        return list(out)

    def inst(self, t, i):
        r = _inst.get((t, i))
        if r is None: r = _inst[t, i] = T.subst(t.args[3], {t.args[0]: i})
        return r

    # --- foralls: instantiate at the integer index terms that occur
    def expand(self, facts, goal=()):
        """facts (list of terms, conjunctive): add instances of true foralls, Skolem witnesses of false ones"""
        facts = list(facts); out = []; done = set()
        seen_inst = set()
        out = self.instantiate(facts, goal, seen_inst)
        for _ in range(3):
            new = [f for f in self.lem.instances(facts + out + list(goal)) if f not in done]
            done.update(new); out += new
            if not any(t.op == 'forall' for t in T.subterms(new)): break
            out += self.instantiate(facts + out, goal, seen_inst)
        return out

    def indices(self, sub):
        s = {}
        for t in sub:
            if t.op == 'app':
                for a in t.args[1:]:
                    if a.sort == 'I' and not any(v.args[0].startswith('#') for v in T.free(a)): s[a] = 1
            elif t.op == 'var' and t.sort == 'I' and (t.args[0].startswith('wit!') or t.args[0].startswith('sk')): s[t] = 1
        return list(s)[:24]

    def check(self, facts, extra=(), timeout=TIMEOUT, model=False):
        """satisfiability of facts /\\ extra"""
        allf = [g for f in list(facts) + list(extra) for g in (f.args if f.op == 'and' else (f,)) if g is not T.TRUE]
        if any(f is T.FALSE for f in allf): return 'unsat'
        key = None
        if not model:
            key = frozenset(allf)
            if key in self.fcache: return self.fcache[key]
        if self.linear and extra and all(intonly(f) for f in extra) and self.check_int(allf):
            if key is not None: self.fcache[key] = 'unsat'
            return 'unsat'
        C = Conv()
        fs = allf + self.expand(allf)
        if self.linear and any(nonlinear(f) for f in fs) and self.check_linear(fs, timeout):
            if key is not None: self.fcache[key] = 'unsat'
            return 'unsat'
        s = z3.Solver(); s.set('timeout', timeout)
        for f in fs: s.add(C(f))
        for a in C.axioms(): s.add(a)
        t0 = time.time()
        try: r = str(s.check())
        except z3.Z3Exception: r = 'unknown'
        STATS['z3_calls'] += 1; STATS['z3_s'] += time.time() - t0
        if r == 'sat' and model: self.model, self.conv = s.model(), C
        if key is not None and r != 'unknown': self.fcache[key] = r
        return r

    def check_int(self, fs):
        fs = frozenset(f for f in fs if intonly(f))
        key = ('int', fs)
        if key in self.fcache: return self.fcache[key]
        C = Conv(); s = z3.Solver(); s.set('timeout', 1000)
        for f in fs: s.add(C(f))
        t0 = time.time()
        r = self.fcache[key] = str(s.check()) == 'unsat'
        STATS['z3_calls'] += 1; STATS['z3_s'] += time.time() - t0
        return r

    def check_linear(self, fs, timeout):
        """do the expanded facts contradict each other by linear arithmetic and congruence?"""
        fs = known_conditions(fs)
        for lin in (_linq, _lin):
            s = z3.Solver(); s.set('timeout', timeout); C = Conv()
            try: ls = [lin(f) for f in fs]; ls += lin.axioms(ls)
            except TooBig: return False
            for f in ls: s.add(C(f))
            t0 = time.time()
            try: r = str(s.check())
            except z3.Z3Exception: r = 'unknown'
            STATS['z3_calls'] += 1; STATS['z3_s'] += time.time() - t0
            if r == 'unsat': return True
        return False

    def check_plain(self, facts, extra=(), timeout=1500):
        """satisfiability, leaving out everything quantified: 'unsat' is certain"""
        fs = [f for f in list(facts) + list(extra) if plain(f)]
        key = ('plain', frozenset(fs))
        if key in self.fcache: return self.fcache[key]
        if any(f is T.FALSE for f in fs): return 'unsat'
        C = Conv(); s = z3.Solver(); s.set('timeout', timeout)
        if self.linear:
            if extra and all(intonly(f) for f in extra):
                r = 'unsat' if self.check_int([g for f in fs for g in (f.args if f.op == 'and' else (f,))]) else 'sat?'
                self.fcache[key] = r
                return r
            # cheap and certain when it says unsat; otherwise left open
            r = 'unsat' if self.check_linear(fs, timeout) else 'sat?'
            self.fcache[key] = r
            return r
        for f in fs: s.add(C(f))
        t0 = time.time()
        try: r = str(s.check())
        except z3.Z3Exception: r = 'unknown'
        STATS['z3_calls'] += 1; STATS['z3_s'] += time.time() - t0
        if r != 'unknown': self.fcache[key] = r
        return r

    def implied(self, pc, c, timeout=2000):
        if c is T.TRUE: return True
        if c is T.FALSE: return False
        if c in pc: return True
        return self.check(pc, [T.not_(c)], timeout) == 'unsat'

    def prove(self, pc, goal, deadline=None):
        """-> (verdict, witness or reason)"""
        pc = [canon(T.strip_det(p, {})) for p in pc]; goal = canon(T.strip_det(goal, {}))
        deadline = deadline or time.time() + 60
        if self.linear:
            pc = [g for f in pc for g in (f.args if f.op == 'and' else (f,))]
            fs = known_conditions(pc, [goal]); pc, goal = [canon(f) for f in fs[:-1]], canon(fs[-1])
        if sums.uses_next(pc + [goal]):
            try:
                plain = sums.Nf()
                pc = [canon(plain.norm(f)) for f in pc]
                nf = sums.Nf(lambda e, ranges: self.sign(pc, e, ranges))
                goal = nf.norm(goal)
                pc = [canon(nf.norm(f)) for f in pc]; goal = canon(goal)
            except (sums.TooBig, ZeroDivisionError): pass
        return self._prove(list(pc), goal, deadline)

    def small(self, facts, goal, timeout=8000):
        """does the goal follow from these few facts by real arithmetic alone?  Applications are read as unknowns, and equalities that
        give one of them in terms of others are used to eliminate it"""
        fs = [T.strip_det(f, {}) for f in facts] + [T.not_(T.strip_det(goal, {}))]
        fs = [f for f in fs if not any(t.op in ('forall', 'sum') for t in T.subterms([f]))]
        apps = {}
        def ab(t):
            for u in T.children(t):
                if u.op == 'app': apps.setdefault(u, T.var('#a%d' % len(apps), u.sort))
                else: ab(u)
        for f in fs: ab(f)
        fs = [canon(T.subst(f, apps)) for f in fs]
        fs = [g for f in fs for g in (f.args if f.op == 'and' else (f,))]
        i = 0
        while i < len(fs):
            f = fs[i]; i += 1
            if f.op != 'eq0' or f.args[0].sort != 'R': continue
            e = f.args[0]
            for a in (e.args if e.op == 'add' else (e,)):
                c, m = T._coef(a)
                if m.op != 'var': continue
                rest = T.sub(e, a)
                if m in T.subterms([rest]): continue
                r = T.mul(T.num(-1 / c), rest)
                fs = [g for h in fs if h is not f for g in [canon(T.subst(h, {m: r}))]]; i = 0
                break
        fs = [g for f in fs for g in (f.args if f.op == 'and' else (f,)) if g is not T.TRUE]
        if any(f is T.FALSE for f in fs): return True
        for f in fs:
            if f.op == 'not' and f.args[0].op == 'eq0' and f.args[0].args[0].sort == 'R':
                try:
                    if Ring().is_zero(f.args[0].args[0]): return True
                except (TooBig, ZeroDivisionError): pass
        if self.check_linear(fs, 1500): return True
        C = Conv(); s = z3.SolverFor('QF_NRA'); s.set('timeout', timeout)
        try: s.add(*[C(f) for f in fs])
        except TooBig: return False
        t0 = time.time(); r = s.check(); STATS['z3_calls'] += 1; STATS['z3_s'] += time.time() - t0
        return r == z3.unsat

    def sign(self, pc, e, ranges):
        """1 if e >= 0, -1 if e <= 0 for all values of the bound variables in their ranges, else 0"""
        m = {b: T.var('sk!%d' % b.id, 'I') for b, lo, hi in ranges}
        fs = [T.subst(c, m) for b, lo, hi in ranges for c in (T.le(lo, b), T.lt(b, hi))]
        e = T.subst(e, m)
        for s, g in ((1, T.le(T.num(0), e)), (-1, T.le(e, T.num(0)))):
            if self.check(list(pc) + fs, [T.not_(g)], 3000) == 'unsat': return s
        return 0

    def _prove(self, pc, goal, dl):
        if goal is T.TRUE: return 'proved', None
        if goal.op == 'and':
            unk = None
            for g in goal.args:
                v, w = self._prove(pc, g, dl)
                if v == 'refuted': return v, w
                if v == 'unknown': unk = w
            return ('unknown', unk) if unk else ('proved', None)
        if goal.op == 'or':                       # pc /\ not a => b
            nots = [x for x in goal.args if x.op not in ('eq0', 'and', 'iff')]
            rest = [x for x in goal.args if x.op in ('eq0', 'and', 'iff')]
            if len(rest) == 1 and nots:
                return self._prove(pc + [T.not_(x) for x in nots], rest[0], dl)
        if goal.op == 'forall':
            bv, lo, hi, body = goal.args
            k = T.var('sk!%d' % goal.id, 'I')
            return self._prove(pc + [T.le(lo, k), T.lt(k, hi)], T.subst(body, {bv: k}), dl)
        if goal.op == 'iff':
            a, b = goal.args
            v, w = self._prove(pc + [a], b, dl)
            if v != 'proved': return v, w
            return self._prove(pc + [b], a, dl)
        if self.linear:
            allf = [g for f in pc + [T.not_(goal)] for g in (f.args if f.op == 'and' else (f,)) if g is not T.TRUE]
            if not intonly(goal) and self.check_linear(allf + self.expand(allf), 3000): return 'proved', None
        if goal.op == 'eq0' and goal.args[0].sort == 'R': return self.prove_zero(pc, goal.args[0], dl)
        r = self.check(pc, [T.not_(goal)], model=True)
        if r == 'unsat': return 'proved', None
        return self.witness(pc, goal, r)

    def prove_zero(self, pc, d, dl, depth=0):
        if time.time() > dl: return 'unknown', 'time limit'
        if T.isnum(d): 
            if T.val(d) == 0: return 'proved', None
        # resolve ite conditions
        c = first_cond(d)
        if c is not None:
            if depth > 40: return 'unknown', 'too many cases'
            pos, negv = self.check(pc, [c], 2000), None
            res = []
            for val, fact in ((T.TRUE, c), (T.FALSE, T.not_(c))):
                st = pos if val is T.TRUE else self.check(pc, [fact], 2000)
                if st == 'unsat': continue
                m = {c: val, T.not_(c): T.not_(val)}
                nd = T.subst(d, {c: val})
                v, w = self.prove_zero(pc + [fact], nd, dl, depth + 1)
                if v == 'refuted': return v, w
                res.append((v, w))
            for v, w in res:
                if v != 'proved': return v, w
            return 'proved', None
        es = {t: T.num(0, t.sort) for t in T.subterms([d]) if t.op == 'sum' and self.check(pc, [T.lt(t.args[1], t.args[2])], 2000) == 'unsat'}
        if es: return self.prove_zero(pc, T.subst(d, es), dl, depth + 1)
        STATS['ring'] += 1
        # sin(atan2(y, x)) = y / |(x, y)| does not cover the zero vector, whose angle is 0
        for t in T.subterms([d]):
            if t.op != 'atan2': continue
            z = [T.eq(a, T.num(0)) for a in t.args]
            if T.and_(*z) is T.FALSE or self.check(pc, z, 2000) == 'unsat': continue
            m = {t: T.num(0)}
            for a in t.args:
                if a.op == 'add':      # one variable of the argument expressed by the others
                    for u in a.args:
                        c, v = T._coef(u)
                        if v.op in ('var', 'app') and v not in T.subterms([T.sub(a, u)]): m[v] = T.mul(T.num(-1 / c), T.sub(a, u)); break
                elif a.op in ('var', 'app'): m[a] = T.num(0)
            d0 = T.subst(T.subst(d, {t: T.num(0)}), m)
            if any(x.op == 'atan2' for x in T.subterms([d0])) and depth > 12: return 'unknown', 'angles of zero vectors'
            v, w = self.prove_zero(pc + z, d0, dl, depth + 1)
            if v != 'proved': return v, w
        try:
            rg = Ring()
            if rg.is_zero(d): return 'proved', None
        except (TooBig, ZeroDivisionError): pass
        # equalities among the facts may be needed
        d2 = self.substitute_facts(pc, d)
        if d2 is not d:
            try:
                if Ring().is_zero(d2): return 'proved', None
            except (TooBig, ZeroDivisionError): pass
        r = self.check(pc, [T.not_(T.eq(d, T.num(0, d.sort)))], model=True)
        if r == 'unsat': return 'proved', None
        return self.witness(pc, T.eq(d, T.num(0, d.sort)), r)

    def substitute_facts(self, pc, d):
        eqs = [f.args[0] for f in pc if f.op == 'eq0']
        for q in range(len(eqs)):
            e = eqs[q]
            for a in (e.args if e.op == 'add' else (e,)):
                k, m = T._coef(a)
                if m.op not in ('var', 'app', 'mul') or m is T.PI: continue
                rest = T.sub(e, a)
                if m in T.subterms([rest]) or (e.sort != 'R' and abs(k) != 1): continue
                r = T.mul(T.num(-1 / k, e.sort), rest)
                if not any(subst_mono(x, m, r, {}) is not x for x in [d] + eqs[q + 1:]): continue
                d = subst_mono(d, m, r, {})
                eqs[q + 1:] = [subst_mono(x, m, r, {}) for x in eqs[q + 1:]]
                break
        # index equalities under applications: congruent applications get the same name
        apps = [t for t in T.subterms([d]) if t.op == 'app' and len(t.args) > 1]
        m = {}
        for i, a in enumerate(apps):
            for b in apps[:i]:
                if a.args[0] == b.args[0] and len(a.args) == len(b.args) and b not in m:
                    ga = T.and_(*[T.eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
                    if ga is not T.FALSE and self.implied(pc, ga): m[a] = b; break
        if m: d = T.subst(d, m)
        return d

    # --- witnesses
    def witness(self, pc, goal, r):
        """try to find values (with true square roots and sines) satisfying pc and violating the goal"""
        facts = pc + [T.not_(goal)] + list(self.guards.values())
        rnd = random.Random(12345)
        cands = []
        if r == 'sat':
            cands.append(self.model_env(self.model, self.conv))
            ints = [v for v in T.subterms(facts) if v.op == 'var' and v.sort == 'I' and not str(v.args[0]).startswith('#')]
            small = [c for v in ints for c in (T.le(v, T.num(3, 'I')), T.le(T.num(-3, 'I'), v))]
            if small and self.check(pc + [T.not_(goal)], small, 3000, model=True) == 'sat': cands.append(self.model_env(self.model, self.conv))
        for k in range(400):
            cands.append(self.sample(rnd))
        for env in cands:
            env = self.with_defs(env)
            try:
                memo = {}
                if all(T.evaluate(f, env, memo) for f in facts if f.op != 'forall') and all(T.evaluate(f, env, memo) for f in facts if f.op == 'forall'):
                    # a refutation needs a clear margin on equalities
                    return 'refuted', dict(env.used)
            except (T.EvalError, OverflowError, ZeroDivisionError, RecursionError): pass
        return 'unknown', 'z3: %s; no witness evaluated' % r

    def sample(self, rnd):
        env = rand_env(rnd)
        if not self.examples: return env
        vals = {}
        for g in self.examples.values(): vals.update(g(rnd))
        def e(name, args, sort):
            k = (name, args, sort)
            if k not in env.used and (name, args) in vals: env.used[k] = vals[name, args]
            return env(name, args, sort)
        e.used = env.used
        return e

    def true_under(self, facts, env):
        memo = {}; facts = list(facts) + list(self.guards.values())
        try: return all(T.evaluate(f, env, memo) for f in facts if f.op != 'forall') and all(T.evaluate(f, env, memo) for f in facts if f.op == 'forall')
        except (T.EvalError, OverflowError, ZeroDivisionError, RecursionError): return False

    def with_defs(self, env):
        if not self.lem.defs: return env
        def e(name, args, sort):
            d = self.lem.defs.get(name)
            if d is None: return env(name, args, sort)
            k = (name, args, sort)
            if k not in env.used: env.used[k] = d(args, e)
            return env.used[k]
        e.used = env.used
        return e

    def model_env(self, m, C):
        vals = {}
        fds = {d.name(): d for d in m.decls()}
        def env(name, args, sort):
            k = (name, args, sort)
            if k in env.used: return env.used[k]
            d = fds.get(name)
            v = None
            if d is not None:
                try:
                    e = d(*[z3.IntVal(int(a)) if d.domain(i) == z3.IntSort() else z3.RealVal(repr(a)) for i, a in enumerate(args)]) if args else d()
                    x = m.eval(e, model_completion=True)
                    v = z3num(x, sort)
                except Exception: v = None
            if v is None: v = {'R': 0.5, 'I': 0, 'B': False}[sort]
            env.used[k] = v
            return v
        env.used = {}
        return env


def z3num(x, sort):
    if sort == 'B': return z3.is_true(x)
    if sort == 'I': return x.as_long()
    if z3.is_rational_value(x): return float(x.numerator_as_long()) / float(x.denominator_as_long()) if abs(x.denominator_as_long()) < 10 ** 300 else float(x.as_fraction())
    if z3.is_algebraic_value(x): return float(x.approx(15).as_fraction())
    return None


def rand_env(rnd):
    def env(name, args, sort):
        k = (name, args, sort)
        if k not in env.used:
            env.used[k] = rnd.choice([rnd.uniform(-2, 2), rnd.uniform(.1, 3), float(rnd.randint(-2, 3))]) if sort == 'R' else rnd.randint(0, 4) if sort == 'I' else rnd.random() < .5
        return env.used[k]
    env.used = {}
    return env


def first_cond(d):
    """an ite condition with no ite inside"""
    seen = set(); st = [d]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op in ('sum', 'forall'): continue
        if t.op == 'ite':
            sub = first_cond(t.args[0])
            if sub is not None: return sub
            return atom_of(t.args[0])
        st.extend(T.children(t))
    return None


def atom_of(c):
    while c.op in ('and', 'or', 'not', 'iff'): c = c.args[0]
    return c
