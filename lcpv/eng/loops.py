"""Loops over sequences of symbolic length.

The effect of a loop is inferred from an arbitrary iteration i and then checked by induction: the state at the start of iteration i is
replaced by the inferred summary up to i, the body is executed again, and it must perform exactly the writes the summary is made of."""
import ast
from . import terms as T
from .base import *
from .ft import *
from .interp import *
from .interp import _Cont, _Brk, _Ret

ONE = T.num(1, 'I')


def gen_ix(n): return tuple(T.var('gx%d' % k, 'I') for k in range(n))


def hold_subst(f, ix, m):
    """f(*ix) with m substituted in f but not in ix"""
    hold = tuple(T.var('hold!%d!%d' % (j, next_hold()), 'I') for j in range(len(ix)))
    r = f(*hold)
    if not isinstance(r, T.Term): raise Unsupported('hold')
    r = T.subst(r, m)
    return T.subst(r, dict(zip(hold, ix)))


_h = [0]


def next_hold():
    _h[0] += 1
    return _h[0]


def sv_eq(it, pc, a, b):
    """are two values the same (terms identical, or provably equal)?"""
    if a is b: return True
    if is_scalar(a) and is_scalar(b):
        x, y = t_of(a), t_of(b)
        return x is y or it.prover.prove(pc, T.eq(numeric(x), numeric(y)))[0] == 'proved'
    if isinstance(a, FT) and isinstance(b, FT):
        if a.dtype_ != b.dtype_ or len(a.shape_) != len(b.shape_): return False
        ix = gen_ix(len(a.shape_))
        if all(isinstance(s, int) for s in a.shape_):
            if a.shape_ != b.shape_: return False
            return all(sv_eq(it, pc, wrap(x), wrap(y)) for x, y in zip(a.terms(), b.terms()))
        return sv_eq(it, pc, wrap(a.at(*ix)), wrap(b.at(*ix)))
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(sv_eq(it, pc, x, y) for x, y in zip(a, b))
    if isinstance(a, SymObj) and isinstance(b, SymObj): return a.fam is b.fam and sv_eq(it, pc, wrap(a.k), wrap(b.k))
    if isinstance(a, Opt) and isinstance(b, Opt): return a.has is b.has and sv_eq(it, pc, a.v, b.v)
    return a == b if isinstance(a, (str, type(None))) else False


def linear(t, i):
    """t = a*i + b with integer constant a: (a, b) or None"""
    a = 0; rest = []
    for u in (t.args if t.op == 'add' else (t,)):
        if u is i: a += 1; continue
        if i in T.free(u):
            k, m = T._coef(u)
            if m is i: a += k; continue
            return None
        rest.append(u)
    return int(a), (T.add(*rest) if rest else T.num(0, 'I'))


def merged(outs, vals):
    v = vals[-1]
    for o, x in list(zip(outs, vals))[-2::-1]: v = merge(T.and_(*o.pc), x, v)
    return v


def run_body(it, s, sc, seq, i, n):
    def fn():
        it.assume(T.and_(T.le(Z, i), T.lt(i, n)))
        it.loop_ix.append(i)
        it.assign(s.target, seq.elem(i), sc)
        try: it.body(s.body, sc)
        except _Cont: pass
        except _Brk: return 'brk'
        except _Ret: return 'ret'
        return 'ok'
    return it.explore(fn)


class Loc:
    def __init__(self, host, d, k, had, old): self.host, self.d, self.k, self.had, self.old = host, d, k, had, old; self.mode = None; self.pay = None; self.name = None


def chain(ver, base):
    out = []
    while ver is not base:
        if isinstance(ver, (WriteV, ListWrite)): out.append(ver); ver = ver.prev
        else: raise Unsupported('a whole tensor or list is replaced in a loop')
    return out            # latest first


def summarize(it, s, sc, seq):
    n = seq.n
    if it.implied(T.eq(n, Z)): return
    i = T.var(it.fresh_name('i'), 'I')
    locs = {}
    for rnd in range(14):
        st0 = stamp(); mark = len(it.trail)
        for L in locs.values(): install(it, L, i, n, inside=i)
        changed = False
        # while an integer accumulator is still unknown its uses as sizes and bounds are not checked; that round only serves to find it
        perm0 = it.permissive
        learning = rnd == 0 or any(L.mode == 'acc' and L.pay is None and (L.typ is None or L.typ == ('S', 'I')) and is_scalar(L.old) and t_of(L.old).sort == 'I' for L in locs.values())
        it.permissive = perm0 or learning
        if learning: changed = True
        try:
            outs = run_body(it, s, sc, seq, i, n)
        except PoisonRead as e:
            it.undo(mark)
            L = locs.get(e.loc)
            if L is None: raise
            if L.mode != 'temp': raise Unsupported('value carried through a loop: %s' % (L.k,))
            L.mode = 'acc'; L.name = it.fresh_name('acc_%s' % L.k); L.typ = None
            continue
        finally: it.permissive = perm0
        it.undo(mark)
        outs = [o for o in outs if o.kind != 'end' or o.obls]
        live = [o for o in outs if o.kind != 'end']
        for o in live:
            if o.kind == 'raise': raise Unsupported('exception %s may leave a loop' % o.val.name)
            if o.val != 'ok': raise Unsupported('a loop over a symbolic sequence is left early')
        if not live: raise Unsupported('loop body has no end')
        # what is written?
        for o in live:
            for key, (host, d, k, had, old, new) in o.final.items():
                if host is it or getattr(host, 'stamp', 0) >= st0: continue
                if key not in locs:
                    L = Loc(host, d, k, d is not None and k in d, d.get(k))
                    if isinstance(host, Store) and k == 'ver': L.mode = 'store'
                    elif isinstance(host, FamAttr) and k == 'ver': L.mode = 'fam'
                    elif isinstance(host, PList) and k == 'items': L.mode = 'plist'
                    elif isinstance(host, PSet): raise Unsupported('set changed in a loop')
                    else: L.mode = 'temp'
                    locs[key] = L; changed = True
        if learning:
            for key, L in locs.items():
                if L.mode == 'acc': learn(it, L, key, live, i, n)
            continue
        if changed: continue
        for key, L in locs.items():
            if learn(it, L, key, live, i, n): changed = True
        if not changed: break
    else: raise Unsupported('no loop summary found')
    for o in outs: it.obls += o.obls
    for L in locs.values(): install(it, L, i, n, inside=None)


def cur_base(L):
    return L.base


def install(it, L, i, n, inside):
    up = i if inside is not None else n
    if L.mode == 'temp':
        if inside is None and not isinstance(L.host, Scope):
            v = L.pay[0](n) if L.pay and L.pay[0] else Poison((id(L.d), L.k))
        else: v = Poison((id(L.d), L.k))
        it.put_in(L.host, L.d, L.k, v)
    elif L.mode == 'acc':
        it.put_in(L.host, L.d, L.k, acc_value(it, L, up, n, inside is None))
    elif L.mode == 'store':
        L.base = SummaryV(L.old, L.pay, i, up, it) if L.pay else L.old
        if L.pay or inside is None: it.put_in(L.host, L.d, L.k, L.base)
    elif L.mode == 'fam':
        L.base = SummaryL(L.old, L.pay, i, up, it) if L.pay else L.old
        if L.pay or inside is None: it.put_in(L.host, L.d, L.k, L.base)
    elif L.mode == 'plist':
        if isinstance(L.old, SymItems): n0, b = L.old.n, L.old.ver
        else:
            its = L.old; n0 = T.num(len(its), 'I')
            b = ListBase(lambda k: its[int(T.val(k))] if T.isnum(k) else pick(its, k))
        a, w = L.pay if L.pay else (0, None)
        L.base = SummaryL(b, w, i, up, it) if w else b
        L.n0, L.ni = n0, T.add(n0, T.mul(T.num(a, 'I'), up))
        it.put_in(L.host, L.d, L.k, SymItems(L.ni, L.base))


def pick(its, k):
    if not its: raise Unsupported('element of an empty list')
    v = its[-1]
    for j in range(len(its) - 2, -1, -1): v = merge(T.eq(k, T.num(j, 'I')), its[j], v)
    return v


def acc_sym(it, L, x):
    ty = L.typ
    if ty is None:
        v = L.old
        if isinstance(v, FT): ty = ('FT', v.shape_, v.dtype_)
        elif isinstance(v, bool) or (isinstance(v, SV) and v.t.sort == 'B'): ty = ('B',)
        elif is_scalar(v): ty = ('S', t_of(v).sort)
        else: raise Unsupported('value carried through a loop: %s' % L.k)
        L.typ = ty
    if ty[0] == 'S': return wrap(T.app(L.name, (x,), ty[1]))
    if ty[0] == 'B': return wrap(T.app(L.name, (x,), 'B'))
    return FT.fn(ty[1], lambda *ix: T.app(L.name, (x,) + ix), ty[2])


def acc_value(it, L, up, n, after):
    if L.pay is None or (not after and not (L.typ == ('S', 'I'))):
        return acc_sym(it, L, up)
    kind = L.pay[0]
    if kind == 'sum': return L.pay[1](up)
    raise Unsupported('accumulator')


def learn(it, L, key, live, i, n):
    fin = []
    for o in live:
        f = o.final.get(key)
        fin.append((o, f is not None, f[5] if f is not None else None))
    if L.mode == 'temp':
        if isinstance(L.host, Scope): return False
        if all(w for _, w, _ in fin):
            try: val = merged(live, [v for _, _, v in fin])
            except Unsupported: L.pay = (None,); return False
            def last(n):
                v = vsubst(val, {i: T.sub(n, ONE)})
                return v if it.implied(T.lt(Z, n)) else merge(T.lt(Z, n), v, L.old)
            L.pay = (last,); return False
        vals = [v for _, w, v in fin if w]
        if vals and all(isinstance(v, (bool, int, str, type(None))) and v == vals[0] for v in vals) and (is_scalar(vals[0]) and is_scalar(L.old)):
            cond = T.or_(*[T.and_(*o.pc) for o, w, _ in fin if w])
            bv = T.fresh_bv()
            def latch(n):
                none = T.forall(bv, Z, n, T.not_(drop_range(T.subst(cond, {i: bv}), bv, n)))
                return merge(none, L.old, vals[0])
            L.pay = (latch,); return False
        L.pay = (None,)
        return False
    if L.mode == 'acc': return learn_acc(it, L, fin, i, n)
    if L.mode in ('store', 'fam'):
        w = []
        for o, wr, v in fin:
            if not wr: continue
            for c in chain(v, L.base if L.pay else L.old): w.append((T.and_(*o.pc), c))
        if isinstance(L.host, Store):
            new = [(g, c.vmap, c.shape, c.match, c.val) for g, c in w]
            if L.pay is not None and same_writes(it, L.pay.writes, new, len(L.host.shape)): return False
            L.pay = StoreWrites(it, new, i, n, L.host)
        else:
            new = [(g, c.ix, c.value) for g, c in w]
            if L.pay is not None and same_lwrites(it, L.pay.writes, new): return False
            L.pay = ListWrites(it, new, i, n)
        return True
    if L.mode == 'plist':
        a = None; w = []
        for o, wr, v in fin:
            k = 0
            if wr:
                d = T.sub(v.n, L.ni)
                if not T.isnum(d): raise Unsupported('list grows irregularly')
                k = int(T.val(d))
                for c in chain(v.ver, L.base): w.append((T.and_(*o.pc), c))
            if a is not None and a != k: raise Unsupported('list grows irregularly')
            a = k
        new = [(g, c.ix, c.value) for g, c in w]
        if L.pay is not None and L.pay[0] == a and (L.pay[1].writes if L.pay[1] else []) is not None and same_lwrites(it, L.pay[1].writes if L.pay[1] else [], new): return False
        if L.pay is None and a:
            # with the length at iteration i unknown so far, indices were relative to the initial length
            new = [(g, T.add(ix, T.mul(T.num(a, 'I'), i)), v) for g, ix, v in new]
        L.pay = (a, ListWrites(it, new, i, n) if new else None)
        return True


def drop_range(c, bv, n):
    ks = [T.le(Z, bv), T.lt(bv, n)]
    if c.op == 'and': return T.and_(*[x for x in c.args if x not in ks])
    return c


def learn_acc(it, L, fin, i, n):
    v0 = L.old
    vals = [v if w else acc_value(it, L, i, n, False) if L.typ == ('S', 'I') else acc_sym(it, L, i) for _, w, v in fin]
    # the type may only become visible after the first iteration
    if L.typ[0] == 'S':
        if any(isinstance(v, FT) for v in vals):
            f = [v for v in vals if isinstance(v, FT)][0]
            if not it.implied(T.lt(Z, n)): raise Unsupported('accumulator of unknown type for an empty sequence')
            L.typ = ('FT', f.shape_, f.dtype_); L.pay = None; return True
        if L.typ[1] == 'I' and any(t_of(v).sort == 'R' for v in vals):
            L.typ = ('S', 'R'); L.pay = None; return True
    outs = [o for o, _, _ in fin]
    if L.typ[0] == 'FT':
        for v in vals:
            if isinstance(v, FT) and not shape_eq(v.shape_, L.typ[1]):
                L.typ = ('FT', v.shape_, v.dtype_); L.pay = None; return True
        sym = acc_sym(it, L, i)
        val = merged(outs, vals)
        fv, fs = val.snap(), sym.snap()
        ix = gen_ix(len(L.typ[1])) if not all(isinstance(x, int) for x in L.typ[1]) else None
        v0f = (lambda *ix: T.toR(t_of(v0))) if is_scalar(v0) else broadcast_to(v0, L.typ[1])
        tab = {}
        def g(*ix): return T.sub(fv(*ix), fs(*ix))
        probe = [g(*ix)] if ix else [g(*p) for p in all_ix(L.typ[1])]
        if any(mentions(p, L.name) for p in probe): raise Unsupported('accumulator %s is not a sum' % L.k)
        def at(up):
            def e(*ix):
                bv = T.fresh_bv()
                return T.add(v0f(*ix), T.summ(bv, Z, up, hold_subst(g, ix, {i: bv})))
            return FT.fn(L.typ[1], e, L.typ[2])
        first = L.pay is None
        L.pay = ('sum', at)
        return False
    if L.typ[0] == 'B': raise Unsupported('boolean accumulator')
    val = t_of(merged(outs, vals)); sym = t_of(acc_value(it, L, i, n, False))
    d = T.sub(val, sym)
    if mentions(d, L.name): raise Unsupported('accumulator %s is not a sum: %s' % (L.k, T.show(d) if hasattr(T,'show') else d))
    if d.sort == 'I':
        if i not in T.free(d) and not T.free(d) & set(it.loop_ix):
            new = ('sum', lambda up: wrap(T.add(t_of(v0), T.mul(d, up))), d)
        else:
            if it.loop_ix: raise Unsupported('nested prefix sums')
            it.obls.append(('prefix sum steps are not negative', list(it.pc) + [T.le(Z, i), T.lt(i, n)], T.le(Z, d)))
            nm = it.prover.lem.add_prefix(L.name, lambda k: T.subst(d, {i: k}), Z, n, t_of(v0))
            it.prover.fcache.clear(); it.stcache.clear()
            new = ('sum', lambda up: wrap(T.app(nm, (up,), 'I')), d)
        if L.pay is not None and L.pay[2] is d: return False
        L.pay = new
        return True
    bv = T.fresh_bv()
    L.pay = ('sum', lambda up: wrap(T.add(T.toR(t_of(v0)), T.summ(bv, Z, up, T.subst(d, {i: bv})))), d)
    return False


def all_ix(shape):
    out = [()]
    for s in shape: out = [p + (k,) for p in out for k in ints(s)]
    return out


def mentions(t, name): return any(x.op == 'app' and x.args[0] == name for x in T.subterms([t]))


def same_writes(it, old, new, nd):
    if len(old) != len(new): return False
    ix = gen_ix(nd)
    for (g, vm, sh, m, v), (g2, vm2, sh2, m2, v2) in zip(old, new):
        if g is not g2: return False
        a, b = m(*ix), m2(*ix)
        if a is not b: return False
        x, y = v(*ix), v2(*ix)
        if x is not y and it.prover.prove(it.pc + [g, a], T.eq(x, y))[0] != 'proved': return False
    return True


def same_lwrites(it, old, new):
    if len(old) != len(new): return False
    return all(g is g2 and ix is ix2 and sv_eq(it, it.pc + [g], v, v2) for (g, ix, v), (g2, ix2, v2) in zip(old, new))


class StoreWrites:
    def __init__(self, it, writes, i, n, host):
        self.writes = writes
        self.solve = None
        forms = set()
        for g, vm, sh, m, v in writes:
            f = None
            for d, (o, vd) in enumerate(vm):
                ln = 1 if vd is None else sh[vd]
                lin = linear(o, i)
                if lin and lin[0] > 0:
                    a, b = lin
                    if it.prover.prove(it.pc + [g], T.le(tt(ln), T.num(a, 'I')))[0] == 'proved':
                        f = ('lin', d, a, b); break
                if o.op == 'app' and o.args[0] in it.prover.lem.prefix and o.args[1:] == (i,):
                    step = it.prover.lem.prefix[o.args[0]][0]
                    if it.prover.prove(it.pc + [g], T.le(tt(ln), step(i)))[0] == 'proved':
                        f = ('pre', d, o.args[0], host); break
            if f is None: raise Unsupported('region of a write in a loop')
            forms.add(f)
        if len(forms) > 1: raise Unsupported('writes with different regions in a loop')
        if forms: self.form = forms.pop()

    def witness(self, it, ix, i):
        f = self.form
        if f[0] == 'lin': return T.idiv(T.sub(ix[f[1]], f[3]), T.num(f[2], 'I'))
        P = f[2]; nm = 'inv_' + P
        step, lo, hi, base = it.prover.lem.prefix[P]
        def facts(r):
            k = T.app(nm, (r,), 'I'); p = lambda x: T.app(P, (x,), 'I')
            return [T.implies(T.and_(T.le(p(lo), r), T.lt(r, p(hi))), T.and_(T.le(lo, k), T.lt(k, hi), T.le(p(k), r), T.lt(r, p(T.add(k, ONE)))))]
        if nm not in it.prover.lem.select:
            it.prover.lem.select[nm] = facts; it.prover.fcache.clear()
        return T.app(nm, (ix[f[1]],), 'I')


class SummaryV:
    def __init__(self, prev, pay, i, up, it): self.prev, self.pay, self.i, self.up, self.it = prev, pay, i, up, it; self.memo = {}
    def at(self, ix):
        r = self.memo.get(ix)
        if r is None: r = self.memo[ix] = self.at_(ix)
        return r
    def at_(self, ix):
        r = self.prev.at(ix)
        if not self.pay.writes: return r
        k = self.pay.witness(self.it, ix, self.i); m = {self.i: k}
        rng = T.and_(T.le(Z, k), T.lt(k, self.up))
        if rng is T.FALSE: return r
        ws = self.pay.writes
        # within one path the latest write is first in the list: apply the earlier ones first
        for g, vm, sh, mt, vl in reversed(ws):
            c = T.and_(rng, T.subst(g, m), hold_subst(mt, ix, m))
            if c is T.FALSE: continue
            r = T.ite(c, hold_subst(vl, ix, m), r)
        return r


class ListWrites:
    def __init__(self, it, writes, i, n):
        self.writes = writes
        self.forms = []
        for g, ix, v in writes:
            lin = linear(ix, i)
            if not lin or lin[0] not in (1,): raise Unsupported('index of a list write in a loop')
            self.forms.append(lin[1])
        if len(set(self.forms)) > 1: raise Unsupported('list writes at different indices in a loop')


class SummaryL:
    def __init__(self, prev, pay, i, up, it): self.prev, self.pay, self.i, self.up, self.it = prev, pay, i, up, it
    def at(self, k):
        it = self.it
        if not self.pay.writes: return self.prev.at(k)
        q = T.sub(k, self.pay.forms[0]); m = {self.i: q}
        rng = T.and_(T.le(Z, q), T.lt(q, self.up))
        st = it.status(rng)
        if st is False: return self.prev.at(k)
        val = None; conds = []
        for g, ix, v in reversed(self.pay.writes):
            c = T.subst(g, m)
            w = vsubst(v, m)
            conds.append(c)
            val = w if val is None else merge(c, w, val)
        cov = T.and_(rng, T.or_(*conds))
        st = it.status(cov)
        if st is True: return val
        return merge(cov, val, self.prev.at(k))


def comp_summary(it, n, sc, seq):
    k = T.var(it.fresh_name('k'), 'I')
    g = n.generators[0]
    def fn():
        it.assume(T.and_(T.le(Z, k), T.lt(k, seq.n)))
        it.loop_ix.append(k)
        s2 = Scope(sc, sc.mod)
        it.assign(g.target, seq.elem(k), s2)
        return it.ev(n.elt, s2)
    st0 = stamp()
    outs = it.explore(fn)
    for o in outs:
        for key, (host, d, kk, had, old, new) in o.final.items():
            if host is not it and getattr(host, 'stamp', 0) < st0: raise Unsupported('side effect in a comprehension')
        it.obls += o.obls
    live = [o for o in outs if o.kind != 'end']
    for o in live:
        if o.kind == 'raise': raise Unsupported('exception %s in a comprehension' % o.val.name)
    v = freeze(merged(live, [o.val for o in live]))
    return SListOf(seq.n, lambda j: vsubst(v, {k: j}))


def SListOf(n, f): return PList(SymItems(n, ListBase(f)))
