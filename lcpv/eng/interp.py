"""Symbolic execution of the repository's own source, statement by statement, from its AST (re-read on every run)."""
import ast, os, operator
from . import terms as T
from .base import *
from .ft import *
from . import smt

MAXUNROLL = 64


class PList(Host):
    """a Python list of known length"""
    def __init__(self, items): Host.__init__(self); self.__dict__['items'] = items if isinstance(items, SymItems) else tuple(items)
    def items_(self):
        if isinstance(self.items, SymItems): raise Unsupported('list of symbolic length')
        return list(self.items)
    @property
    def n(self): return self.items.n if isinstance(self.items, SymItems) else T.num(len(self.items), 'I')
    def elem(self, k): return self.items.ver.at(k)


class PDict(Host):
    def __init__(self, d=None): Host.__init__(self); self.__dict__['d'] = dict(d or {})


class PSet(Host):
    def __init__(self, items=()): Host.__init__(self); self.__dict__['items'] = tuple(items)
    def items_(self): return list(self.items)


class Seq:
    """an immutable sequence of symbolic length: n (Term), elem(k Term) -> value"""
    def __init__(self, n, elem, tag=None): self.n, self.elem, self.tag = n, elem, tag


class SymItems:
    """the contents of a list of symbolic length"""
    def __init__(self, n, ver): self.n, self.ver = n, ver


def SList(n, elem):
    """a mutable list of symbolic length"""
    return PList(SymItems(n, ListBase(elem)))


def is_sym(v): return isinstance(v, PList) and isinstance(v.items, SymItems)


class ListBase:
    def __init__(self, f): self.f = f
    def at(self, k): return self.f(k)


class ListWrite:
    """element writes: where match(k) the element is val(k)"""
    def __init__(self, prev, match, val, ix=None): self.prev, self.match, self.val, self.ix = prev, match, val, ix
    def at(self, k):
        m = self.match(k)
        st = CUR.it.status(m)
        if st is True: return self.val(k)
        if st is False: return self.prev.at(k)
        return merge(m, self.val(k), self.prev.at(k))


class Opt:
    """either None or a value, depending on a condition"""
    def __init__(self, has, v): self.has, self.v = has, v


class IClass:
    def __init__(self, name, bases, attrs, mod): self.name, self.bases, self.attrs, self.mod = name, bases, attrs, mod; self.__dict__['stamp'] = 0
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, IClass): out += [c for c in b.mro() if c not in out]
        return out
    def find(self, k, after=None):
        m = self.mro()
        if after is not None: m = m[m.index(after) + 1:]
        for c in m:
            if k in c.attrs: return c.attrs[k], c
        return None, None
    def put(self, k, v): CUR.it.put_in(self, self.attrs, k, v)
    def __repr__(self): return '<class %s>' % self.name


class IObj(Host):
    def __init__(self, cls, attrs=None): Host.__init__(self); self.__dict__.update(cls=cls, attrs=dict(attrs or {}))
    def __repr__(self): return '<%s object>' % (self.cls.name if self.cls else 'stub')


class SymObj:
    """element k of a family of objects"""
    def __init__(self, fam, k): self.fam, self.k = fam, k
    @property
    def cls(self): return self.fam.cls
    def __repr__(self): return '<%s[%r]>' % (self.fam.name, self.k)


class Family:
    """a sequence of n distinct objects of one class; attributes are functions of the index"""
    def __init__(self, name, n, cls=None, attrs=None, methods=None):
        self.name, self.n, self.cls = name, n, cls
        self.attrs = {k: FamAttr(self, k, f) for k, f in (attrs or {}).items()}
        self.methods = methods or {}
    def seq(self): return Seq(self.n, lambda k: SymObj(self, k), self)


class FamAttr(Host):
    def __init__(self, fam, name, f): Host.__init__(self); self.__dict__.update(fam=fam, name=name, ver=ListBase(f))


class IFunc:
    def __init__(self, node, scope, mod, cls=None, defaults=(), kwd=None, name=None):
        self.node, self.scope, self.mod, self.cls, self.defaults, self.kwd = node, scope, mod, cls, defaults, kwd or {}
        self.name = name or getattr(node, 'name', '<lambda>')
        self.attrs = {}
    @property
    def qual(self): return (self.cls.name + '.' if self.cls else '') + self.name


class Static:
    def __init__(self, f): self.f = f


class Prop:
    def __init__(self, f): self.f = f


class ClsM:
    def __init__(self, f): self.f = f


class Bound:
    def __init__(self, f, self_, cls): self.f, self.self_, self.cls = f, self_, cls


class Native:
    def __init__(self, f, name=''): self.f, self.name = f, name


class Scope(Host):
    def __init__(self, parent=None, mod=None):
        Host.__init__(self); self.__dict__.update(vars={}, parent=parent, mod=mod, globals_=set())


class IMod(Host):
    def __init__(self, name, env): Host.__init__(self); self.__dict__.update(name=name, env=env)


class SuperP:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class _Ret(Exception):
    def __init__(self, v): self.v = v
class _Brk(Exception): pass
class _Cont(Exception): pass


def merge(c, a, b):
    """ite on values"""
    if a is b: return a
    if is_scalar(a) and is_scalar(b): return wrap(T.ite(c, t_of(a), t_of(b)))
    if isinstance(a, FT) and isinstance(b, FT):
        if a.dtype_ != b.dtype_ or not shape_eq(a.shape_, b.shape_): raise Unsupported('merge of different tensors')
        fa, fb = a.snap(), b.snap()
        r = FT.fn(a.shape_, lambda *ix: T.ite(c, fa(*ix), fb(*ix)), a.dtype_)
        r.store.__dict__['frozen'] = True
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SymObj) and isinstance(b, SymObj) and a.fam is b.fam: return SymObj(a.fam, T.ite(c, a.k, b.k))
    if a is None: return Opt(T.not_(T.and_(c)), b) if not isinstance(b, Opt) else Opt(T.and_(T.not_(c), b.has), b.v)
    if b is None: return Opt(c, a) if not isinstance(a, Opt) else Opt(T.and_(c, a.has), a.v)
    if isinstance(a, Opt) or isinstance(b, Opt):
        ha, va = (a.has, a.v) if isinstance(a, Opt) else (T.TRUE, a)
        hb, vb = (b.has, b.v) if isinstance(b, Opt) else (T.TRUE, b)
        return Opt(T.or_(T.and_(c, ha), T.and_(T.not_(c), hb)), merge(c, va, vb))
    raise Unsupported('merge of %r and %r' % (type(a).__name__, type(b).__name__))


def vsubst(v, m):
    """substitute terms inside a value"""
    if isinstance(v, SV): return wrap(T.subst(v.t, m))
    if isinstance(v, FT):
        f = v.snap()
        sh = tuple(dim(T.subst(s, m)) if isinstance(s, T.Term) else s for s in v.shape_)
        # keep the index terms out of the substitution: they may mention the same variables
        def g(*ix):
            hold = [T.var('hold%d!%d' % (id(v) % 9999, j), 'I') if T.free(i) & set(m) else i for j, i in enumerate(ix)]
            r = T.subst(f(*hold), m)
            back = {h: i for h, i in zip(hold, ix) if h is not i}
            return T.subst(r, back) if back else r
        r = FT.fn(sh, g, v.dtype_)
        r.store.__dict__['frozen'] = True
        return r
    if isinstance(v, SymObj): return SymObj(v.fam, T.subst(v.k, m))
    if isinstance(v, tuple): return tuple(vsubst(x, m) for x in v)
    if isinstance(v, Opt): return Opt(T.subst(v.has, m), vsubst(v.v, m))
    if v is None or isinstance(v, (str, IClass, IFunc, Native, DType, int, float, bool)): return v
    if isinstance(v, Seq): return Seq(T.subst(v.n, m), lambda k: vsubst(v.elem(k), m))
    if isinstance(v, PList) and all(not isinstance(x, Host) for x in v.items):
        return PList([vsubst(x, m) for x in v.items])
    if isinstance(v, IObj): return v
    raise Unsupported('value %s in a summary' % type(v).__name__)


class Interp:
    def __init__(self, repo, stubs, builtins, prover=None):
        self.repo, self.stubs = repo, stubs
        self.trail = []
        self.pc = []
        self.oracle = None
        self.mods = {}
        self.bi = builtins
        self.prover = prover or smt.Prover()
        self.loop_ix = []
        self.names = {}
        self.loops = {}       # loop contracts: (qualified function name, ordinal) -> LoopSpec
        self.fspecs = {}      # contracts used instead of bodies: qualified name -> callable(it, args, kw)
        self.used_specs = {}
        self.obls = []        # obligations raised on the current path: (name, pc, goal)
        self.eager = False
        self.permissive = False
        self.unroll = 0       # > 0: loop contracts are left out and while loops cut after that many iterations
        self.trace = {}       # functions executed: qualified name -> file
        self.frames = []
        self.sides = {}       # side conditions met, for the record
        self.stcache = {}
        self.div_checked = True
        self.steps = 0
        CUR.it = self

    # ---- mutation with undo
    def put(self, host, k, v): self.put_in(host, host.__dict__, k, v)

    def put_in(self, host, d, k, v):
        self.trail.append((host, d, k, k in d, d.get(k)))
        d[k] = v

    def undo(self, mark):
        while len(self.trail) > mark:
            host, d, k, had, old = self.trail.pop()
            if had: d[k] = old
            else: d.pop(k, None)

    def fresh_name(self, base):
        # deterministic per (source position, path): a counter which is undone with the trail
        n = self.names.get(base, 0)
        self.put_in(self, self.names, base, n + 1)
        return '%s!%d' % (base, n)

    # ---- path conditions
    def status(self, c):
        """True/False when the path condition settles c, None otherwise"""
        if c is T.TRUE: return True
        if c is T.FALSE: return False
        key = (c, len(self.pc), self.pc[-1] if self.pc else None, frozenset(self.pc))
        if key in self.stcache: return self.stcache[key]
        r = None
        ck = self.prover.check_plain if self.prover.triggers else self.prover.check
        if c in self.pc: r = True
        elif T.not_(c) in self.pc: r = False
        elif ck(self.pc, [T.not_(c)], 1500) == 'unsat': r = True
        elif ck(self.pc, [c], 1500) == 'unsat': r = False
        self.stcache[key] = r
        return r

    def implied(self, c): return self.status(c) is True

    def assume(self, c):
        c = t_of(c)
        if c is T.TRUE: return
        self.pc.append(c)

    def decide(self, c):
        if c is T.TRUE: return True
        if c is T.FALSE: return False
        st = self.status(c)
        if st is not None: return st
        if self.oracle is None: raise Unsupported('branch outside an exploration')
        b = self.oracle.choose()
        self.pc.append(c if b else T.not_(c))
        return b

    def choose(self, n=2):
        """nondeterministic choice: a truth value, or with n > 2 a number below n"""
        if n == 2: return self.oracle.choose()
        for k in range(n - 1):
            if self.oracle.choose(): return k
        return n - 1

    def oblige(self, name, goal):
        goal = t_of(goal)
        if goal is T.TRUE: return
        self.obls.append((name, list(self.pc), goal))

    def divisor(self, b):
        if T.isnum(b) and T.val(b) != 0: return
        if self.div_checked:
            g = T.ne(b, T.num(0, b.sort))
            self.obls.append(('divisor is not zero', list(self.pc), g))

    # ---- exploration of paths
    def explore(self, fn, limit=400):
        out = []; stack = [[]]
        mark = len(self.trail); pc0 = list(self.pc); orc = self.oracle; obl0 = list(self.obls); lix = list(self.loop_ix); fr = list(self.frames)
        while stack:
            pre = stack.pop()
            o = Oracle(pre); self.oracle = o
            kind, val = None, None
            try:
                val = fn(); kind = 'ok'
            except PathEnd: kind = 'end'
            except IRaise as e: kind, val = 'raise', e
            except BaseException:
                self.undo(mark); self.pc[:] = pc0; self.obls[:] = obl0; self.loop_ix[:] = lix; self.frames[:] = fr; self.oracle = orc
                raise
            res = Outcome(kind, val, self.pc[len(pc0):], self.trail[mark:], self.obls[len(obl0):], o.taken)
            # final values of what was changed
            fin = {}
            for host, d, k, had, old in res.trail:
                key = (id(d), k)
                if key not in fin: fin[key] = [host, d, k, had, old, None]
                fin[key][5] = d.get(k)
            res.final = fin
            out.append(res)
            self.undo(mark); self.pc[:] = pc0; self.obls[:] = obl0; self.loop_ix[:] = lix; self.frames[:] = fr
            for j in range(len(pre), len(o.taken)):
                stack.append(o.taken[:j] + [not o.taken[j]])
            if len(out) > limit: raise Unsupported('too many paths')
        self.oracle = orc
        return out

    # ---- modules
    def load(self, name):
        """import a repository module by dotted name"""
        if name in self.mods: return self.mods[name]
        p = os.path.join(self.repo, *name.split('.'))
        f = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(f): raise Unsupported('module ' + name)
        src = open(f).read()
        m = IMod(name, {'__name__': name, '__file__': f})
        self.mods[name] = m
        m.__dict__['pkg'] = name if f.endswith('__init__.py') else name.rsplit('.', 1)[0]
        m.__dict__['file'] = f
        if f.endswith('__init__.py'): return m       # packages are namespaces here; submodules are loaded on demand
        sc = Scope(None, m); sc.__dict__['vars'] = m.env
        mark = len(self.trail); fr = self.frames; self.frames = []
        for st in ast.parse(src).body: self.stmt(st, sc)
        self.frames = fr
        del self.trail[mark:]            # loading is not undone
        return m

    def import_(self, name):
        top = name.split('.')[0]
        if name in self.stubs: return self.stubs[name]
        if top in self.stubs: return self.stubs[top]
        if os.path.exists(os.path.join(self.repo, top)): return self.load(name)
        return Missing(name)

    # ---- statements
    def body(self, stmts, sc):
        for s in stmts: self.stmt(s, sc)

    def stmt(self, s, sc):
        self.steps += 1
        if self.steps > 3000000: raise Unsupported('step limit')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement ' + type(s).__name__)
        return m(s, sc)

    def s_Expr(self, s, sc): self.ev(s.value, sc)
    def s_Pass(self, s, sc): pass
    def s_Return(self, s, sc): raise _Ret(self.ev(s.value, sc) if s.value else None)
    def s_Break(self, s, sc): raise _Brk()
    def s_Continue(self, s, sc): raise _Cont()
    def s_Global(self, s, sc): sc.globals_.update(s.names)
    def s_Nonlocal(self, s, sc): raise Unsupported('nonlocal')
    def s_Delete(self, s, sc): 
        for t in s.targets:
            if isinstance(t, ast.Name): continue
            raise Unsupported('del')

    def s_Import(self, s, sc):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname: self.setname(a.asname, m, sc)
            else:
                top = a.name.split('.')[0]
                self.setname(top, self.stubs.get(top) or (self.import_(top)), sc)

    def s_ImportFrom(self, s, sc):
        base = s.module or ''
        if s.level:
            pkg = sc.mod.pkg.split('.')
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = '.'.join(pkg + ([s.module] if s.module else []))
        for a in s.names:
            v = self.from_import(base, a.name)
            self.setname(a.asname or a.name, v, sc)

    def from_import(self, base, name):
        if base in self.stubs or base.split('.')[0] in self.stubs:
            m = self.stubs.get(base) or self.stubs[base.split('.')[0]]
            return self.getattr(m, name)
        if not os.path.exists(os.path.join(self.repo, base.split('.')[0])): return Missing(base + '.' + name)
        m = self.load(base)
        if name in m.env: return m.env[name]
        return self.load(base + '.' + name)

    def s_FunctionDef(self, s, sc, cls=None):
        f = IFunc(s, sc if sc.parent is not None or sc.vars is not sc.mod.env else sc, sc.mod, cls, tuple(self.ev(d, sc) for d in s.args.defaults),
                  {a.arg: self.ev(d, sc) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        v = f
        for d in reversed(s.decorator_list):
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else ''
            if nm == 'staticmethod': v = Static(v)
            elif nm == 'classmethod': v = ClsM(v)
            elif nm == 'property': v = Prop(v)
            elif nm in ('no_grad', 'enable_grad', 'profile', 'once_differentiable', 'wraps'):
                if nm == 'no_grad': raise Unsupported('no_grad')
            else: v = self.call(self.ev(d, sc), [v], {})
        if cls is None: self.setname(s.name, v, sc)
        return v

    def s_ClassDef(self, s, sc):
        bases = [self.ev(b, sc) for b in s.bases]
        c = IClass(s.name, [b for b in bases if isinstance(b, IClass)], {}, sc.mod)
        inner = Scope(sc, sc.mod); 
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                v = self.s_FunctionDef(st, sc, c); c.attrs[st.name] = v; inner.vars[st.name] = v
            else:
                self.stmt(st, inner)
        for k, v in inner.vars.items(): c.attrs.setdefault(k, v)
        for k, v in list(c.attrs.items()):
            if isinstance(v, IFunc) and v.cls is None: v.cls = c
        self.setname(s.name, c, sc)

    def s_Assign(self, s, sc):
        v = self.ev(s.value, sc)
        for t in s.targets: self.assign(t, v, sc)

    def s_AnnAssign(self, s, sc):
        if s.value is not None: self.assign(s.target, self.ev(s.value, sc), sc)

    def s_AugAssign(self, s, sc):
        op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}.get(type(s.op))
        t = s.target
        if isinstance(t, ast.Name): cur = self.name(t.id, sc); store = lambda v: self.assign(t, v, sc)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc); cur = self.getattr(o, t.attr); store = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc); k = self.key(t.slice, sc); cur = self.getitem(o, k); store = lambda v: self.setitem(o, k, v)
        v = self.ev(s.value, sc)
        if op and hasattr(cur, 'inplace'):
            r = cur.inplace(op, v)
            if not isinstance(t, ast.Subscript): store(r)
            elif isinstance(o, FT):
                if not self.getitem_is_view(o, k): store(r)
            elif getattr(r, 'part', None) is not None: pass
            else: store(r)
            return
        if isinstance(cur, PList) and op == '+':
            cur.put('items', cur.items + tuple(self.iter(v))); store(cur); return
        store(self.binop(type(s.op), cur, v))

    def getitem_is_view(self, o, k):
        return not isinstance(k, FT)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name): self.setname(t.id, v, sc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for a, b in zip(t.elts, vs): self.assign(a, b, sc)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, sc), self.key(t.slice, sc), v)
        else: raise Unsupported('assignment target')

    def unpack(self, v, elts):
        n = len(elts)
        if isinstance(v, FT):
            if not v.shape_ or v.shape_[0] != n: raise IRaise('ValueError', 'unpack')
            return [v.index(k) for k in range(n)]
        vs = self.iter(v)
        if any(isinstance(e, ast.Starred) for e in elts): raise Unsupported('starred assignment')
        if len(vs) != n: raise IRaise('ValueError', 'unpack')
        return vs

    def setname(self, k, v, sc):
        if k in sc.globals_:
            self.put_in(sc.mod, sc.mod.env, k, v); return
        self.put_in(sc, sc.vars, k, v)

    def s_If(self, s, sc):
        self.body(s.body if self.truth(self.ev(s.test, sc)) else s.orelse, sc)

    def s_Assert(self, s, sc):
        if not self.truth(self.ev(s.test, sc)): raise IRaise('AssertionError')

    def s_Raise(self, s, sc):
        if s.exc is None: raise IRaise('re-raise')
        n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        raise IRaise(n.id if isinstance(n, ast.Name) else 'Exception', ast.unparse(s.exc)[:80])

    def s_Try(self, s, sc):
        try:
            self.body(s.body, sc)
        except IRaise as e:
            for h in s.handlers:
                names = [] if h.type is None else [n.id for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(n, ast.Name)]
                if h.type is None or e.name in names or 'Exception' in names:
                    self.body(h.body, sc); break
            else: raise
        else: self.body(s.orelse, sc)
        self.body(s.finalbody, sc)

    def s_With(self, s, sc):
        raise Unsupported('with')

    def s_For(self, s, sc):
        seq = self.ev(s.iter, sc)
        q = self.frames[-1] if self.frames else ''
        spec = self.find_spec(s, sc)
        if spec is not None: return self.loop_contract(s, sc, spec, seq)
        sym = self.symseq(seq)
        spec = self.find_spec(s, sc, True)
        if spec is not None and sym is not None: return self.unrolled(s, sc, spec(self, sc, seq), sym)
        if sym is not None:
            from .loops import summarize
            summarize(self, s, sc, sym)
            if s.orelse: self.body(s.orelse, sc)
            return
        for v in self.iter(seq):
            self.assign(s.target, v, sc)
            try: self.body(s.body, sc)
            except _Brk: return
            except _Cont: continue
        self.body(s.orelse, sc)

    def s_While(self, s, sc):
        spec = self.find_spec(s, sc)
        if spec is not None: return self.loop_contract(s, sc, spec, None)
        n = 0
        while self.truth(self.ev(s.test, sc)):
            n += 1
            if self.unroll and n > self.unroll: raise PathEnd()
            if n > MAXUNROLL: raise Unsupported('loop without a contract')
            try: self.body(s.body, sc)
            except _Brk: return
            except _Cont: continue
        self.body(s.orelse, sc)

    def unrolled(self, s, sc, st, seq):
        """a loop with a contract, cut after a few iterations instead; st.visit() sees the state before each"""
        for n in range(self.unroll):
            if not self.decide(T.lt(T.num(n, 'I'), seq.n)): break
            if hasattr(st, 'visit'): st.visit()
            self.assign(s.target, seq.elem(T.num(n, 'I')), sc)
            try: self.body(s.body, sc)
            except _Brk: return
            except _Cont: continue
        else:
            if self.decide(T.lt(T.num(self.unroll, 'I'), seq.n)): raise PathEnd()
        self.body(s.orelse, sc)

    def find_spec(self, s, sc, unrolled=False):
        if bool(self.unroll) != unrolled or not self.loops or not self.frames: return None
        f = self.frames[-1]
        ls = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
        ls.sort(key=lambda n: n.lineno)
        return self.loops.get((f.qual, type(s).__name__, [n for n in ls if type(n) is type(s)].index(s))) if s in ls else None

    def loop_contract(self, s, sc, spec, seq):
        """invariant rule: established on entry, preserved by an arbitrary iteration, assumed afterwards"""
        st = spec(self, sc, seq)                 # object with: havoc(), inv() -> Term, optional variant, exit handling
        self.used_specs['loop of ' + self.frames[-1].qual] = st.doc
        self.oblige('invariant of %s holds on entry' % st.name, st.inv())
        mark = len(self.trail); stamp0 = stamp()
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in names: self.put_in(sc, sc.vars, n, Poison(n))
        st.havoc()
        allowed = {(id(d), k) for h, d, k, _, _ in self.trail[mark:]}
        self.assume(st.inv())
        if getattr(st, 'cut', False): return       # left with any state at all: what the contract puts there
        go = True
        if isinstance(s, ast.While):
            go = self.truth(self.ev(s.test, sc))
        elif hasattr(st, 'more'): go = self.decide(st.more())
        else: go = self.choose()
        if not go:
            if hasattr(st, 'after'): st.after()
            self.body(s.orelse, sc); return
        m2 = len(self.trail)
        if isinstance(s, ast.For): self.assign(s.target, st.item(), sc)
        brk = False
        try:
            self.body(s.body, sc)
        except _Brk: brk = True
        except _Cont: pass
        for h, d, k, had, old in self.trail[m2:]:
            if getattr(h, 'stamp', 0) < stamp0 and (id(d), k) not in allowed and not isinstance(h, Interp):
                raise Unsupported('loop contract %s does not cover %s.%s' % (st.name, type(h).__name__, k))
        if brk: return
        if hasattr(st, 'next'): st.next()
        self.oblige('invariant of %s is preserved' % st.name, st.inv())
        if hasattr(st, 'variant'): self.oblige('variant of %s decreases' % st.name, st.variant())
        raise PathEnd()

    # ---- values
    def truth(self, v):
        if isinstance(v, Opt): return self.truth(self.force(v))
        if isinstance(v, SV): return self.decide(truth_term(v.t))
        if isinstance(v, FT): return self.decide(truth_term(v.scalar()))
        if v is None or isinstance(v, (bool, int, float, str, tuple)): return bool(v)
        if isinstance(v, Seq) or is_sym(v): return self.decide(T.lt(Z, v.n))
        if isinstance(v, (PList, PSet)): return len(v.items) > 0
        if isinstance(v, PDict): return len(v.d) > 0
        if hasattr(v, 'truth'): return v.truth()
        if isinstance(v, (IObj, SymObj)):
            for k in ('__bool__', '__len__'):
                if v.cls is not None and v.cls.find(k)[0]: raise Unsupported('__bool__')
            return True
        if isinstance(v, Poison): raise PoisonRead(v.loc)
        return True

    def force(self, v):
        """resolve an optional value"""
        if isinstance(v, Opt): return self.force(v.v) if self.decide(v.has) else None
        return v

    def symseq(self, v):
        if isinstance(v, Seq): return v
        if is_sym(v):
            it = v.items
            return Seq(it.n, lambda k: it.ver.at(k))
        return None

    def iter(self, v):
        v = self.force(v)
        if isinstance(v, Seq) or is_sym(v):
            n = v.n
            if T.isnum(n): return [v.elem(k) for k in ints(int(T.val(n)))]
            raise Unsupported('iteration over a symbolic sequence')
        if isinstance(v, (PList, PSet)): return list(v.items)
        if isinstance(v, (list, tuple)): return list(v)
        if isinstance(v, PDict): return list(v.d)
        if isinstance(v, str): return list(v)
        if isinstance(v, FT):
            if v.shape_ and isinstance(v.shape_[0], int): return [v.index(k) for k in range(v.shape_[0])]
        if hasattr(v, 'iterate'): return v.iterate()
        raise Unsupported('iteration over %s' % type(v).__name__)

    # ---- attributes
    def getattr(self, o, k):
        if isinstance(o, Opt): o = self.force(o)
        if isinstance(o, Poison): raise PoisonRead(o.loc)
        if isinstance(o, FT): return wrapm(o.getattr(k))
        if isinstance(o, IObj):
            if k in o.attrs:
                v = o.attrs[k]
                if isinstance(v, Poison): raise PoisonRead(v.loc)
                return v
            if k == '__class__': return o.cls
            if k == '__dict__': raise Unsupported('__dict__')
            if o.cls is not None:
                v, c = o.cls.find(k)
                if c is not None: return self.bind(v, o, c)
            if k in getattr(o, 'natives', {}): return Native(o.natives[k], k)
            raise IRaise('AttributeError', k)
        if isinstance(o, SymObj):
            if k in o.fam.attrs:
                v = o.fam.attrs[k].ver
                if isinstance(v, Poison): raise PoisonRead(v.loc)
                return v.at(o.k)
            if k in o.fam.methods:
                f = o.fam.methods[k]
                return Native(lambda *a, **kw: f(self, o, *a, **kw), k)
            if o.cls is not None:
                v, c = o.cls.find(k)
                if c is not None: return self.bind(v, o, c)
            raise IRaise('AttributeError', k)
        if isinstance(o, IClass):
            v, c = o.find(k)
            if c is None:
                if k == '__name__': return o.name
                raise IRaise('AttributeError', k)
            if isinstance(v, Static): return v.f
            if isinstance(v, ClsM): return Bound(v.f, o, c)
            return v
        if isinstance(o, IMod):
            if k in o.env: return o.env[k]
            return self.load(o.name + '.' + k)
        if isinstance(o, SuperP):
            v, c = o.self_.cls.find(k, after=o.cls)
            if c is None:
                if k == '__init__': return Native(lambda *a, **kw: None)
                raise IRaise('AttributeError', k)
            return self.bind(v, o.self_, c)
        if isinstance(o, (PList, Seq)): return Native(lambda *a, **kw: list_method(self, o, k, a, kw), k)
        if isinstance(o, PDict): return Native(lambda *a, **kw: dict_method(self, o, k, a), k)
        if isinstance(o, PSet): return Native(lambda *a, **kw: set_method(self, o, k, a), k)
        if isinstance(o, str):
            if k in ('format', 'join', 'lower', 'upper', 'startswith', 'endswith', 'strip', 'replace'):
                return Native(lambda *a, **kw: strmeth(o, k, a, kw), k)
        if isinstance(o, SV) and k == 'item': return Native(lambda: o)
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            raise IRaise('AttributeError', k)
        if isinstance(o, IFunc):
            if k == '__name__': return o.name
            if k in o.attrs: return o.attrs[k]
        if hasattr(o, 'getattr'): return wrapm(o.getattr(k))
        if o is None: raise IRaise('AttributeError', k)
        raise Unsupported('attribute %s of %s' % (k, type(o).__name__))

    def bind(self, v, o, c):
        if isinstance(v, IFunc): return Bound(v, o, c)
        if isinstance(v, Static): return v.f
        if isinstance(v, ClsM): return Bound(v.f, o.cls, c)
        if isinstance(v, Prop): return self.call(Bound(v.f, o, c), [], {})
        if isinstance(v, Native) and getattr(v, 'method', False): return Native(lambda *a, **k: v.f(o, *a, **k))
        return v

    def setattr(self, o, k, v):
        if isinstance(o, Opt): o = self.force(o)
        if isinstance(o, IObj): self.put_in(o, o.attrs, k, v)
        elif isinstance(o, IClass): o.put(k, v)
        elif isinstance(o, IMod): self.put_in(o, o.env, k, v)
        elif isinstance(o, IFunc): self.put_in(o, o.attrs, k, v)
        elif isinstance(o, SymObj):
            fa = o.fam.attrs.get(k)
            if fa is None: raise Unsupported('new attribute %s on a family' % k)
            fa.put('ver', fam_write(fa.ver, o.k, freeze(v)))
        elif hasattr(o, 'setattr'): o.setattr(k, v)
        elif o is None: raise IRaise('AttributeError', k)
        else: raise Unsupported('setattr on %s' % type(o).__name__)

    # ---- subscripts
    def key(self, n, sc):
        if isinstance(n, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, sc)
            return slice(g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple): return tuple(self.key(e, sc) for e in n.elts)
        return self.ev(n, sc)

    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(k, FT) and k.shape_ == () and not isinstance(o, FT): k = wrap(k.scalar())
        if isinstance(o, FT):
            r = o.index(k)
            if r is None: raise Unsupported('advanced indexing')
            return r
        if isinstance(o, Seq) or is_sym(o):
            if isinstance(k, slice):
                a = t_of(k.start) if k.start is not None else Z
                b = t_of(k.stop) if k.stop is not None else o.n
                if self.implied(T.lt(b, Z)): b = T.add(o.n, b)
                s = self.symseq(o)
                if not self.implied(T.and_(T.le(Z, a), T.le(a, b), T.le(b, o.n))): raise Unsupported('slice of a sequence')
                return Seq(T.sub(b, a), lambda j: s.elem(T.add(a, j)))
            t = t_of(k)
            if self.implied(T.lt(t, Z)): t = T.add(t, o.n)
            self.oblige('list index in range', T.and_(T.le(Z, t), T.lt(t, o.n)))
            return o.elem(t)
        if isinstance(o, (PList, tuple, list, str)):
            its = o.items if isinstance(o, PList) else o
            if isinstance(k, slice):
                r = its[slice(*[None if x is None else int(x) if not isinstance(x, SV) else x.__index__() for x in (k.start, k.stop, k.step)])]
                return PList(r) if isinstance(o, PList) else r
            if isinstance(k, SV):
                if k.t.op == 'num': k = int(T.val(k.t))
                else:
                    n = len(its)
                    for j in range(n):
                        if self.decide(T.or_(T.eq(k.t, T.num(j, 'I')), T.eq(k.t, T.num(j - n, 'I')))): return its[j]
                    raise IRaise('IndexError', 'list index')
            if isinstance(k, PList): raise Unsupported('fancy list index')
            try: return its[k]
            except IndexError: raise IRaise('IndexError', 'list index')
        if isinstance(o, PDict):
            if k not in o.d: raise IRaise('KeyError', str(k))
            v = o.d[k]
            if isinstance(v, Poison): raise PoisonRead(v.loc)
            return v
        if hasattr(o, 'getitem'): return o.getitem(k)
        if o is None: raise IRaise('TypeError', 'None is not subscriptable')
        raise Unsupported('subscript of %s' % type(o).__name__)

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, FT):
            v = self.force(v)
            if v is None: raise IRaise('TypeError', 'None assigned to a tensor slice')
            if isinstance(k, FT) and k.dtype_ == 'b':
                return masked_write(o, k, v)
            r = o.index(k)
            if r is None: raise Unsupported('advanced indexing')
            r.assign(v); return
        if is_sym(o):
            t = t_of(k)
            if self.implied(T.lt(t, Z)): t = T.add(t, o.n)
            self.oblige('list index in range', T.and_(T.le(Z, t), T.lt(t, o.n)))
            o.put('items', SymItems(o.n, fam_write(o.items.ver, t, freeze(v)))); return
        if isinstance(o, PList):
            if isinstance(k, FT) and k.shape_ == () and k.dtype_ == 'i64': k = wrap(k.scalar())
            if isinstance(k, SV): raise Unsupported('symbolic index into a list')
            l = list(o.items)
            try: l[k] = v
            except IndexError: raise IRaise('IndexError', 'list assignment')
            o.put('items', tuple(l)); return
        if isinstance(o, PDict):
            self.put_in(o, o.d, k, v); return
        if hasattr(o, 'setitem'): return o.setitem(k, v)
        raise Unsupported('item assignment on %s' % type(o).__name__)

    # ---- expressions
    def ev(self, n, sc):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression ' + type(n).__name__)
        return m(n, sc)

    def e_Constant(self, n, sc): return n.value

    def e_Name(self, n, sc): return self.name(n.id, sc)

    def name(self, k, sc):
        s = sc
        while s is not None:
            if k in s.vars:
                v = s.vars[k]
                if isinstance(v, Poison): raise PoisonRead(v.loc)
                return v
            s = s.parent
        if k in sc.mod.env: return sc.mod.env[k]
        if k in self.bi: return self.bi[k]
        if k == 'super':
            s = sc
            while s is not None and '__class__' not in s.vars: s = s.parent
            if s is None: raise Unsupported('super')
            c, first = s.vars['__class__'], s.vars['__self__']
            return Native(lambda *a: SuperP(a[0] if a else c, a[1] if len(a) > 1 else first))
        if k == 'locals':
            return Native(lambda: PDict({q: v for q, v in sc.vars.items() if not q.startswith('__')}))
        raise IRaise('NameError', k)

    def e_Attribute(self, n, sc): return self.getattr(self.ev(n.value, sc), n.attr)
    def e_Subscript(self, n, sc): return self.getitem(self.ev(n.value, sc), self.key(n.slice, sc))
    def e_Tuple(self, n, sc): return tuple(self.elts(n.elts, sc))
    def e_List(self, n, sc): return PList(self.elts(n.elts, sc))
    def e_Set(self, n, sc): return PSet(self.elts(n.elts, sc))
    def e_Dict(self, n, sc): return PDict({self.ev(k, sc): self.ev(v, sc) for k, v in zip(n.keys, n.values)})
    def e_Lambda(self, n, sc):
        return IFunc(n, sc, sc.mod, None, tuple(self.ev(d, sc) for d in n.args.defaults))
    def e_JoinedStr(self, n, sc):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant): out.append(v.value)
            else:
                try: out += str_parts(self.force(self.ev(v.value, sc)) if v.format_spec is None and v.conversion == -1 else None)
                except (Unsupported, PoisonRead): out.append(None)
        return PStr(out)
    def e_IfExp(self, n, sc): return self.ev(n.body if self.truth(self.ev(n.test, sc)) else n.orelse, sc)
    def e_NamedExpr(self, n, sc):
        v = self.ev(n.value, sc); self.assign(n.target, v, sc); return v

    def elts(self, es, sc):
        out = []
        for e in es:
            if isinstance(e, ast.Starred): out += self.iter(self.ev(e.value, sc))
            else: out.append(self.ev(e, sc))
        return out

    def e_BoolOp(self, n, sc):
        v = None
        for e in n.values:
            v = self.ev(e, sc)
            if e is n.values[-1]: return v
            b = self.truth(v)
            if isinstance(n.op, ast.And) and not b: return v
            if isinstance(n.op, ast.Or) and b: return v

    def e_UnaryOp(self, n, sc):
        v = self.ev(n.operand, sc)
        if isinstance(n.op, ast.Not): 
            if isinstance(v, SV) and v.t.sort == 'B': return wrap(T.not_(v.t))
            return not self.truth(v)
        v = self.force(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, FT) and v.dtype_ == 'b': raise IRaise('RuntimeError', 'negative of bool')
            return -v
        if isinstance(n.op, ast.UAdd): return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, FT): return ew1(v, T.not_)
            return ~v
        raise Unsupported('unary operator')

    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
           ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul, ast.BitAnd: operator.and_, ast.BitOr: operator.or_}

    def e_BinOp(self, n, sc):
        return self.binop(type(n.op), self.ev(n.left, sc), self.ev(n.right, sc))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if is_sym(a) or is_sym(b) or isinstance(a, Seq) or isinstance(b, Seq): raise Unsupported('operator on symbolic lists')
        if isinstance(a, PList) and isinstance(b, PList) and op is ast.Add: return PList(a.items + b.items)
        if isinstance(a, PList) and op is ast.Mult: return PList(a.items * b)
        if isinstance(a, str) and op is ast.Mod: return str_mod(a, b)
        if isinstance(a, str) and isinstance(b, str) and op is ast.Add and (isinstance(a, PStr) or isinstance(b, PStr)): return PStr(str_parts(a) + str_parts(b))
        f = self.OPS.get(op)
        if f is None: raise Unsupported('operator')
        for x in (a, b):
            if isinstance(x, Poison): raise PoisonRead(x.loc)
            if x is None: raise IRaise('TypeError', 'operand None')
        try: return self.pyresult(f(a, b))
        except TypeError as e: raise IRaise('TypeError', str(e))
        except ZeroDivisionError: raise IRaise('ZeroDivisionError')

    def pyresult(self, v):
        return v

    def e_Compare(self, n, sc):
        l = self.ev(n.left, sc); res = None
        for op, r in zip(n.ops, n.comparators):
            r = self.ev(r, sc)
            c = self.compare(op, l, r)
            if res is None: res = c
            else: res = wrap(T.and_(t_of(res), t_of(c)))
            l = r
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return (not r) if isinstance(op, ast.IsNot) and isinstance(r, bool) else wrap(T.not_(t_of(r))) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return wrap(T.not_(t_of(r))) if isinstance(op, ast.NotIn) else r
        a, b = self.force(a), self.force(b)
        for x in (a, b):
            if isinstance(x, Poison): raise PoisonRead(x.loc)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            if isinstance(op, ast.NotEq): return ew1(r, T.not_) if isinstance(r, FT) else wrap(T.not_(t_of(r)))
            return r
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        try: return f(a, b)
        except TypeError as e: raise IRaise('TypeError', str(e))

    def identical(self, a, b):
        if isinstance(a, Opt) and b is None: return wrap(T.not_(a.has))
        if isinstance(b, Opt) and a is None: return wrap(T.not_(b.has))
        a, b = self.force(a), self.force(b)
        if isinstance(a, SymObj) and isinstance(b, SymObj): return wrap(T.eq(a.k, b.k)) if a.fam is b.fam else False
        if isinstance(a, FT) and isinstance(b, FT): return wrap(T.eq(a.ident[1], b.ident[1])) if a.ident and b.ident and a.ident[0] is b.ident[0] else a is b
        if a is None or b is None: return a is b
        if isinstance(a, (bool,)) and isinstance(b, bool): return a is b
        if isinstance(a, SV) or isinstance(b, SV):
            if isinstance(b, bool) or isinstance(a, bool): return wrap(T.eq(t_of(a), t_of(b)))
            raise Unsupported('is on numbers')
        return a is b

    def equal(self, a, b):
        if isinstance(a, FT) or isinstance(b, FT):
            if isinstance(a, FT): return a.eq_(b) if b is not None else False
            return b.eq_(a) if a is not None else False
        if is_scalar(a) and is_scalar(b):
            return wrap(T.eq(t_of(a), t_of(b))) if (isinstance(a, SV) or isinstance(b, SV)) else a == b
        if isinstance(a, SymObj) and isinstance(b, SymObj): return self.identical(a, b)
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            xa, xb = self.iter(a), self.iter(b)
            if len(xa) != len(xb): return False
            return wrap(T.and_(*[t_of(self.equal(x, y)) for x, y in zip(xa, xb)]))
        if isinstance(a, str) or isinstance(b, str): return a == b
        if a is None or b is None: return a is b
        return a is b

    def contains(self, c, x):
        c = self.force(c)
        if is_sym(c) or isinstance(c, Seq): raise Unsupported('in a symbolic list')
        if isinstance(c, (PSet, PList, tuple, list)):
            its = c if isinstance(c, (tuple, list)) else c.items
            r = T.FALSE
            for y in its:
                q = self.identical(x, y) if isinstance(x, FT) else self.equal(x, y)
                r = T.or_(r, t_of(q))
            return wrap(r)
        if isinstance(c, PDict): return x in c.d
        if isinstance(c, str): return x in c
        if hasattr(c, 'contains'): return c.contains(x)
        raise Unsupported('in')

    # ---- comprehensions
    def e_ListComp(self, n, sc): return self.comp(n, sc)
    def e_GeneratorExp(self, n, sc): return self.comp(n, sc)
    def e_SetComp(self, n, sc):
        r = self.comp(n, sc)
        if not isinstance(r, PList): raise Unsupported('set of symbolic size')
        return PSet(r.items)
    def e_DictComp(self, n, sc):
        out = {}
        def rec(gi, s):
            if gi == len(n.generators):
                out[self.ev(n.key, s)] = self.ev(n.value, s); return
            g = n.generators[gi]
            for v in self.iter(self.ev(g.iter, s)):
                s2 = Scope(s, sc.mod); self.assign(g.target, v, s2)
                if all(self.truth(self.ev(c, s2)) for c in g.ifs): rec(gi + 1, s2)
        rec(0, sc)
        return PDict(out)

    def comp(self, n, sc):
        g = n.generators[0]
        seq = self.ev(g.iter, sc)
        sym = self.symseq(seq)
        if sym is not None:
            if len(n.generators) > 1 or g.ifs: raise Unsupported('comprehension over a symbolic sequence')
            from .loops import comp_summary
            return comp_summary(self, n, sc, sym)
        out = []
        def rec(gi, s):
            if gi == len(n.generators): out.append(self.ev(n.elt, s)); return
            g = n.generators[gi]
            it = self.ev(g.iter, s)
            for v in self.iter(it):
                s2 = Scope(s, sc.mod); self.assign(g.target, v, s2)
                if all(self.truth(self.ev(c, s2)) for c in g.ifs): rec(gi + 1, s2)
        rec(0, sc)
        return PList(out)

    # ---- calls
    def e_Call(self, n, sc):
        f = self.ev(n.func, sc)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, sc)
                if isinstance(v, Seq) or is_sym(v): args.append(StarSeq(v))
                else: args += self.iter(v)
            else: args.append(self.ev(a, sc))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, sc)
            if k.arg is None: kw.update(v.d)
            else: kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        f = self.force(f)
        if isinstance(f, Poison): raise PoisonRead(f.loc)
        if isinstance(f, Native):
            try: return f.f(*args, **kw)
            except TypeError as e:
                raise Unsupported('call of %s: %s' % (f.name or f.f, e))
        if isinstance(f, Bound): return self.call_func(f.f, [f.self_] + args, kw, f.cls)
        if isinstance(f, IFunc): return self.call_func(f, args, kw, f.cls)
        if isinstance(f, Static): return self.call(f.f, args, kw)
        if isinstance(f, IClass):
            if f.name in self.fspecs:
                return self.fspecs[f.name](self, args, kw)
            o = IObj(f)
            init, c = f.find('__init__')
            if init is not None: self.call_func(init, [o] + args, kw, c)
            return o
        if isinstance(f, IObj):
            m, c = f.cls.find('__call__') if f.cls else (None, None)
            if m is not None: return self.call_func(m, [f] + args, kw, c)
        if hasattr(f, 'call'): return f.call(*args, **kw)
        if f is None: raise IRaise('TypeError', 'None is not callable')
        raise Unsupported('call of %s' % type(f).__name__)

    def call_func(self, f, args, kw, cls):
        q = f.qual
        if q in self.fspecs:
            self.used_specs[q] = 1
            return self.fspecs[q](self, args, kw)
        self.trace[(getattr(f.mod, 'name', ''), q)] = 1
        if len(self.frames) > 60: raise Unsupported('recursion')
        sc = Scope(f.scope if f.scope is not None and f.scope.vars is not f.mod.env else None, f.mod)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        for k, v in zip(names, args):
            if isinstance(v, StarSeq): raise Unsupported('star argument')
            vals[k] = v
        extra = args[len(names):]
        if extra and not a.vararg: raise IRaise('TypeError', 'too many arguments to %s' % q)
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals: raise IRaise('TypeError', 'multiple values')
                vals[k] = kw.pop(k)
        if kw and not a.kwarg: raise IRaise('TypeError', 'unexpected keyword %s' % list(kw))
        nd = len(f.defaults)
        for k, d in zip(names[len(names) - nd:], f.defaults):
            vals.setdefault(k, d)
        for k, d in f.kwd.items(): vals.setdefault(k, d)
        for k in names + [x.arg for x in a.kwonlyargs]:
            if k not in vals: raise IRaise('TypeError', 'missing argument %s of %s' % (k, q))
        # parameters in declaration order (locals() is observed by the code)
        for k in names + [x.arg for x in a.kwonlyargs]: sc.vars[k] = vals[k]
        if a.vararg: sc.vars[a.vararg.arg] = tuple(extra) if not any(isinstance(x, StarSeq) for x in extra) else extra[0].seq
        if a.kwarg: sc.vars[a.kwarg.arg] = PDict(kw)
        if cls is not None and names:
            sc.vars['__class__'] = f.cls or cls; sc.vars['__self__'] = vals[names[0]]
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, sc)
        self.frames.append(f)
        try:
            self.body(f.node.body, sc)
        except _Ret as r: return r.v
        finally:
            if self.frames: self.frames.pop()
        return None


class StarSeq:
    def __init__(self, seq): self.seq = seq


class Missing:
    def __init__(self, name): self.name = name
    def getattr(self, k): return Missing(self.name + '.' + k)
    def call(self, *a, **k): raise Unsupported('external ' + self.name)


class Oracle:
    def __init__(self, pre): self.pre, self.taken = pre, []
    def choose(self):
        k = len(self.taken)
        b = self.pre[k] if k < len(self.pre) else True
        self.taken.append(b)
        return b


class Outcome:
    def __init__(self, kind, val, pc, trail, obls, taken): self.kind, self.val, self.pc, self.trail, self.obls, self.taken = kind, val, pc, trail, obls, taken


def wrapm(v):
    return Native(v, getattr(v, '__name__', '')) if callable(v) and not isinstance(v, (FT, SV, Native, IClass, IFunc, Missing)) and hasattr(v, '__self__') else v


def freeze(v):
    """a value stored in a family or symbolic list: later in-place changes are not tracked there"""
    if isinstance(v, FT):
        v.store.__dict__['frozen'] = True
        return v
    if isinstance(v, tuple): return tuple(freeze(x) for x in v)
    return v


def fam_write(ver, ix, v):
    w = ListWrite(ver, lambda k: T.eq(k, ix), lambda k: v, ix)
    w.value = v
    return w


def list_method(it, o, k, a, kw):
    if k == 'append':
        if is_sym(o):
            n, ver = o.items.n, o.items.ver
            o.put('items', SymItems(T.add(n, T.num(1, 'I')), fam_write(ver, n, freeze(a[0])))); return None
        if isinstance(o, PList): o.put('items', o.items + (a[0],)); return None
    if k == 'index':
        x = it.force(a[0])
        if (isinstance(o, Seq) or is_sym(o)) and isinstance(x, SymObj):
            q = T.var('#ix', 'I'); e = o.elem(q)
            if isinstance(e, SymObj) and e.fam is x.fam and e.k is q:
                it.oblige('is in the list', T.and_(T.le(Z, x.k), T.lt(x.k, o.n)))
                return wrap(x.k)
        if isinstance(o, PList):
            for j, x in enumerate(o.items):
                if it.truth(it.equal(x, a[0])): return j
            raise IRaise('ValueError', 'not in list')
    if is_sym(o): raise Unsupported('list.' + k)
    if isinstance(o, PList):
        if k == 'extend': o.put('items', o.items + tuple(it.iter(a[0]))); return None
        if k == 'copy': return PList(o.items)
        if k == 'pop':
            l = list(o.items); v = l.pop(*a); o.put('items', tuple(l)); return v
        if k == 'insert':
            l = list(o.items); l.insert(*a); o.put('items', tuple(l)); return None
        if k == 'clear': o.put('items', ()); return None
        if k == 'reverse': o.put('items', tuple(reversed(o.items))); return None
    raise Unsupported('list.' + k)


def dict_method(it, o, k, a):
    if k == 'values': return PList(o.d.values())
    if k == 'keys': return PList(o.d.keys())
    if k == 'items': return PList(o.d.items())
    if k == 'get': return o.d.get(a[0], a[1] if len(a) > 1 else None)
    if k == 'update':
        for q, v in a[0].d.items(): it.put_in(o, o.d, q, v)
        return None
    raise Unsupported('dict.' + k)


def set_method(it, o, k, a):
    if k == 'add':
        if not it.truth(it.contains(o, a[0])): o.put('items', o.items + (a[0],))
        return None
    if k in ('discard', 'remove'):
        o.put('items', tuple(x for x in o.items if not it.truth(it.identical(x, a[0])))); return None
    if k in ('union', 'update'):
        items = o.items + tuple(it.iter(a[0]))
        if k == 'update': o.put('items', items); return None
        return PSet(items)
    if k == 'copy': return PSet(o.items)
    raise Unsupported('set.' + k)


class PStr(str):
    """a string known up to the numbers in it: parts are strings, terms, or None for unknown text"""
    def __new__(cls, parts):
        o = str.__new__(cls, '<str>')
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
            elif p != '': out.append(p)
        o.parts = tuple(out)
        return o


def str_parts(v):
    if isinstance(v, PStr): return list(v.parts)
    if isinstance(v, (str, int, float)) and not isinstance(v, bool): return [str(v)]
    if isinstance(v, SV): return [v.t]
    return [None]


def to_str(v):
    p = str_parts(v)
    return p[0] if len(p) == 1 and isinstance(p[0], str) else PStr(p)


def str_mod(a, b):
    args = list(b) if isinstance(b, tuple) else [b]
    out = []; lit = a
    import re
    for m in re.split(r'(%[sd])', a):
        if m in ('%s', '%d') and args: out += str_parts(args.pop(0))
        elif '%' in m: return PStr([None])
        else: out.append(m)
    return PStr(out)


def str_format(o, a):
    import re
    out = []; args = list(a)
    for m in re.split(r'(\{\d*\})', o):
        if re.fullmatch(r'\{\d*\}', m):
            if not args: return PStr([None])
            out += str_parts(args.pop(0) if m == '{}' else a[int(m[1:-1])])
        elif '{' in m: return PStr([None])
        else: out.append(m)
    return PStr(out)


def strmeth(o, k, a, kw):
    if k == 'format' and not kw and not isinstance(o, PStr): return str_format(o, a)
    if all(isinstance(x, (str, int, float)) for x in a): return getattr(o, k)(*a, **kw)
    if k in ('format', 'join'): return '<str>'
    raise Unsupported('str.' + k)
