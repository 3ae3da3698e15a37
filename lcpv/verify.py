"""Contracts over the real source, and the driver that discharges their obligations.

A contract is a Python function over K: it declares symbolic inputs (requires), calls functions of the repository, which are executed
symbolically from their current source on every path, and states what must hold afterwards (ensures)."""
import json, os, random, signal, sys, time, traceback
import multiprocessing as mp
from . import env
env.setup()
from .eng import terms as T, smt
from .eng.base import *
from .eng.ft import *
from .eng import interp as I
from .eng import stubs as S

PHY = 'lcp_physics.physics.'
LCP = 'lcp_physics.lcp.'


UNDEC = T.var('#undecided', 'B')


class Contract:
    def __init__(self, fn, name, under, budget, dtypes, flags):
        self.fn, self.name, self.under, self.budget, self.dtypes, self.flags = fn, name, under, budget, dtypes, flags


def contract(reg, name, under=(), budget=100, dtypes=('f64',), **flags):
    def deco(f):
        reg.append(Contract(f, name, tuple(under), budget, dtypes, flags))
        return f
    return deco


class Few(list):
    """a path condition, with some of its facts that should suffice"""
    def __init__(self, pc, few): list.__init__(self, pc); self.few = few


class K:
    """what a contract can use"""
    def __init__(self, dtype='f64', **flags):
        self.dtype = dtype
        self.it = I.Interp(env.REPO, S.stubs(), S.builtins())
        self.it.div_checked = flags.get('divisors', True)
        self.flags = flags
        self.it.prover.triggers = flags.get('triggers', False)
        self.it.prover.linear = flags.get('linear', False)
        self.it.split_mod = flags.get('split_mod', False)
        self.trivial = 0
        self.inputs = {}

    # --- inputs
    def real(self, name): return SV(T.var(name))
    def int(self, name, lo=None):
        v = T.var(name, 'I')
        if lo is not None: self.it.assume(T.le(T.num(lo, 'I'), v))
        return v
    def vec(self, name, n, dtype=None):
        return FT.fn((n,), lambda i: T.var('%s[%d]' % (name, int(T.val(i)))), dtype or self.dtype)
    def ten(self, name, shape=(), dtype=None):
        """tensor of any (also symbolic) shape"""
        if shape == (): return FT.fn((), lambda: T.var(name), dtype or self.dtype)
        return FT.fn(shape, lambda *ix: T.app(name, ix), dtype or self.dtype)
    def num(self, x, shape=()): return FT.const(x, self.dtype, shape)

    def prefix(self, name, step, n):
        """the function i -> sum of step(0..i-1), step >= 0"""
        nm = self.it.prover.lem.add_prefix(name, step, Z, n, Z)
        self.it.prover.fcache.clear(); self.it.stcache.clear()
        return lambda i: T.app(nm, (i,), 'I')

    # --- code
    def cls(self, mod, name): return self.it.load(PHY + mod if '.' not in mod else mod).env[name]
    fn = cls
    def call(self, f, *a, **kw): return self.it.call(f, list(a), kw)
    def inv(self, o, m, *a, **kw): return self.it.call(self.it.getattr(o, m), list(a), kw)
    def attr(self, o, *path):
        for p in path: o = self.it.getattr(o, p) if isinstance(p, str) else self.it.getitem(o, p)
        return o
    def obj(self, cls, **attrs): return I.IObj(cls, attrs)
    def set(self, o, k, v): self.it.setattr(o, k, v)
    def plain(self, *names): pass       # these inputs are given as numbers, not tensors
    def list(self, *xs): return I.PList(xs)

    # --- specification
    def require(self, c): self.it.assume(t_of(c))
    def ensure(self, name, c):
        c = t_of(c)
        if c is T.TRUE: self.trivial += 1
        self.it.obls.append(('ensures ' + name, list(self.it.pc), c))
    def have(self, name, c):
        """an intermediate assertion: proved, then used"""
        self.ensure(name, c); self.it.assume(t_of(c))
    def derive(self, name, facts, c):
        """an intermediate assertion, proved from a few facts of the path (from everything known if they do not suffice), then used"""
        self.from_(name, facts, c); self.it.assume(t_of(c))
    def from_(self, name, facts, c):
        c = t_of(c)
        known = set(self.it.pc) | {g for p in self.it.pc if p.op == 'and' for g in p.args}
        few = []
        for f in facts:
            for g in (f.args if f.op == 'and' else (f,)):
                if g in known: few.append(g)
        self.it.obls.append(('ensures ' + name, Few(self.it.pc, few), c))
    def let(self, name, t):
        """a name for a term: (variable, its definition)"""
        v = T.var(name, t.sort); d = T.eq(v, t)
        self.it.prover.lem.defs[name] = lambda a, env: T.evaluate(T.strip_det(t, {}), env, {})
        self.it.assume(d)
        return v, d
    def same(self, name, a, b):
        """a tensor (or scalar) equals the given terms"""
        A = flat(a); B = flat(b)
        if len(A) != len(B): self.ensure(name + ' (size %d, expected %d)' % (len(A), len(B)), False); return
        for k, (x, y) in enumerate(zip(A, B)): self.ensure('%s[%d]' % (name, k), T.eq(T.toR(x), T.toR(y)))
    def truth(self, c): return self.it.truth(c)
    def decide(self, c): return self.it.decide(t_of(c))
    def raises(self, f, *a, **kw):
        """call; the name of the exception raised, or None"""
        try: self.it.call(f, list(a), kw)
        except IRaise as e: return e.name
        return None


def flat(a):
    if isinstance(a, FT): return a.terms()
    if is_scalar(a): return [t_of(a)]
    if isinstance(a, T.Term): return [a]
    if isinstance(a, I.PList): a = a.items
    return [t for x in a for t in flat(x)]


SOFT = ('AttributeError', 'NameError', 'TypeError', 'KeyError', 'RuntimeError', 're-raise')


def run_contract(c, dtype):
    """-> plain dict.  A loop invariant that does not hold is a failed annotation, not yet a violation: the contract is then tried once
    more with the loops unrolled a few times, where only the postconditions of the property are left to fail."""
    r = run_contract1(c, dtype, 0)
    ann = lambda n: n.startswith('invariant of') or n.startswith('variant of')
    if any(ann(n) for n, _ in r['failed'] + r['unknown']) and not any(not ann(n) for n, _ in r['failed']):
        n_un = c.flags.get('unroll', 3)
        u = run_contract1(c, dtype, n_un) if n_un else dict(failed=[])
        if any(not ann(n) for n, d in u['failed']):
            r['failed'] = [('%s (loop unrolled %d times)' % (n, n_un), d) for n, d in u['failed'] if not ann(n)]; r['status'] = 'refuted'
        else:
            r['reason'] = r['reason'] or 'annotation does not hold: %s; no postcondition fails (loops: within %d iterations)' % (sorted({n for n, _ in r['failed'] + r['unknown'] if ann(n)}), n_un)
            r['failed'] = []; r['status'] = 'undecided'
    return r


def run_contract1(c, dtype, unroll):
    t0 = time.time()
    T.ZERODIV[0] = c.flags.get('inf', False)
    for k in smt.STATS: smt.STATS[k] = 0
    res = dict(contract=c.name + ('' if len(c.dtypes) == 1 else ' [%s]' % dtype), under=list(c.under), obligations=0, proved=0, failed=[], unknown=[], reason=None, paths=0, raised=0)
    k = c.flags.get('kclass', K)(dtype, **c.flags); k.it.unroll = unroll
    try:
        outs = k.it.explore(lambda: c.fn(k), c.flags.get('limit', 400))
    except (Unsupported, PoisonRead, RecursionError, NotImplementedError) as e:
        res['reason'] = 'outside the verified subset: %s %s' % (e, ' <- '.join(f.qual for f in reversed(k.it.frames[-4:])))
        if os.environ.get('LCPV_DEBUG'): print(''.join(traceback.format_exc().splitlines(True)[-8:]))
        return fin(res, k, t0)
    except IRaise as e:
        res['reason'] = 'raised outside a path: %s %s' % (e.name, e.msg); return fin(res, k, t0)
    obls = []
    live = 0
    for o in outs:
        res['paths'] += 1
        obls += o.obls
        if o.kind == 'raise':
            res['raised'] += 1
            if o.val.name in SOFT:
                if k.it.prover.check(o.pc, []) == 'unsat': continue
                res['reason'] = 'a path raises %s: %s' % (o.val.name, o.val.msg)
                if os.environ.get('LCPV_DEBUG'): print(res['reason'], o.pc)
                continue
            obls.append(('does not raise %s %s' % (o.val.name, o.val.msg), o.pc, T.FALSE))
        if o.kind == 'ok': live += 1
    if hasattr(k, 'gradients'): obls = k.gradients(obls)
    seen = set()
    dl = t0 + c.budget
    byname = {}
    for name, pc, goal in obls:
        few = getattr(pc, 'few', None)
        key = (name, frozenset(pc if few is None else few), goal)
        if key in seen: continue
        if few is None: seen.add(key)
        res['obligations'] += 1
        byname[name] = byname.get(name, 0) + 1
        if goal is T.TRUE: res['proved'] += 1; continue
        if goal is UNDEC: res['unknown'].append((name, 'neither proved nor refuted')); continue
        if time.time() > dl:
            res['unknown'].append((name, 'time budget of the contract used up')); continue
        t1 = time.time()
        if few is not None and k.it.prover.small(few, goal): v = 'proved'; seen.add(key)
        else: v, w = k.it.prover.prove(pc, goal, min(dl, time.time() + 45))
        if os.environ.get('LCPV_SLOW') and time.time() - t1 > .5: print('%.1fs %s %s' % (time.time() - t1, v, name), goal)
        if v == 'proved': res['proved'] += 1
        elif v == 'refuted': res['failed'].append((name, dict(goal=repr(T.show(goal, 4))[:600], counterexample={'%s%s' % (n, a if a else ''): x for (n, a, s), x in list(w.items())[:60]}, **getattr(k, 'detail', {}).get(name[8:], {}))))
        else:
            res['unknown'].append((name, str(w)[:200]))
            if os.environ.get('LCPV_DEBUG'): print('UNKNOWN', name, '\n  pc', pc, '\n  goal', goal, *(['\n  from'] + few if few is not None else []))
        if len(res['failed']) > 3: break
    if live == 0: res['reason'] = res['reason'] or 'vacuous: no path reaches the end'
    elif not any(n.startswith('ensures') for n in byname): res['reason'] = 'vacuous: nothing ensured'
    elif not res['failed'] and not feasible(k, outs): res['reason'] = 'vacuous: the requirements could not be shown satisfiable'
    res['names'] = sorted(byname)[:80]
    return fin(res, k, t0)


def feasible(k, outs):
    """some path's condition has a model (vacuity guard)"""
    oks = sorted([o for o in outs if o.kind == 'ok'], key=lambda o: len(o.pc))
    pr = k.it.prover
    if pr.examples:
        rnd = random.Random(1)
        for _ in range(30):
            for o in oks[:8]:
                if pr.true_under([T.strip_det(p, {}) for p in o.pc], pr.with_defs(pr.sample(rnd))): return True
    for o in oks:
        pc = [T.strip_det(p, {}) for p in o.pc]
        if k.it.prover.check(pc, [], 4000) == 'sat': return True
        v, w = k.it.prover.witness(pc, T.FALSE, 'unknown')
        if v == 'refuted': return True
    return False


def fin(res, k, t0):
    res['functions'] = sorted('%s:%s' % (m.replace('lcp_physics.', ''), q) for m, q in k.it.trace)
    res['assumed'] = sorted(str(x) for x in k.it.used_specs)
    res['wall_s'] = round(time.time() - t0, 2)
    res['solver'] = dict(z3_calls=smt.STATS['z3_calls'], z3_s=round(smt.STATS['z3_s'], 2), ring_normal_forms=smt.STATS['ring'])
    res['status'] = 'refuted' if res['failed'] else 'undecided' if res['reason'] or res['unknown'] else 'proved'
    return res


def _job(args):
    modname, idx, dtype, budget = args
    import importlib
    pm = importlib.import_module(modname)
    c = pm.CONTRACTS[idx]
    def onalarm(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(c.budget * budget) + 15)
    sys.setrecursionlimit(20000)
    c.budget *= budget
    try: return run_contract(c, dtype)
    except TimeoutError:
        return dict(contract=c.name, under=list(c.under), obligations=0, proved=0, failed=[], unknown=[], reason='time limit', paths=0, functions=[], assumed=[], wall_s=c.budget, solver={}, status='undecided')
    except Exception as e:
        if os.environ.get('LCPV_DEBUG'): traceback.print_exc()
        return dict(contract=c.name, under=list(c.under), obligations=0, proved=0, failed=[], unknown=[], reason='verifier error %s: %s' % (type(e).__name__, str(e)[:300]), paths=0, functions=[], assumed=[], wall_s=0, solver={}, status='undecided')
    finally: signal.alarm(0)


class Report:
    def __init__(self, prop, results, pm): self.prop, self.results, self.pm = prop, results, pm
    def failed(self): return [r for r in self.results if r['status'] == 'refuted']
    def refuted(self): return bool(self.failed())
    def failed_names(self): return ['%s: %s' % (r['contract'], f[0]) for r in self.failed() for f in r['failed']]
    def failed_output(self): return [dict(contract=r['contract'], functions=r['functions'], obligations=[dict(name=n, verdict='refuted', **d) for n, d in r['failed']]) for r in self.failed()]
    def replayed(self, prop, rts):
        """look for a concrete failing input of the run-time contracts once the verifier has refuted an obligation"""
        from . import rtrun
        for seed in (11, 12):
            st, v = rtrun.campaign(prop, rts, 30., seed)
            if v is not None: return dict(v, kind='run-time contract', failed_obligations=self.failed_names(), verifier_output=self.failed_output())
        return None
    def decided(self): return bool(self.results) and all(r['status'] != 'undecided' for r in self.results)
    def level(self): return 'proof' if self.decided() else 'exploration'
    def coverage(self):
        ob = sum(r['obligations'] for r in self.results); pr = sum(r['proved'] for r in self.results)
        fs = sorted({f for r in self.results for f in r['functions']})
        tb = ['the contract executor lcpv/eng (interprets the Python AST of the repository on every run), its ring normal form and case splits', 'z3 %s' % __import__('z3').get_version_string(),
              'contracts assumed for external functions: torch elementwise/linear algebra operations, math, ODE geoms (lcpv/eng/stubs.py, lcpv/eng/ft.py)']
        return dict(obligations=ob, discharged=pr, checker_cmd='./check %s' % self.prop, trusted_base=tb, functions_under_contract=fs,
                    solver=dict(z3_calls=sum(r['solver'].get('z3_calls', 0) for r in self.results), z3_s=round(sum(r['solver'].get('z3_s', 0) for r in self.results), 2), ring_normal_forms=sum(r['solver'].get('ring_normal_forms', 0) for r in self.results)),
                    contracts=[{k: v for k, v in r.items() if k in ('contract', 'under', 'status', 'obligations', 'proved', 'paths', 'reason', 'unknown', 'assumed', 'wall_s', 'names')} for r in self.results],
                    bounded_standins=list(getattr(self.pm, 'BOUNDED', [])))
    def assumptions(self):
        a = ['machine floating point is read as exact real arithmetic', 'integers are mathematical'] + list(getattr(self.pm, 'ASSUMES', []))
        a += ['contract used instead of the body, assumed here: ' + x for r in self.results for x in r['assumed']]
        a += ['undecided contract %s: %s' % (r['contract'], r['reason'] or r['unknown']) for r in self.results if r['status'] == 'undecided']
        return sorted(set(a), key=a.index)
    def show(self):
        for r in self.results:
            print('  contract %-58s %-9s %4d/%d obligations, %d paths, %.1fs%s' % (r['contract'], r['status'], r['proved'], r['obligations'], r['paths'], r['wall_s'], ' (%s)' % (r['reason'] or r['unknown'][:2]) if r['status'] == 'undecided' else ''))
            for n, d in r['failed']: print('    failed obligation: %s' % n)


def run(pm, prop, thorough):
    jobs = [(pm.__name__, i, d, 3 if thorough else 1) for i, c in enumerate(pm.CONTRACTS) for d in c.dtypes]
    ctx = mp.get_context('fork')
    with ctx.Pool(min(7, len(jobs)), maxtasksperchild=1) as p:
        out = p.map(_job, jobs, chunksize=1)
    return Report(prop, out, pm)


def main():
    """python -m lcpv.verify C07 [substring]: one property's contracts, in process"""
    import importlib
    env.setup(); sys.setrecursionlimit(20000)
    pm = importlib.import_module('lcpv.proofs.' + sys.argv[1].lower())
    for i, c in enumerate(pm.CONTRACTS):
        if len(sys.argv) > 2 and sys.argv[2] not in c.name: continue
        for d in c.dtypes:
            try: r = run_contract(c, d)
            except Exception: traceback.print_exc(); continue
            Report('', [r], pm).show()
            for n, x in r['failed'][:3]: print('      ', n, x)
            for n, x in r['unknown'][:8]: print('      ?', n, x)
            if os.environ.get('LCPV_FUNCS'): print(r['functions'], r['assumed'], r['solver'])


if __name__ == '__main__': main()
