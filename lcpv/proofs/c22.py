"""C22: fixed steps and runs cover exactly the requested time."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['World.step_dt advances the time by a positive duration of at most the one asked for (C13)', 'termination: the retries of one run do not go on for ever']


def substeps(k, w, log):
    """contract of step_dt (C13): time advances by some positive amount, not more than asked"""
    def f(it, a, kw):
        d = a[1] if len(a) > 1 else kw['dt']
        d = t_of(d.scalar() if isinstance(d, FT) else d)
        t = t_of(w.attrs['t'])
        log.append((t, d))
        it.oblige('ensures a sub-step has a positive length', T.lt(T.num(0), d))
        acc = T.var(it.fresh_name('acc')); it.assume(T.and_(T.lt(T.num(0), acc), T.le(acc, d)))
        it.setattr(w, 't', SV(T.add(t, acc)))
    k.it.fspecs['World.step_dt'] = f


@contract(CONTRACTS, 'a fixed step ends exactly at its end', ['world.World.step'])
def fixed(k):
    w = k.obj(k.cls('world', 'World'), t=k.real('t0'), dt=k.real('wdt'))
    dt, t0 = T.var('wdt'), T.var('t0')
    k.require(T.lt(T.num(0), dt))
    end = T.add(t0, dt)
    log = []
    substeps(k, w, log)
    class Sub(LoopSpec):
        name = 'the sub-steps of a fixed step'
        doc = 'the time never passes start + dt; every sub-step asks for the rest'
        def __init__(self, it, sc, seq): self.it, self.sc = it, sc; log.clear()
        def havoc(self):
            self.it.put_in(w, w.attrs, 't', SV(T.var('t_k')))
            log.clear()
        def inv(self): return T.and_(T.le(t_of(w.attrs['t']), end), T.le(t0, t_of(w.attrs['t'])))
        def next(self):
            self.it.oblige('ensures one sub-step at a time', T.boolc(len(log) == 1))
            for t, d in log: self.it.oblige('ensures a sub-step asks for the whole rest', T.eq(T.add(t, d), end))
        def variant(self): return T.lt(T.var('t_k'), t_of(w.attrs['t']))
    k.it.loops[('World.step', 'While', 0)] = Sub
    k.inv(w, 'step', True) if k.it.choose() else k.inv(w, 'step', fixed_dt=True)
    k.ensure('the step ends at start + dt', T.eq(t_of(k.attr(w, 't')), end))
    k.ensure('the step length of the world is kept', T.eq(t_of(k.attr(w, 'dt')), dt))


@contract(CONTRACTS, 'an ordinary step is one sub-step of dt', ['world.World.step'])
def ordinary(k):
    w = k.obj(k.cls('world', 'World'), t=k.real('t0'), dt=k.real('wdt'))
    k.require(T.lt(T.num(0), T.var('wdt')))
    log = []
    substeps(k, w, log)
    k.inv(w, 'step')
    k.ensure('one sub-step', len(log) == 1)
    for t, d in log: k.ensure('of dt, from the start', T.and_(T.eq(d, T.var('wdt')), T.eq(t, T.var('t0'))))
    k.ensure('the step length of the world is kept', T.eq(t_of(k.attr(w, 'dt')), T.var('wdt')))


def pygame(k, saved, quit_):
    ev = lambda: I.Seq(T.num(0, 'I'), None)
    def get():
        if k.it.choose(): return k.list()
        return k.list(k.obj(None, type='QUIT' if quit_ else 'KEY'))
    return S.NS('pygame', Surface=lambda *a: S.NS('Surface', convert=lambda: S.NS('Surface', fill=lambda *a: None)), event=S.NS('event', get=get), QUIT='QUIT',
                display=S.NS('display', update=lambda *a: None, flip=lambda *a: None), image=S.NS('image', save=lambda s, p: saved.append((s, p))), draw=S.NS('draw', circle=lambda *a: None, line=lambda *a: None))


def run_contract_(k, shown, recorded, quit_=False):
    W = k.cls('world', 'World')
    rt = T.var('run_time')
    # bodies and joints only matter for drawing: any two of them
    drawn = k.obj(None, draw=I.Native(lambda *a, **kw: k.list()))
    w = k.obj(W, t=k.real('t0'), dt=k.real('wdt'), bodies=k.list(drawn), joints=k.list((drawn, 0, None)))
    k.require(T.lt(T.num(0), T.var('wdt')))
    steps, frames = [], []
    def step(it, a, kw):
        it.oblige('ensures a step starts before the run time', T.lt(t_of(w.attrs['t']), rt))
        it.oblige('ensures ordinary steps', T.boolc(len(a) < 2 and not kw))
        acc = T.var(it.fresh_name('acc')); it.assume(T.lt(T.num(0), acc))
        steps.append(1)
        it.setattr(w, 't', SV(T.add(t_of(w.attrs['t']), acc)))
    k.it.fspecs['World.step'] = step
    k.it.stubs = dict(k.it.stubs, pygame=pygame(k, [], quit_))
    rec = k.obj(None, record=I.Native(lambda t: frames.append(t_of(t)))) if recorded else None
    screen = S.NS('screen', get_size=lambda: (1, 1), blit=lambda *a: None) if shown else None
    class Run(LoopSpec):
        name = 'the loop of run_world'
        doc = 'any time may have been reached'
        def __init__(self, it, sc, seq): self.it, self.sc = it, sc; steps.clear(); frames.clear()
        def havoc(self):
            it = self.it
            it.put_in(w, w.attrs, 't', SV(T.var('t_k')))
            for n in ('elapsed_time', 'prev_frame_time', 'wait_time'):
                if n in self.sc.vars: it.put_in(self.sc, self.sc.vars, n, SV(T.var(n)))
            steps.clear(); frames.clear()
        def inv(self): return T.TRUE
        def next(self):
            self.it.oblige('ensures one step per round', T.boolc(len(steps) == 1))
            if shown and recorded:
                self.it.oblige('ensures one recording per step, at the time of the world', T.boolc(len(frames) == 1) if len(frames) != 1 else T.eq(frames[0], t_of(w.attrs['t'])))
    k.it.loops[('run_world', 'While', 0)] = Run
    ad = k.real('adt') if k.it.choose() else None
    if ad is not None: k.require(T.lt(T.num(0), ad.t))
    k.call(k.cls('world', 'run_world'), w, animation_dt=ad, run_time=SV(rt), print_time=k.it.choose(), screen=screen, recorder=rec)
    if quit_: k.ensure('stops at the run time or on request', T.boolc(len(steps) <= 1))
    else: k.ensure('stops once the run time is reached', T.le(rt, t_of(k.attr(w, 't'))))


@contract(CONTRACTS, 'run_world steps until the run time and no further', ['world.run_world'])
def run_plain(k): run_contract_(k, False, False)


@contract(CONTRACTS, 'run_world with a recorder records once per step', ['world.run_world'])
def run_recorded(k): run_contract_(k, True, True)


@contract(CONTRACTS, 'run_world with a screen', ['world.run_world'])
def run_shown(k): run_contract_(k, True, False)


@contract(CONTRACTS, 'a frame exactly when the interval has elapsed, numbered consecutively', ['utils.Recorder.record', 'utils.Recorder.__init__'])
def recorder(k):
    saved = []
    U = k.it.load(PHY + 'utils')
    k.it.put_in(U, U.env, 'pygame', pygame(k, saved, False))
    dt = k.real('rdt')
    screen = k.obj(None)
    r = k.call(k.cls('utils', 'Recorder'), dt, screen, 'frames')
    if k.it.choose():
        prev, n = Z_R, Z
    else:
        # any state left by earlier calls: n frames so far, the last due at prev
        prev, n = T.var('prev'), k.int('n', 0)
        for a in ('prev_t', 'frame'):
            if a not in r.attrs: raise Unsupported('state of the recorder')
        k.set(r, 'prev_t', SV(prev)); k.set(r, 'frame', SV(n))
    t = k.real('t')
    k.inv(r, 'record', t)
    due = T.le(t_of(dt), T.sub(t.t, prev))
    k.ensure('a frame is written exactly when due', T.eq(T.boolc(len(saved) == 1), due))
    k.ensure('at most one frame', len(saved) <= 1)
    for s, p in saved:
        k.ensure('of the screen', s is screen)
        parts = S.str_parts(p)
        k.ensure('numbered consecutively', len(parts) == 3 and parts[0] == 'frames/' and parts[2] == '.bmp' and isinstance(parts[1], T.Term) and T.eq(parts[1], n) if n is not Z else ''.join(x if isinstance(x, str) else '?' if not T.isnum(x) else str(int(T.val(x))) for x in parts) == 'frames/0.bmp')
    k.ensure('frames counted', T.eq(t_of(k.attr(r, 'frame')), T.ite(due, T.add(n, ONE), n)))
    k.ensure('the next interval starts where the last one ended', T.eq(t_of(k.attr(r, 'prev_t')), T.ite(due, T.add(prev, t_of(dt)), prev)))


Z_R = T.num(0)
