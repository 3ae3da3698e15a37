"""C16: excluded pairs never collide, and only those."""
from ..verify import *
from .common import *
CONTRACTS = []
ASSUMES = ['geoms compare and hash by identity', 'ode.collide may return anything']


class AnySet(Host):
    """a set of geoms with arbitrary contents, plus what was added since"""
    def __init__(self, name): Host.__init__(self); self.__dict__.update(name=name, added=())
    def base(self, g): return T.var('in(%s,%s)' % (self.name, g.attrs['#id']), 'B')
    def contains(self, g):
        if not isinstance(g, S.Geom): raise Unsupported('membership of something else')
        return wrap(T.TRUE if any(x is g for x in self.added) else self.base(g))
    def getattr(self, k):
        if k == 'add': return I.Native(lambda g: self.put('added', self.added + (g,)))
        raise Unsupported('set.' + k)


def bodies3(k, n):
    out = []
    mk = [circle, rect, lambda k, n: hull(k, n)[0]]
    for c in 'abc'[:n]:
        b = mk[k.it.choose(3)](k, c) if n < 3 else mk[0](k, c)
        g = k.attr(b, 'geom')
        k.set(g, '#id', c)
        out.append(b)
    return out


@contract(CONTRACTS, 'a new body excludes nobody, in a set of its own', ['bodies.Circle._create_geom', 'bodies.Hull._create_geom', 'bodies.Rect._create_geom'], divisors=False)
def fresh(k):
    a, b = bodies3(k, 2)
    sa, sb = k.attr(a, 'geom', 'no_contact'), k.attr(b, 'geom', 'no_contact')
    k.ensure('empty', isinstance(sa, I.PSet) and isinstance(sb, I.PSet) and not sa.items and not sb.items)
    k.ensure('not shared', sa is not sb)


@contract(CONTRACTS, 'add_no_contact excludes this pair in both orders, and nothing else', ['bodies.Body.add_no_contact'], divisors=False)
def exclude(k):
    bs = bodies3(k, 3)
    gs = [k.attr(b, 'geom') for b in bs]
    sets = [AnySet(c) for c in 'abc']
    for g, s in zip(gs, sets): k.set(g, 'no_contact', s)
    before = [[s.base(g) for g in gs] for s in sets]
    i, j = [(0, 1), (1, 0)][k.it.choose(3) % 2]
    k.inv(bs[i], 'add_no_contact', bs[j])
    for x in range(3):
        for y in range(3):
            now = t_of(k.it.contains(k.attr(gs[x], 'no_contact'), gs[y]))
            want = T.TRUE if {x, y} == {0, 1} else before[x][y]
            k.ensure('%s excludes %s' % ('abc'[x], 'abc'[y]), T.eq(now, want))


def pair(k, kinds, handler):
    """two bodies of the given kinds with exclusion sets as declarations leave them: arbitrary, but symmetrical"""
    mk = dict(c=circle, r=rect, h=lambda k, n: hull(k, n)[0])
    bs = [mk[x](k, n) for x, n in zip(kinds, 'ab')]
    gs = [k.attr(b, 'geom') for b in bs]
    for g, n in zip(gs, 'ab'):
        k.set(g, '#id', n); k.set(g, 'no_contact', AnySet(n)); k.set(g, 'body', 0 if n == 'a' else 1)
    ex = gs[0].attrs['no_contact'].base(gs[1])
    k.require(T.eq(ex, gs[1].attrs['no_contact'].base(gs[0])))
    return bs, gs, ex


KINDS = [('two circles', 'cc'), ('circle and hull', 'ch'), ('hull and circle', 'hc'), ('two hulls', 'hh'), ('rect and circle', 'rc'), ('two rects', 'rr')]


@contract(CONTRACTS, 'DiffContactHandler skips exactly the excluded pairs', ['contacts.DiffContactHandler.__call__'], budget=200, divisors=False)
def diff(k):
    n, kinds = KINDS[k.it.choose(len(KINDS))]
    bs, gs, ex = pair(k, kinds, 'DiffContactHandler')
    reached = []
    def go(it, a, kw): raise PathEnd()           # past the check: the geometry of the pair is examined
    k.it.fspecs['DiffContactHandler.get_closest'] = go
    k.it.fspecs['DiffContactHandler.test_separations'] = go
    k.it.stubs = dict(k.it.stubs)
    rnd(k)
    eps = k.real('eps'); k.require(T.le(T.num(0), eps.t))
    world = k.obj(None, eps=eps, contacts=k.list(), bodies=k.list(*bs))
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    if kinds == 'cc':
        (x1, y1), (x2, y2) = [k.attr(b, 'pos').terms() for b in bs]
        d2 = T.add(T.powi(T.sub(x1, x2), 2), T.powi(T.sub(y1, y2), 2)); k.require(T.lt(T.num(0), d2))
        near = T.le(T.sub(T.sqrt(d2), T.add(T.var('a.rad'), T.var('b.rad'))), eps.t)
    o = [0, 1] if k.it.choose() else [1, 0]
    k.call(h, k.list(world), gs[o[0]], gs[o[1]])
    cs = k.attr(world, 'contacts')
    if kinds == 'cc': k.ensure('%s: a contact iff not excluded and near' % n, T.eq(T.boolc(len(cs.items) > 0), T.and_(T.not_(ex), near)))
    else:
        k.ensure('%s: only an excluded pair is left out unexamined' % n, ex)
        k.ensure('%s: an excluded pair leaves no contact' % n, len(cs.items) == 0)


def rnd(k):
    k.it.load(PHY + 'contacts')
    m = k.it.mods[PHY + 'contacts']
    k.it.put_in(m, m.env, 'random', S.NS('random', choice=lambda xs: k.it.getitem(xs, SV(skolem(k, 'rnd', b_n(xs))))))


def b_n(xs): return xs.n if not isinstance(xs, tuple) else n_(len(xs))


@contract(CONTRACTS, 'OdeContactHandler skips exactly the excluded pairs', ['contacts.OdeContactHandler.__call__'], divisors=False)
def odeh(k):
    n, kinds = KINDS[k.it.choose(len(KINDS))]
    bs, gs, ex = pair(k, kinds, 'OdeContactHandler')
    asked = []
    o = [0, 1] if k.it.choose() else [1, 0]
    g = [gs[o[0]], gs[o[1]]]
    pt, nm = [k.real('pt%d' % j) for j in range(3)], [k.real('n%d' % j) for j in range(3)]
    one = k.obj(None, getContactGeomParams=I.Native(lambda: (tuple(pt), tuple(nm), k.real('depth'), g[0], g[1])))
    def collide(x, y):
        asked.append((x, y))
        return k.list(one) if k.it.choose() else k.list()
    k.it.load(PHY + 'contacts')
    m = k.it.mods[PHY + 'contacts']
    k.it.put_in(m, m.env, 'ode', S.NS('ode', collide=collide))
    eps = k.real('eps'); k.require(T.le(T.num(0), eps.t))
    old = k.int('nold', 0)
    world = k.obj(None, eps=eps, contacts=k.list(), bodies=k.list(*bs))
    h = k.call(k.cls('contacts', 'OdeContactHandler'))
    k.call(h, k.list(world), *g)
    cs = k.attr(world, 'contacts').items
    if not asked: k.ensure('%s: only an excluded pair is left out' % n, ex)
    for x, y in asked:
        k.ensure('%s: an excluded pair is not examined' % n, T.not_(ex))
        k.ensure('%s: this pair' % n, x is g[0] and y is g[1])
    for c in cs:
        k.ensure('%s: no contact of an excluded pair' % n, T.not_(ex))
        k.ensure('%s: indices' % n, k.it.iter(c)[1] == o[0] and k.it.iter(c)[2] == o[1])
