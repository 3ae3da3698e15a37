"""C07: circle-circle contacts."""
from ..verify import *
CONTRACTS = []
ASSUMES = ['two circles with distinct centres (the property\'s own precondition)']


@contract(CONTRACTS, 'two circles: one exact contact iff within the margin', ['contacts.DiffContactHandler.__call__'])
def circles(k):
    it = k.it
    C = k.cls('bodies', 'Circle')
    # two circles anywhere, with any radii
    b = []
    for n in ('a', 'b'):
        r = k.ten(n + '.rad')
        k.require(T.lt(T.num(0), r.scalar()))
        b.append(k.call(C, k.vec(n + '.p', 3), r))
    eps = k.real('eps'); k.require(T.le(T.num(0), eps.t))
    h = k.call(k.cls('contacts', 'DiffContactHandler'))
    # the pair is reported with arbitrary body indices
    i, j = SV(k.int('i')), SV(k.int('j'))
    g1, g2 = k.attr(b[0], 'geom'), k.attr(b[1], 'geom')
    k.set(g1, 'body', i); k.set(g2, 'body', j)
    c0 = k.list()
    world = k.obj(None, eps=eps, contacts=c0, bodies=Lookup([(i.t, b[0]), (j.t, b[1])]))
    (x1, y1), (x2, y2) = k.attr(b[0], 'pos').terms(), k.attr(b[1], 'pos').terms()
    r1, r2 = T.var('a.rad'), T.var('b.rad')
    d2 = T.add(T.powi(T.sub(x1, x2), 2), T.powi(T.sub(y1, y2), 2))
    k.require(T.lt(T.num(0), d2))
    k.call(h, k.list(world), g1, g2)
    cs = k.attr(world, 'contacts').items
    d = T.sqrt(d2)
    gap = T.sub(d, T.add(r1, r2))
    within = T.le(gap, eps.t)
    k.ensure('one contact iff within the margin', T.eq(T.boolc(len(cs) == 1), within))
    k.ensure('never more than one contact', len(cs) <= 1)
    if cs:
        (c, b1, b2) = it.iter(cs[0])
        n, p1, p2, pen = it.iter(c)
        k.ensure('indices', T.and_(T.eq(t_of(b1), i.t), T.eq(t_of(b2), j.t)))
        nx, ny = n.terms()
        k.same('the normal is the unit vector from centre 2 to centre 1', [nx, ny], [T.div(T.sub(x1, x2), d), T.div(T.sub(y1, y2), d)])
        k.same('penetration', pen, [T.neg(gap)])
        # midway between the two boundaries on the line of centres
        def mid(a, b_, m): return T.div(T.add(T.sub(a, T.mul(m, r1)), T.add(b_, T.mul(m, r2))), T.num(2))
        wx, wy = mid(x1, x2, T.div(T.sub(x1, x2), d)), mid(y1, y2, T.div(T.sub(y1, y2), d))
        k.same('offset 1 designates the midpoint', p1, [T.sub(wx, x1), T.sub(wy, y1)])
        k.same('offset 2 designates the midpoint', p2, [T.sub(wx, x2), T.sub(wy, y2)])


class Lookup:
    """world.bodies restricted to the two reported indices"""
    def __init__(self, m): self.m = m
    def getitem(self, k):
        t = t_of(k)
        for i, b in self.m:
            if t is i: return b
        raise Unsupported('body index')
