"""The union of any number of pieces is the pointwise union."""
from symq.runner import H
from plycutter.geometry.geom2d import Geom2D
from plycutter.geometry.impl2d import geom2d_simple_holes as G2
from .common import in_rings, on_rings, exact
from .shapes import geom, qrings, out_rings, observe_geom, rect

PROPERTY = 'D02'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def judge(env, r, rings, label):
    """rings: list (per piece) of ring lists."""
    for ring in out_rings(r):
        for v in ring:
            exact(env, v[0])
            exact(env, v[1])
    p = (env.real('px'), env.real('py'))
    want = env.OR(*[in_rings(env, rs, p) for rs in rings])
    got = in_rings(env, out_rings(r), p)
    edges = [ring for rs in rings for ring in rs]
    env.check(env.IMPLIES(env.NOT(on_rings(env, edges, p)),
                          env.IFF(got, want)), label)


def nary(env, fixed, moving, d, o, lo, hi):
    """fixed: [(shape, (x, y))]; moving slides along o + t d."""
    Q = env.Q
    t = env.real('t', lo, hi)
    gs, rings = [], []
    for s, off in fixed:
        off = (Q(off[0]), Q(off[1]))
        gs.append(geom(env, s, off))
        rings.append(qrings(env, s, off))
    if moving:
        off = (o[0] + d[0] * t, o[1] + d[1] * t)
        gs.insert(len(gs) // 2, geom(env, moving, off))
        rings.append(qrings(env, moving, off))
    r = Geom2D.union(gs)
    observe_geom(env, 'r', r)
    judge(env, r, rings, 'the union has exactly the points of the pieces')


def many(env, n, lo, hi, where, batch=None):
    """n unit squares in a row (more than one batch), one of them moves."""
    Q = env.Q
    if batch:
        G2.UNION_N, keep = batch, G2.UNION_N
        try:
            return many(env, n, lo, hi, where)
        finally:
            G2.UNION_N = keep
    t = env.real('t', lo, hi)
    gs, rings = [], []
    for i in range(n):
        x, y = Q(2 * (i % 10)), Q(2 * (i // 10))
        if i == where:
            x = x + t
        r = [(x, y), (x, y + 1), (x + 1, y + 1), (x + 1, y)]
        gs.append(Geom2D.polygon(r))
        rings.append(r)
    u = Geom2D.union(gs)
    # judge near the moving piece and at every piece's centre
    for r in out_rings(u):
        for v in r:
            exact(env, v[0])
            exact(env, v[1])
    p = (env.real('px'), env.real('py'))
    c = rings[where]
    near = env.AND(p[0] >= c[0][0] - 3, p[0] <= c[2][0] + 3,
                   p[1] >= c[0][1] - 1, p[1] <= c[2][1] + 1)
    want = env.OR(*[env.AND(r[0][0] < p[0], p[0] < r[2][0],
                            r[0][1] < p[1], p[1] < r[2][1]) for r in rings])
    edge = env.OR(*[env.OR(p[0] == r[0][0], p[0] == r[2][0],
                           p[1] == r[0][1], p[1] == r[2][1])
                    for r in rings])
    env.check(env.IMPLIES(env.AND(near, env.NOT(edge)),
                          env.IFF(in_rings(env, out_rings(u), p), want)),
              'the union of many pieces has exactly their points')
    for r in rings:
        m = ((r[0][0] + r[2][0]) / 2, (r[0][1] + r[2][1]) / 2)
        env.check(u.locate(m) == 1, 'every piece is in the union of many')
    env.check(u.locate((Q(-100), Q(0))) == -1, 'nothing else is')
    observe_geom(env, 'u', u)


def few(env, shape):
    """No piece, one piece, the same piece repeatedly."""
    Q = env.Q
    off = (env.real('x', -10 ** 6, 10 ** 6), env.real('y', -10 ** 6, 10 ** 6))
    g = geom(env, shape, off)
    rs = qrings(env, shape, off)
    e = Geom2D.union([])
    env.check(e.is_empty() and e.locate(off) == -1,
              'the union of nothing is empty')
    judge(env, Geom2D.union([g]), [rs], 'the union of one piece is itself')
    judge(env, Geom2D.union([g, g]), [rs], 'a piece twice is the piece')
    judge(env, Geom2D.union([Geom2D.empty(), g, Geom2D.empty()]), [rs],
          'empty pieces add nothing')
    judge(env, g | Geom2D.empty(), [rs], 'A | empty is A')
    judge(env, Geom2D.empty() | g, [rs], 'empty | A is A')
    judge(env, g - Geom2D.empty(), [rs], 'A - empty is A')
    for z in (Geom2D.empty() - g, g & Geom2D.empty(), Geom2D.empty() & g,
              Geom2D.empty() | Geom2D.empty(),
              Geom2D.empty() - Geom2D.empty()):
        env.check(z.is_empty(), 'operations with nothing give nothing')


QUICK = [
    dict(fixed=[('sq', (0, 0)), ('sq', (4, 0)), ('sq', (0, 4)),
                ('sq', (4, 4))], moving='sq2', d=(1, 1), o=(-3, -3),
         lo=0, hi=12),
    dict(fixed=[('wide', (0, 0)), ('wide', (0, 6)), ('tall', (0, 0))],
         moving='tall', d=(1, 0), o=(-3, 0), lo=0, hi=12),  # closes a frame
    dict(fixed=[('tri', (0, 0)), ('diamond', (3, 0))], moving='sq2',
         d=(0, 1), o=(2, -3), lo=0, hi=8),
    dict(fixed=[('frame', (0, 0)), ('sq2', (2, 2))], moving='sq2', d=(1, 0),
         o=(-3, 2), lo=0, hi=10),
]
TH = [
    dict(fixed=[('comb', (0, 0)), ('comb', (1, 3)), ('sq2', (0, 0))],
         moving='wide', d=(0, 1), o=(-1, -3), lo=0, hi=11),
    dict(fixed=[('nest', (0, 0)), ('frame', (7, 7))], moving='frame',
         d=(1, 1), o=(-5, -5), lo=0, hi=14),
    dict(fixed=[('U', (0, 0)), ('U', (6, 0)), ('L', (0, 6))],
         moving='tri', d=(2, 1), o=(-3, 0), lo=0, hi=6),
    dict(fixed=[('sq1', (i, j)) for i in range(3) for j in range(3)
                if (i, j) != (1, 1)],
         moving='sq1', d=(1, 0), o=(-1, 1), lo=0, hi=4),
]
HARNESSES = [
    H('many', many,
      [dict(n=66, lo=[1, 4], hi=[3, 4], where=65)] +
      [dict(n=n, lo=-2, hi=2, where=w, batch=4)
       for n, w in ((4, 3), (5, 4), (9, 8))] +
      [dict(n=17, lo=[1, 4], hi=2, where=15, batch=4)],
      [dict(n=66, lo=[1, 4], hi=[7, 4], where=63),
       dict(n=64, lo=[1, 4], hi=[3, 4], where=0),
       dict(n=65, lo=[1, 4], hi=[3, 4], where=64),
       dict(n=130, lo=[1, 4], hi=[3, 4], where=64)] +
      [dict(n=n, lo=0, hi=4, where=w, batch=b) for n, w, b in
       ((3, 1, 2), (7, 6, 2), (12, 3, 3), (30, 29, 5))],
      bounds='66 (130) unit squares, beyond one batch of the union, and 4-30 '
             'with the batch size set to 2-5; one of them moves',
      stubs=['the batch size of the union is set to 2-5 in some '
             'configurations'], path_s=300, replay_s=300),
    H('nary', nary, QUICK, TH,
      bounds='3-9 pieces, one of which slides through the others; every '
             'query point'),
    H('few', few, [dict(shape='sq'), dict(shape='dhole')],
      [dict(shape=s) for s in ('tri', 'nest', 'checker', 'colin')],
      bounds='no piece, one piece, repeated and empty pieces, at every '
             'position'),
]
