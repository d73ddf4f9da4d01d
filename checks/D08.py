"""Shapes are built with exactly the points that were given."""
from symq.runner import H
import numpy as np
from plycutter.geometry.geom2d import Geom2D
from .common import (in_rings, on_rings, cross, exact, ring_edges,
                     shoelace2)
from .shapes import geom, qrings, out_rings

PROPERTY = 'D08'
LEVEL = 'model_checking'
ASSUMPTIONS = ['floats are modelled as exact rationals (every finite float '
               'is one, and conversion to a fraction is exact)']


def same_region(env, g, rings, label):
    out = out_rings(g)
    for r in out:
        for v in r:
            exact(env, v[0])
            exact(env, v[1])
    p = (env.real('px'), env.real('py'))
    env.check(env.IMPLIES(env.NOT(on_rings(env, rings, p)),
                          env.IFF(in_rings(env, out, p),
                                  in_rings(env, rings, p))), label)


def polygon(env, pts, free, reorient):
    """A polygon some of whose corners are arbitrary."""
    Q = env.Q
    ring = []
    for i, (x, y) in enumerate(pts):
        if i in free:
            ring.append((env.real('x%d' % i, -10 ** 6, 10 ** 6),
                         env.real('y%d' % i, -10 ** 6, 10 ** 6)))
        else:
            ring.append((Q(x), Q(y)))
    # a simple polygon with non-zero area
    n = len(ring)
    env.assume(env.AND(*[env.OR(a[0] != b[0], a[1] != b[1])
                         for a, b in ring_edges(ring)]))
    if n == 3:
        a2 = shoelace2(ring)
    else:
        # convex position keeps it simple
        a2 = shoelace2(ring)
        cs = [cross(ring[i], ring[(i + 1) % n], ring[(i + 2) % n])
              for i in range(n)]
        env.assume(env.OR(env.AND(*[c > 0 for c in cs]),
                          env.AND(*[c < 0 for c in cs])))
    if reorient:
        env.assume(a2 != 0)
    else:
        env.assume(a2 < 0)
    g = Geom2D.polygon(list(ring), reorient=reorient)
    env.check(env.OR(2 * g.area() == a2, 2 * g.area() == -a2),
              'the area is that of the polygon')
    env.check(g.area() > 0, 'the area is positive')
    env.check(not g.is_empty(), 'it is not empty')
    env.check(len(list(g.polygons())) == 1 and
              len(list(list(g.polygons())[0].holes())) == 0,
              'it is one polygon without holes')
    same_region(env, g, [ring], 'a polygon has the points its corners bound')
    for out in out_rings(g):
        env.check(shoelace2(out) < 0, 'the corners are stored clockwise')


def rectangle(env, ints):
    """Any two opposite corners."""
    if ints:
        x0, y0 = 1, 2
        x1, y1 = env.real('x1'), env.real('y1')
        env.assume(env.AND(x1 != x0, y1 != y0))
    else:
        x0, y0, x1, y1 = [env.real(n) for n in ('x0', 'y0', 'x1', 'y1')]
        env.assume(env.AND(x1 != x0, y1 != y0))
    g = Geom2D.rectangle(x0, y0, x1, y1)
    p = (env.real('px'), env.real('py'))
    inside = env.AND(env.OR(env.AND(x0 < p[0], p[0] < x1),
                            env.AND(x1 < p[0], p[0] < x0)),
                     env.OR(env.AND(y0 < p[1], p[1] < y1),
                            env.AND(y1 < p[1], p[1] < y0)))
    edge = env.OR(p[0] == x0, p[0] == x1, p[1] == y0, p[1] == y1)
    env.check(env.IMPLIES(env.NOT(edge),
                          env.IFF(in_rings(env, out_rings(g), p), inside)),
              'a rectangle has the points between its corners')
    for r in out_rings(g):
        for v in r:
            exact(env, v[0])
            exact(env, v[1])


MATS = {'id': (1, 0, 0, 1), 'rot90': (0, 1, -1, 0), 'mirror': (-1, 0, 0, 1),
        'swap': (0, 1, 1, 0), 'shear': (1, 0, 2, 1), 'scale': (3, 0, 0, 2),
        'flipshear': (1, 1, 2, 1)}


def transform(env, s, mat, scale=False):
    """An affine map with arbitrary translation (and scale)."""
    Q = env.Q
    a, b, c, d = [Q(v) for v in MATS[mat]]
    if scale:
        k = env.real('k', [1, 10 ** 6], 10 ** 6)
        a, b = a * k, b * k
    tx, ty = env.real('tx', -10 ** 6, 10 ** 6), env.real('ty', -10 ** 6, 10 ** 6)
    M = np.array([[a, b], [c, d]], object)
    T = np.array([tx, ty], object)
    g = geom(env, s).transformed_with(
        lambda v: np.array(v, object).dot(M) + T)

    def f(v):
        return (v[0] * a + v[1] * c + tx, v[0] * b + v[1] * d + ty)
    rings = [[f(v) for v in r] for r in qrings(env, s)]
    same_region(env, g, rings, 'a transformed shape has the transformed '
                'points')
    for r in out_rings(g):
        env.check(shoelace2(r) < 0, 'rings stay clockwise')
    p = (env.real('px'), env.real('py'))
    del p


class FakeRing:
    def __init__(self, coords):
        self.coords = coords


class FakePoly:
    geom_type = 'Polygon'

    def __init__(self, ext, holes):
        self.exterior = FakeRing(ext)
        self.interiors = [FakeRing(h) for h in holes]

    is_empty = False
    is_valid = True

    @property
    def area(self):
        a = 0
        for k, r in enumerate([self.exterior] + self.interiors):
            s = shoelace2(list(r.coords)[:-1])
            s = s if s >= 0 else -s
            a = a + s if k == 0 else a - s
        return a / 2

    @property
    def bounds(self):
        xs = [c[0] for c in self.exterior.coords]
        ys = [c[1] for c in self.exterior.coords]
        return min(xs), min(ys), max(xs), max(ys)

    def __bool__(self):
        return True


class FakeMulti:
    def __init__(self, t, geoms):
        self.geom_type = t
        self.geoms = geoms

    is_empty = False
    is_valid = True

    @property
    def area(self):
        return sum(g.area for g in self.geoms)


def fake_orient(poly, sign=1.0):
    """Contract of shapely's orient: exterior of the given sign, holes of the
    opposite one."""
    def ring(cs, want):
        pts = list(cs)
        s = 0
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            s = s + (x0 * y1 - y0 * x1)
        ccw = s > 0
        return pts if ccw == (want > 0) else pts[::-1]
    return FakePoly(ring(poly.exterior.coords, sign),
                    [ring(h.coords, -sign) for h in poly.interiors])


def shapely_in(env, kind, ccw):
    """Polygons as the geometry library gives them (either orientation,
    closed coordinate lists of floats, any position)."""
    import shapely.geometry
    import shapely
    dx, dy = env.float('dx', -4, 4), env.float('dy', -4, 4)
    w = env.float('w', [1, 1000], 1)

    def box(x, y, sx, sy):
        pts = [(x, y), (x, y + sy), (x + sx, y + sy), (x + sx, y), (x, y)]
        return pts[::-1] if ccw else pts
    specs = [(box(dx, dy, 8 + w, 6), [box(dx + 1, dy + 1, w, 2),
                                      box(dx + 5, dy + 3, 2, w)])]
    if kind != 'Polygon':
        specs.append((box(dx + 20, dy, w, w), []))
    if env.symbolic:
        polys = [FakePoly(e, h) for e, h in specs]
        sh = polys[0] if kind == 'Polygon' else FakeMulti(kind, polys)
        keep = shapely.geometry.polygon.orient
        shapely.geometry.polygon.orient = fake_orient
        try:
            g = Geom2D.from_shapely(sh)
        finally:
            shapely.geometry.polygon.orient = keep
    else:
        polys = [shapely.geometry.Polygon(e, h) for e, h in specs]
        sh = {'Polygon': lambda: polys[0],
              'MultiPolygon': lambda: shapely.geometry.MultiPolygon(polys),
              'GeometryCollection':
                  lambda: shapely.geometry.GeometryCollection(polys)}[kind]()
        g = Geom2D.from_shapely(sh)
    Q = env.Q
    rings = [[(Q(x), Q(y)) for x, y in r[:-1]]
             for e, hs in specs for r in [e] + hs]
    same_region(env, g, rings, 'an imported shape has the same points')
    env.check(len(list(g.polygons())) == len(specs) and
              sorted(len(list(q.holes())) for q in g.polygons()) ==
              sorted(len(h) for e, h in specs),
              'polygons and holes are kept')
    env.check(2 * g.area() == sum(
        abs_area(env, e) - sum(abs_area(env, h) for h in hs)
        for e, hs in specs), 'the area is kept')


def abs_area(env, pts):
    Q = env.Q
    s = shoelace2([(Q(x), Q(y)) for x, y in pts[:-1]])
    return s if s >= 0 else -s


TRI = [(0, 0), (1, 3), (4, 1)]
QUAD = [(0, 0), (0, 4), (5, 5), (4, -1)]
PENTA = [(0, 0), (-1, 3), (2, 5), (5, 3), (4, 0)]
HARNESSES = [
    H('polygon', polygon,
      [dict(pts=TRI, free=[0, 1, 2], reorient=True),
       dict(pts=TRI, free=[1, 2], reorient=False),
       dict(pts=QUAD, free=[2], reorient=True),
       dict(pts=QUAD[::-1], free=[1], reorient=True),
       dict(pts=PENTA, free=[2], reorient=False)],
      [dict(pts=QUAD, free=[1, 3], reorient=True),
       dict(pts=PENTA[::-1], free=[0], reorient=True)],
      bounds='every triangle; convex quadrilaterals / pentagons with one '
             'free corner', nl_timeout_ms=20000),
    H('rectangle', rectangle, [dict(ints=True), dict(ints=False)],
      bounds='every pair of opposite corners'),
    H('transform', transform,
      [dict(s='dhole', mat=m) for m in MATS] +
      [dict(s='island', mat='mirror'), dict(s='many', mat='mirror'), dict(s='tri', mat='swap', scale=True)],
      [dict(s=s, mat=m) for s in ('nest', 'trihole') for m in MATS] +
      [dict(s='frame', mat=m, scale=True) for m in MATS],
      bounds='seven linear maps with arbitrary translation / scale'),
    H('shapely', shapely_in,
      [dict(kind=k, ccw=c) for k in ('Polygon', 'MultiPolygon',
                                     'GeometryCollection')
       for c in (False, True)],
      bounds='1-2 polygons with 2 holes, every position, either '
             'orientation',
      stubs=['shapely.geometry.polygon.orient is replaced by its contract '
             'in the symbolic run (the real one is used in replays)']),
]
