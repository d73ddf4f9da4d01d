"""Polygon area and point location of simple rings are exact."""
from symq.runner import H
from plycutter.geometry.impl2d import primitive2d as pr
from .common import exact, cross, shoelace2, in_rings, on_rings, on_edge

PROPERTY = 'V02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['rings are simple']


def pts(env, n, nm='v'):
    return [(env.real('%s%dx' % (nm, i)), env.real('%s%dy' % (nm, i)))
            for i in range(n)]


def area(env, n):
    P = pts(env, n)
    a = pr.simple_polygon_area(P)
    exact(env, a)
    env.observe('a', a)
    env.check(a * 2 == -shoelace2(P),
              'area is half the sum of the edge cross products')
    env.check(pr.simple_polygon_area(P[::-1]) == -a,
              'reversing a ring negates its area')
    env.check(pr.simple_polygon_area(P[1:] + P[:1]) == a,
              'the start vertex does not matter')
    if n > 3:
        env.check(pr.simple_polygon_area(P[:3]) +
                  pr.simple_polygon_area([P[0]] + P[2:]) == a,
                  'cutting along a diagonal preserves the total area')
    d = (env.real('dx'), env.real('dy'))
    env.check(pr.simple_polygon_area(
        [(x + d[0], y + d[1]) for x, y in P]) == a,
        'area does not depend on position')


def rect_area(env):
    x, y = env.real('x'), env.real('y')
    w, h = env.real('w', 0, strict=True), env.real('h', 0, strict=True)
    a = pr.simple_polygon_area([(x, y), (x, y + h), (x + w, y + h),
                                (x + w, y)])
    env.check(a == w * h, 'the area of a (clockwise) rectangle is '
              'width * height')


def tri(env, lattice=False):
    """Arbitrary triangle, arbitrary point."""
    A, B, C = pts(env, 3)
    o = cross(A, B, C)
    env.assume(o != 0)
    p = (env.real('px'), env.real('py'))
    r = pr.locate_point_polygon_winding_number([A, B, C], p)
    env.observe('r', r)
    c = [cross(A, B, p), cross(B, C, p), cross(C, A, p)]
    ins = env.OR(env.AND(*[x > 0 for x in c]), env.AND(*[x < 0 for x in c]))
    out = env.OR(env.AND(env.OR(*[x < 0 for x in c]), o > 0),
                 env.AND(env.OR(*[x > 0 for x in c]), o < 0))
    env.check(r in (-1, 0, 1), 'result is -1, 0 or 1')
    if r == 1:
        env.check(ins, '1 only inside')
    elif r == -1:
        env.check(out, '-1 only outside')
    else:
        env.check(env.NOT(env.OR(ins, out)), '0 only on the edge')


SHAPES = {
    'square': [(0, 0), (0, 4), (4, 4), (4, 0)],
    'diamond': [(0, 2), (3, 0), (5, 3), (2, 6)],
    'colin': [(0, 0), (0, 2), (0, 4), (2, 4), (4, 4), (4, 0), (3, 0),
              (1, 0)],
    'L': [(0, 0), (0, 5), (2, 5), (2, 2), (6, 2), (6, 0)],
    'U': [(0, 0), (0, 6), (2, 6), (2, 2), (4, 2), (4, 6), (6, 6), (6, 0)],
    'comb': [(0, 0), (0, 5), (1, 5), (1, 1), (2, 1), (2, 4), (3, 4), (3, 1),
             (4, 1), (4, 5), (5, 5), (5, 0)],
    'zig': [(0, 0), (1, 3), (2, 1), (3, 4), (4, 1), (6, 3), (5, 0), (3, -1)],
    'spiral': [(0, 0), (8, 0), (8, 8), (1, 8), (1, 2), (6, 2), (6, 6),
               (3, 6), (3, 4), (4, 4), (4, 5), (5, 5), (5, 3), (2, 3),
               (2, 7), (7, 7), (7, 1), (0, 1)],
    'star': [(0, 6), (-1, 2), (-6, 2), (-2, -1), (-4, -6), (0, -3),
             (4, -6), (2, -1), (6, 2), (1, 2)],
    'notch': [(0, 0), (0, 4), (2, 2), (4, 4), (4, 0), (2, 2), ],
}
del SHAPES['notch']  # touches itself: not simple


def shape(env, name, rev):
    """Fixed simple ring of either orientation, arbitrary point."""
    ring = [(env.Q(x), env.Q(y)) for x, y in SHAPES[name]]
    if rev:
        ring = ring[::-1]
    p = (env.real('px'), env.real('py'))
    r = pr.locate_point_polygon_winding_number(ring, p)
    env.observe('r', r)
    edge = on_rings(env, [ring], p)
    ins = in_rings(env, [ring], p)
    env.check(env.IFF(r == 0, edge), '0 exactly on the edge')
    env.check(env.IMPLIES(env.NOT(edge), env.IFF(r == 1, ins)),
              '1 exactly inside')
    env.check(r in (-1, 0, 1), 'result is -1, 0 or 1')


def quad(env, name, i):
    """One vertex of a fixed ring moves freely (while the ring stays
    star-shaped w.r.t. a fixed centre); arbitrary point on a horizontal
    line through a vertex or free."""
    base = {'kite': ((0, 0), [(-4, 0), (0, 4), (4, 0), (0, -4)]),
            'arrow': ((0, -1), [(-4, -4), (0, 4), (4, -4), (0, -2)])}[name]
    o, ring = base
    o = (env.Q(o[0]), env.Q(o[1]))
    ring = [(env.Q(x), env.Q(y)) for x, y in ring]
    v = (env.real('vx', -9, 9), env.real('vy', -9, 9))
    n = len(ring)
    env.assume(cross(o, ring[i - 1], v) < 0)
    env.assume(cross(o, v, ring[(i + 1) % n]) < 0)
    ring[i] = v
    p = (env.real('px'), env.real('py'))
    r = pr.locate_point_polygon_winding_number(ring, p)
    edge = on_rings(env, [ring], p)
    ins = in_rings(env, [ring], p)
    env.check(env.IFF(r == 0, edge), '0 exactly on the edge')
    env.check(env.IMPLIES(env.NOT(edge), env.IFF(r == 1, ins)),
              '1 exactly inside')


def edges(env, n):
    P = pts(env, n)
    E = list(pr.edges_iter(P))
    env.check(len(E) == n, 'one edge per vertex')
    for i, (a, b) in enumerate(E):
        c, d = P[i], P[(i + 1) % n]
        env.check(env.AND(a[0] == c[0], a[1] == c[1], b[0] == d[0],
                          b[1] == d[1]), 'edges follow the ring')


HARNESSES = [
    H('area', area, [dict(n=n) for n in (3, 4, 5, 6)], [dict(n=9)],
      bounds='every ring of 3..6 (thorough 9) vertices'),
    H('rect_area', rect_area, [dict()], bounds='every rectangle'),
    H('tri', tri, [dict()], bounds='every triangle and every point',
      nl_timeout_ms=20000),
    H('shape', shape, [dict(name=n, rev=r) for n in SHAPES for r in (0, 1)],
      bounds='%d fixed simple rings of up to 18 vertices, both '
             'orientations, every point of the plane' % len(SHAPES)),
    H('quad', quad, [], [dict(name=n, i=i) for n in ('kite', 'arrow')
                         for i in range(4)],
      bounds='4-vertex rings with one free vertex, every point',
      nl_timeout_ms=20000, path_s=200),
    H('edges', edges, [dict(n=n) for n in (1, 2, 3, 5)],
      bounds='rings of up to 5 vertices'),
]
