"""Concrete shape families (clockwise rings, y up) placed symbolically."""
from plycutter.geometry.geom2d import Geom2D
from plycutter.geometry.impl2d import geom2d_simple_holes as G2
from .common import (cross, in_rings, on_rings, ring_edges, shoelace2, exact,
                     on_edge)


def rect(x0, y0, x1, y1):
    return [(x0, y0), (x0, y1), (x1, y1), (x1, y0)]


# name -> list of (outer, holes); all rings clockwise
S = {
    'sq': [(rect(0, 0, 4, 4), [])],
    'sq1': [(rect(0, 0, 1, 1), [])],
    'sq2': [(rect(0, 0, 2, 2), [])],
    'wide': [(rect(0, 0, 8, 2), [])],
    'tall': [(rect(0, 0, 2, 8), [])],
    'tri': [([(0, 0), (1, 3), (4, 1)], [])],
    'diamond': [([(0, 2), (2, 4), (4, 2), (2, 0)], [])],
    'skew': [([(0, 1), (2, 5), (5, 4), (4, 0)], [])],
    'L': [([(0, 0), (0, 5), (2, 5), (2, 2), (6, 2), (6, 0)], [])],
    'U': [([(0, 0), (0, 6), (2, 6), (2, 2), (4, 2), (4, 6), (6, 6),
            (6, 0)], [])],
    'colin': [([(0, 0), (0, 2), (0, 4), (2, 4), (4, 4), (4, 0), (3, 0),
                (1, 0)], [])],
    'frame': [(rect(0, 0, 6, 6), [rect(2, 2, 4, 4)])],
    'hole2': [(rect(0, 0, 9, 4), [rect(1, 1, 3, 3), rect(5, 1, 8, 3)])],
    'dhole': [(rect(0, 0, 6, 6), [[(1, 3), (3, 5), (5, 3), (3, 1)]])],
    'island': [(rect(0, 0, 8, 8), [rect(1, 1, 7, 7)]),
               (rect(3, 3, 5, 5), [])],
    'nest': [(rect(0, 0, 10, 10), [rect(1, 1, 9, 9)]),
             (rect(2, 2, 8, 8), [rect(3, 3, 7, 7)]),
             (rect(4, 4, 6, 6), [])],
    'two': [(rect(0, 0, 2, 2), []), (rect(4, 0, 6, 2), [])],
    'checker': [(rect(0, 0, 2, 2), []), (rect(2, 2, 4, 4), [])],
    'trihole': [([(0, 0), (3, 9), (9, 1)], [[(2, 2), (3, 5), (5, 2)]])],
    'holes3': [(rect(0, 0, 10, 4), [rect(1, 1, 3, 3), rect(4, 1, 6, 3),
                                    rect(7, 1, 9, 3)]),
               (rect(11, 0, 12, 2), []), (rect(0, 5, 2, 6), [])],
    'many': [(rect(0, 0, 22, 8), [rect(1, 1, 3, 3), rect(1, 5, 3, 7),
                                  [(5, 4), (7, 6), (9, 4), (7, 2)],
                                  rect(11, 1, 16, 6),
                                  [(18, 1), (18, 4), (20, 1)],
                                  rect(18, 5, 21, 6)]),
             (rect(12, 2, 15, 5), []), ([(6, 4), (7, 5), (8, 4)], []),
             (rect(24, 0, 27, 3), [rect(25, 1, 26, 2)]),
             (rect(0, 10, 1, 12), []), (rect(2, 9, 3, 10), []),
             (rect(4, 11, 9, 12), [])],
    'comb': [([(0, 0), (0, 4), (1, 4), (1, 1), (2, 1), (2, 4), (3, 4),
               (3, 1), (4, 1), (4, 4), (5, 4), (5, 0)], [])],
}


def rings_of(name, off=(0, 0), scale=1):
    r = []
    for outer, holes in S[name]:
        for ring in [outer] + holes:
            r.append([(x * scale + off[0], y * scale + off[1])
                      for x, y in ring])
    return r


def geom(env, name, off=(0, 0), scale=1):
    """The Geom2D for a named shape, moved by off (possibly symbolic)."""
    Q = env.Q
    ps = []
    for outer, holes in S[name]:
        def mv(ring):
            return [(Q(x) * scale + off[0], Q(y) * scale + off[1])
                    for x, y in ring]
        ps.append(G2.Simple_Polygon_With_Holes(mv(outer),
                                               [mv(h) for h in holes]))
    return Geom2D(ps)


def qrings(env, name, off=(0, 0), scale=1):
    Q = env.Q
    return [[(Q(x) * scale + off[0], Q(y) * scale + off[1]) for x, y in r]
            for r in rings_of(name)]


def out_rings(g):
    """All boundary rings of a result, through the public interface."""
    rs = []
    for poly in g.polygons():
        rs.append([tuple(v) for v in poly.exterior()])
        for h in poly.holes():
            rs.append([tuple(v) for v in h])
    return rs


def observe_geom(env, label, g):
    """Order-independent summary (set iteration order may differ between
    the symbolic and the real run)."""
    a = g.area()
    n = len(list(g.polygons()))
    env.observe(label, [a, n])
