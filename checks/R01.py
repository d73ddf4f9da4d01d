"""Outlines that cross cut the plane into exactly the pieces between them."""
from symq.runner import H
from plycutter.geometry.impl2d.arrangement2d import SegmentArrangement
from .common import in_rings, on_rings, ring_edges, shoelace2, exact, cross
from .shapes import qrings
from .D01 import SWEEPS, MORE, FREE, GROW

PROPERTY = 'R01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the segments form closed outlines (as all callers '
               'guarantee)',
               'one set-iteration order is explored symbolically (constant '
               'hash); the concrete validation runs use the real hashes']


def same(a, b):
    return bool(a[0] == b[0]) and bool(a[1] == b[1])


def yes(env, f):
    return bool(f)


def chain(env, seg, edges):
    """The directed edges, in any order, lead from one end of the segment to
    the other along it."""
    a, b = seg
    d = (b[0] - a[0], b[1] - a[1])
    env.check(len(edges) > 0, 'every segment has its edges')
    sx = sy = env.Q(0)
    for u, v in edges:
        env.check(env.AND(cross(a, b, u) == 0, cross(a, b, v) == 0),
                  'the edges of a segment lie on it')
        env.check((v[0] - u[0]) * d[0] + (v[1] - u[1]) * d[1] > 0,
                  'the edges of a segment lead the same way')
        for w in (u, v):
            q = (w[0] - a[0]) * d[0] + (w[1] - a[1]) * d[1]
            env.check(env.AND(q >= 0, q <= d[0] * d[0] + d[1] * d[1]),
                      'the edges of a segment lie within it')
        sx = sx + (v[0] - u[0])
        sy = sy + (v[1] - u[1])
    env.check(env.AND(sx == d[0], sy == d[1]),
              'the edges of a segment cover all of it')


def judge(env, segs):
    arr = SegmentArrangement(segs)
    he = arr.half_edges
    keys = list(he)
    for u, v in keys:
        for c in (u, v):
            exact(env, c[0])
            exact(env, c[1])
        env.check((v, u) in he, 'every edge can be walked both ways')
    und = [k for k in keys if k[0] < k[1]]
    env.check(2 * len(und) == len(keys), 'edges have a length')
    verts = list(arr.vertices)
    for i, (a, b) in enumerate(und):
        for c, d in und[:i]:
            s1, s2 = cross(a, b, c), cross(a, b, d)
            s3, s4 = cross(c, d, a), cross(c, d, b)
            env.check(env.NOT(env.AND(s1 * s2 < 0, s3 * s4 < 0)),
                      'edges do not cross')
        for p in verts:
            if p == a or p == b:
                continue
            env.check(env.NOT(env.AND(
                cross(a, b, p) == 0,
                (p[0] - a[0]) * (p[0] - b[0]) +
                (p[1] - a[1]) * (p[1] - b[1]) < 0)),
                'no corner lies within an edge')
    for sid, seg in segs.items():
        chain(env, seg, [k for k in keys if sid in he[k].sids])
    # the borders of the pieces
    cells = list(arr.cells.values())
    n = 0
    for c in cells:
        for e in ring_edges(c.vertices):
            n += 1
            env.check(e in he and he[e].cell == c.vertices,
                      'a border consists of edges that have the piece on '
                      'their right')
        s = shoelace2(c.vertices)
        env.check(c.negative == bool(s > 0) and bool(s != 0),
                  'outer borders are clockwise')
    env.check(n == len(keys), 'every edge is in one border')
    # the points in the pieces
    allr = [c.vertices for c in cells]
    mids = [((c.vertices[0][0] + c.vertices[1][0]) / 2,
             (c.vertices[0][1] + c.vertices[1][1]) / 2) for c in cells]

    def strictly(p, ring):
        return not yes(env, on_rings(env, [ring], p)) and \
            yes(env, in_rings(env, [ring], p))
    inner = {}
    for i, c in enumerate(cells):
        for j, d in enumerate(cells):
            inner[i, j] = i != j and strictly(mids[i], d.vertices)
    for i, c in enumerate(cells):
        p = tuple(c.point_in_cell)
        exact(env, p[0])
        exact(env, p[1])
        env.check(env.NOT(on_rings(env, allr, p)),
                  'the point of a piece is on no border')
        env.check(env.IFF(in_rings(env, [c.vertices], p),
                          not c.negative),
                  'the point of a piece is on its side of the border')
        home = i
        if c.negative:
            # the piece around this group of pieces
            around = [j for j in range(len(cells))
                      if inner[i, j] and not cells[j].negative]
            home = None
            for j in around:
                if home is None or yes(
                        env, -shoelace2(cells[j].vertices) <
                        -shoelace2(cells[home].vertices)):
                    home = j
            env.check((c.container is None) if home is None else
                      (c.container == cells[home].vertices),
                      'a group of pieces knows the piece it lies in')
        else:
            cont = c.container
            env.check(cont is not None and arr.cells[cont].negative,
                      'a piece belongs to a group')
            if cont is not None:
                env.check(env.OR(on_rings(env, [cont], mids[i]),
                                 in_rings(env, [cont], mids[i])),
                          'a piece lies within its group')
                k = [x for x in range(len(cells))
                     if cells[x].vertices == cont][0]
                env.check(not any(
                    inner[i, x] and inner[x, k] for x in range(len(cells))
                    if cells[x].negative),
                    'a piece belongs to the innermost group')
        if home is not None:
            env.check(in_rings(env, [cells[home].vertices], p),
                      'the point of a piece is in it')
        for j, d in enumerate(cells):
            if d.negative or j == home:
                continue
            if home is None or inner[j, home]:
                env.check(env.NOT(in_rings(env, [d.vertices], p)),
                          'the point of a piece is in no other piece')
    env.observe('n', [len(keys), len(cells)])
    return arr


def cut(env, a, b, d=None, o=(0, 0), lo=-12, hi=12, grow=False):
    k = 1
    if grow:
        k, off = env.real('size', lo, hi), o
    elif d is not None:
        t = env.real('t', lo, hi)
        off = (o[0] + d[0] * t, o[1] + d[1] * t)
    else:
        off = (env.real('tx', lo, hi), env.real('ty', lo, hi))
    segs = {}
    for n, r in (('A', qrings(env, a)), ('B', qrings(env, b, off, k))):
        for i, ring in enumerate(r):
            for j, (u, v) in enumerate(ring_edges(ring)):
                segs[n, i, j] = (u, v)
    judge(env, segs)


def cw(x):
    return dict(a=x[0], b=x[1], o=x[2], d=x[3], lo=x[4], hi=x[5])


HARNESSES = [
    H('cut', cut, [cw(SWEEPS[k]) for k in (0, 1, 2, 6, 9, 10)],
      [cw(x) for x in SWEEPS + MORE],
      bounds='the outlines of two shapes, one sliding along a line through '
             'every relative position'),
    H('size', cut, [dict(a=a, b=b, o=o, grow=True, lo=[1, 10 ** 9],
                         hi=10 ** 6) for a, b, o in GROW[:2]],
      [dict(a=a, b=b, o=o, grow=True, lo=[1, 10 ** 9], hi=10 ** 6)
       for a, b, o in GROW[2:]],
      bounds='the outlines of two shapes, one of any size between 1e-9 and '
             '1e6 times that of the other'),
]
