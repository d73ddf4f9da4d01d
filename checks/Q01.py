"""The quadtree never misses a segment that the query touches."""
from symq.runner import H
from plycutter.geometry.aabb import AABB
from plycutter.geometry.impl2d.pmr_quadtree import SegmentPMRQuadTree
from .common import cross, on_edge

PROPERTY = 'Q01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['stored segments lie within the tree\'s bounding box '
               '(documented: it must be known beforehand)']


def touch(env, a, b):
    """Closed segments a and b have a common point (formula)."""
    def opp(p, q):
        return env.OR(env.AND(p > 0, q < 0), env.AND(p < 0, q > 0))
    c1, c2 = cross(a[0], a[1], b[0]), cross(a[0], a[1], b[1])
    d1, d2 = cross(b[0], b[1], a[0]), cross(b[0], b[1], a[1])
    return env.OR(env.AND(opp(c1, c2), opp(d1, d2)),
                  on_edge(env, a[0], a[1], b[0]),
                  on_edge(env, a[0], a[1], b[1]),
                  on_edge(env, b[0], b[1], a[0]),
                  on_edge(env, b[0], b[1], a[1]))


def place(env, name, d, o=None, mv=None, lo=-3, hi=11):
    Q = env.Q
    if mv is None:
        x, y = env.real(name + 'x', lo, hi), env.real(name + 'y', lo, hi)
    else:
        t = env.real(name + 't', lo, hi)
        x, y = Q(o[0]) + t * mv[0], Q(o[1]) + t * mv[1]
    return ((x, y), (x + Q(d[0]), y + Q(d[1])))


def judge(env, tree, items, q):
    found = tree.find(q)
    ids = []
    for f in found:
        k = [i for i, s in enumerate(items) if s is f]
        if not k:
            env.fail('the answer has only stored segments')
        ids.append(k[0])
    env.check(len(set(ids)) == len(ids), 'no segment is returned twice')
    for i, s in enumerate(items):
        if i not in ids:
            env.check(env.NOT(touch(env, s, q)),
                      'every stored segment that touches the query is found')
        else:
            env.check(True, 'found')
    env.observe('n', len(ids))


def query(env, items, d, o=None, mv=None, lo=-3, hi=11, threshold=4,
          given=False, move=(0, 0), tall=1):
    """Fixed segments; the query segment is anywhere."""
    Q = env.Q

    def at(p):
        return (Q(p[0]) + move[0], Q(p[1]) * tall + move[1])
    items = [(at((a, b)), at((c, e))) for a, b, c, e in items]
    aabb = None
    if given:
        aabb = AABB(at((-1, -1)), at((9, 9)))
    tree = SegmentPMRQuadTree(aabb, items=items, threshold=threshold)
    judge(env, tree, items, tuple(at(p) for p in place(
        env, 'q', d, o, mv, lo, hi)))


def stored(env, items, d, q, at, threshold=3):
    """One of the stored segments is anywhere, and added at any time."""
    Q = env.Q
    items = [((Q(a), Q(b)), (Q(c), Q(e))) for a, b, c, e in items]
    s = place(env, 's', d, None, None, -1, 9)
    for p in s:
        env.assume(env.AND(-1 <= p[0], p[0] <= 9, -1 <= p[1], p[1] <= 9))
    items.insert(at, s)
    tree = SegmentPMRQuadTree(AABB((Q(-1), Q(-1)), (Q(9), Q(9))),
                              items=items, threshold=threshold)
    judge(env, tree, items, tuple(tuple(Q(v) for v in p) for p in q))


GRID = [(0, i, 8, i) for i in (0, 3, 8)] + [(i, 0, i, 8) for i in (0, 5, 8)]
SCATTER = [(0, 0, 1, 1), (1, 1, 2, 0), (7, 7, 8, 8), (7, 8, 8, 7),
           (0, 8, 1, 7), (4, 0, 4, 8), (3, 3, 5, 5), (0, 4, 2, 4),
           (1, 2, 1, 3), (6, 1, 8, 2)]
DENSE = [(0, 0, 1, 0), (0, 0, 0, 1), (1, 0, 1, 1), (0, 1, 1, 1),
         (0, 0, 1, 1), (2, 2, 3, 2), (2, 2, 2, 3), (8, 8, 4, 4)]

QUICK = [
    dict(items=GRID, d=(3, 1)),
    dict(items=SCATTER, d=(0, 2), threshold=3),
    dict(items=SCATTER, d=(5, 0), o=(-6, 0), mv=(1, 1), lo=0, hi=14,
         threshold=2, given=True),
    dict(items=DENSE, d=(2, -1), o=(-3, 2), mv=(1, 0), lo=0, hi=10,
         threshold=3),
    dict(items=DENSE, d=(-3, 3), o=(0, -3), mv=(0, 1), lo=0, hi=10,
         threshold=2, given=True),
    dict(items=SCATTER, d=(3, 1), o=(-3, 1), mv=(1, 0), lo=0, hi=11,
         threshold=2, move=(-20, 30)),
    dict(items=SCATTER, d=(1, 3), o=(1, -4), mv=(0, 1), lo=0, hi=11,
         threshold=2, move=(30, -20), tall=3),
    dict(items=DENSE, d=(1, 2), o=(0, -3), mv=(0, 1), lo=0, hi=10,
         threshold=2, move=(-50, 3), given=True, tall=2),
]
TH = [
    dict(items=i, d=d, threshold=t, given=g)
    for i in (GRID, SCATTER, DENSE)
    for d, t, g in (((3, 1), 2, True), ((0, 3), 4, False),
                    ((-2, 0), 3, False), ((1, -4), 3, True),
                    ((9, 9), 12, False))
]
QS = [((0, 0), (8, 8)), ((-1, 4), (9, 4)), ((4, -1), (4, 9)),
      ((6, 6), (6, 9)), ((-1, 9), (3, 2))]
HARNESSES = [
    H('query', query, QUICK, TH,
      bounds='8-10 fixed segments with thresholds 2-4 (so that nodes split); '
             'query segments of fixed direction and length at every position '
             '(2-D, or along a line)'),
    H('stored', stored,
      [dict(items=SCATTER[:6], d=(2, 1), q=QS[0], at=3),
       dict(items=DENSE[:6], d=(0, 3), q=QS[1], at=6),
       dict(items=GRID[:5], d=(-2, 0), q=QS[2], at=0)],
      [dict(items=i[:7], d=d, q=q, at=a, threshold=t)
       for i in (SCATTER, DENSE) for d in ((2, 1), (0, 3))
       for q in QS for a, t in ((2, 2), (7, 3))],
      bounds='5-7 fixed segments plus one of fixed direction at every '
             'position in the box, inserted first / in the middle / last; '
             'fixed queries'),
]
