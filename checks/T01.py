"""Stabbing queries of the segment tree."""
from symq.runner import H
from plycutter.geometry.impl2d.segment_tree import SegmentTree1D

PROPERTY = 'T01'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def stab(env, n, fixed=(), order=True, degenerate=True):
    Q = env.Q
    segs = []
    prev = None
    for i in range(n):
        lo, hi = env.real('l%d' % i), env.real('h%d' % i)
        env.assume(lo <= hi if degenerate else lo < hi)
        if order and prev is not None:
            env.assume(prev <= lo)
        prev = lo
        segs.append((lo, hi, 'm%d' % i))
    for i, (a, b) in enumerate(fixed):
        segs.append((Q(a), Q(b), 'f%d' % i))
    v = env.real('v')
    tree = SegmentTree1D(segs)
    out = list(tree.stab(v))
    ids = [o[2] for o in out]
    env.observe('ids', sorted(ids))
    env.check(len(set(ids)) == len(ids), 'no segment is returned twice')
    for lo, hi, i in segs:
        env.check(env.IFF(i in ids, env.AND(lo <= v, v <= hi)),
                  'stab returns exactly the segments containing the value')
    by = {s[2]: s for s in segs}
    for lo, hi, i in out:
        env.check(env.AND(lo == by[i][0], hi == by[i][1]),
                  'segments come back with their own ends')


def query(env, fixed):
    """Fixed tree, every query value."""
    stab(env, 0, fixed)


F1 = [(0, 4), (1, 2), (2, 2), (2, 5), (5, 6), (6, 6)]
F2 = [(i, j) for i in range(6) for j in range(i, 6)]
F3 = [(0, 10), (0, 1), (9, 10), (3, 3), (4, 8), (5, 5), (5, 6), (2, 7),
      (2, 7)]
HARNESSES = [
    H('all', stab, [dict(n=1), dict(n=2, order=False)],
      [dict(n=3)],
      bounds='every tree of up to 2 (thorough 3) segments, every query'),
    H('mixed', stab, [dict(n=1, fixed=F1), dict(n=1, fixed=F3)],
      [dict(n=2, fixed=F1[:3])],
      bounds='one arbitrary segment added to 6-9 fixed ones, every query'),
    H('query', query, [dict(fixed=F1), dict(fixed=F2), dict(fixed=F3),
                       dict(fixed=F2[::-1]), dict(fixed=[(1, 1)])],
      bounds='fixed trees of up to 21 segments, every query value'),
]
