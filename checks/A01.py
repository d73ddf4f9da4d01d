"""Bounding boxes: containment and overlap."""
import numpy as np
from symq.runner import H
from plycutter.geometry.aabb import AABB

PROPERTY = 'A01'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def box_of(env, name, n, style):
    pts = [(env.real('%s%dx' % (name, i)), env.real('%s%dy' % (name, i)))
           for i in range(n)]
    b = AABB()
    for q in pts:
        b.include_point(np.array(q, object) if style else q)
    return pts, b


def le(env, pts, p, i):
    return env.OR(*[q[i] <= p[i] for q in pts])


def ge(env, pts, p, i):
    return env.OR(*[q[i] >= p[i] for q in pts])


def build(env, n, style):
    pts, b = box_of(env, 'a', n, style)
    p = (env.real('px'), env.real('py'))
    if n:
        for i in range(2):
            env.check(env.AND(env.OR(*[b.lower[i] == q[i] for q in pts]),
                              *[b.lower[i] <= q[i] for q in pts]),
                      'lower is the minimum of the included points')
            env.check(env.AND(env.OR(*[b.upper[i] == q[i] for q in pts]),
                              *[b.upper[i] >= q[i] for q in pts]),
                      'upper is the maximum of the included points')
    env.observe('b', [b.lower, b.upper])
    r = b.contains(np.array(p, object) if style else p)
    want = env.AND(le(env, pts, p, 0), ge(env, pts, p, 0),
                   le(env, pts, p, 1), ge(env, pts, p, 1))
    env.check(env.IFF(bool(r), want),
              'contains(p) iff p is within the extremes of the points')


def explicit(env):
    lo = (env.real('lx'), env.real('ly'))
    hi = (env.real('hx'), env.real('hy'))
    env.assume(lo[0] <= hi[0])
    env.assume(lo[1] <= hi[1])
    p = (env.real('px'), env.real('py'))
    b = AABB(lo, hi)
    env.check(env.IFF(bool(b.contains(p)),
                      env.AND(lo[0] <= p[0], p[0] <= hi[0],
                              lo[1] <= p[1], p[1] <= hi[1])),
              'contains on an explicit box')
    # later growth keeps everything
    q = (env.real('qx'), env.real('qy'))
    b.include_point(q)
    env.check(bool(b.contains(q)), 'include_point includes the point')
    env.check(bool(b.contains(lo)) and bool(b.contains(hi)),
              'include_point never shrinks')
    w = env.AND(env.OR(lo[0] <= p[0], q[0] <= p[0]),
                env.OR(p[0] <= hi[0], p[0] <= q[0]),
                env.OR(lo[1] <= p[1], q[1] <= p[1]),
                env.OR(p[1] <= hi[1], p[1] <= q[1]))
    env.check(env.IFF(bool(b.contains(p)), w),
              'include_point grows to the smallest box')


def overlap(env, na, nb):
    A, a = box_of(env, 'a', na, 0)
    B, b = box_of(env, 'b', nb, 0)
    r = bool(a.intersects_aabb(b))
    s = bool(b.intersects_aabb(a))
    env.observe('r', [r, s])
    # 1-D: [minA, maxA] meets [minB, maxB]
    c = []
    for i in range(2):
        c.append(env.AND(
            env.OR(*[x[i] >= y[i] for x in A for y in B]),
            env.OR(*[y[i] >= x[i] for x in A for y in B])))
    want = env.AND(*c) if na and nb else False
    env.check(env.IFF(r, want), 'boxes intersect iff they share a point')
    env.check(r == s, 'intersects_aabb is symmetric')


HARNESSES = [
    H('build', build, [dict(n=n, style=s) for n in (0, 1, 2)
                       for s in (0, 1)] + [dict(n=3, style=0)],
      [dict(n=3, style=1)],
      bounds='boxes of up to 3 arbitrary points in any order'),
    H('explicit', explicit, [dict()],
      bounds='arbitrary box, one extra point'),
    H('overlap', overlap,
      [dict(na=a, nb=b) for a, b in ((0, 0), (0, 1), (2, 0), (1, 1), (1, 2),
                                     (2, 2))],
      [dict(na=3, nb=2)],
      bounds='boxes of up to 2 (thorough 3) points each'),
]
