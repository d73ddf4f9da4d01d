"""Bounding box / segment test is exact."""
from symq.runner import H
from plycutter.geometry.aabb import AABB

PROPERTY = 'A02'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def oracle(env, lo, hi, s, e):
    """Separating axis theorem, written out as a formula."""
    sep = []
    for i in range(2):
        sep.append(env.AND(s[i] < lo[i], e[i] < lo[i]))
        sep.append(env.AND(s[i] > hi[i], e[i] > hi[i]))
    cr = [(e[0] - s[0]) * (y - s[1]) - (e[1] - s[1]) * (x - s[0])
          for x in (lo[0], hi[0]) for y in (lo[1], hi[1])]
    sep.append(env.AND(*[c > 0 for c in cr]))
    sep.append(env.AND(*[c < 0 for c in cr]))
    return env.NOT(env.OR(*sep))


def seg(env, d=None, box=None, mode='sat'):
    """d: fixed direction of the segment (else arbitrary);
    box: fixed box (else arbitrary)."""
    if box is None:
        lo = (env.real('lx'), env.real('ly'))
        w, h = env.real('w', 0), env.real('h', 0)
        hi = (lo[0] + w, lo[1] + h)
    else:
        Q = env.Q
        lo = tuple(Q(v) for v in box[0])
        hi = tuple(Q(v) for v in box[1])
    s = (env.real('sx'), env.real('sy'))
    if d is None:
        e = (env.real('ex'), env.real('ey'))
    else:
        k = env.real('k', 0)
        e = (s[0] + k * d[0], s[1] + k * d[1])
    b = AABB(lo, hi)
    r = bool(b.intersects_segment((s, e)))
    env.observe('r', r)
    want = oracle(env, lo, hi, s, e)
    env.check(env.IFF(r, want),
              'intersects_segment iff box and segment share a point')
    if d is not None:
        # the same, without the separating axis theorem: no shared point
        # of a segment that is reported not to meet the box
        u = env.real('u', 0)
        at = (s[0] + u * d[0], s[1] + u * d[1])
        env.check(env.IMPLIES(env.AND(
            u <= k, lo[0] <= at[0], at[0] <= hi[0],
            lo[1] <= at[1], at[1] <= hi[1]), r),
            'a segment with a point in the box is never missed')


def grown(env, n, d):
    """Box grown point by point: no stale derived state."""
    pts = [(env.real('x%d' % i), env.real('y%d' % i)) for i in range(n)]
    Q = env.Q
    b = AABB()
    for q in pts:
        b.include_point(q)
    s = (env.real('sx'), env.real('sy'))
    e = (s[0] + Q(d[0]), s[1] + Q(d[1]))
    lo = [pts[0][0], pts[0][1]]
    hi = [pts[0][0], pts[0][1]]
    for q in pts:
        for i in range(2):
            if q[i] < lo[i]:
                lo[i] = q[i]
            if q[i] > hi[i]:
                hi[i] = q[i]
    r = bool(b.intersects_segment((s, e)))
    env.check(env.IFF(r, oracle(env, lo, hi, s, e)),
              'intersects_segment after growing the box')


D = [(1, 0), (0, 1), (1, 1), (2, -1), (-1, 3), (0, -1), (-3, -2), (-1, 0)]
HARNESSES = [
    H('full', seg, [dict()], bounds='every box (also degenerate) and every '
      'segment (also degenerate)', nl_timeout_ms=20000),
    H('dir', seg, [dict(d=d) for d in D[:6]], [dict(d=d) for d in D],
      bounds='arbitrary box (also degenerate), segment of any length '
             '(also 0) along 6 (thorough 8) directions at any place'),
    H('free', seg, [dict(box=[(0, 0), (1, 2)])],
      [dict(box=[(0, 0), (0, 1)]), dict(box=[(-1, -1), (-1, -1)]),
       dict(box=[(1, 0), (4, 1)])],
      bounds='fixed box, both segment ends arbitrary'),
    H('grown', grown, [dict(n=2, d=(2, 1)), dict(n=2, d=(-1, 2))],
      [dict(n=2, d=d) for d in D], bounds='box grown from 2 points'),
]
