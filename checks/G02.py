"""1-D buffering is Minkowski sum / erosion."""
from symq.runner import H
from plycutter.geometry.geom1d import Geom1D
from .common import canon_ivs, some_ivs, in_ivs, check_canonical, INF

PROPERTY = 'G02'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def buffer(env, n, inf=0, sign=1, many=False):
    A = some_ivs(env, 'a', n, inf, many)
    amt = env.real('amount')
    if sign > 0:
        env.assume(amt >= 0)
    else:
        env.assume(amt < 0)
    g = Geom1D([list(x) for x in A])
    r = g.buffer(amt)
    env.observe('r', r.intervals)
    check_canonical(env, r)
    p = env.real('p')
    got = in_ivs(env, r.intervals, p)
    if sign > 0:
        # within amt of a point of g; points only reached by end points of
        # two grown pieces that just touch are virtual edges
        strict = env.OR(*[env.AND(a - amt < p, p < b + amt) for a, b in A])
        loose = env.OR(*[env.AND(a - amt <= p, p <= b + amt) for a, b in A])
        env.check(env.IMPLIES(strict, got), 'buffer covers every point '
                  'within the amount')
        env.check(env.IMPLIES(got, loose), 'buffer covers only points '
                  'within the amount')
    else:
        want = env.OR(*[env.AND(a < p + amt, p - amt < b) for a, b in A])
        env.check(env.IFF(got, want), 'negative buffer keeps exactly the '
                  'points farther than the amount from the outside')


def ints(env, n):
    """Integer amounts are exact too."""
    A = canon_ivs(env, 'a', n)
    amt = env.choice('k', 5) - 2
    g = Geom1D([list(x) for x in A])
    r = g.buffer(amt)
    check_canonical(env, r)
    p = env.real('p')
    got = in_ivs(env, r.intervals, p)
    want = env.OR(*[env.AND(a - amt < p, p < b + amt, a - amt < b + amt)
                    for a, b in A])
    loose = env.OR(*[env.AND(a - amt <= p, p <= b + amt, a - amt < b + amt)
                     for a, b in A])
    env.check(env.AND(env.IMPLIES(want, got), env.IMPLIES(got, loose)),
              'buffer by an integer amount')


HARNESSES = [
    H('buffer', buffer,
      [dict(n=n, sign=s) for n in (0, 1, 2, 3) for s in (1, -1)] +
      [dict(n=n, sign=s, inf=i) for n in (1, 2) for s in (1, -1)
       for i in (1, 2, 3)] + [dict(n=9, sign=s, many=True) for s in (1, -1)],
      [dict(n=n, sign=s, inf=i) for n in (4, 5) for s in (1, -1)
       for i in (0, 1, 2, 3)],
      bounds='up to 3 (thorough 5) intervals, arbitrary rational ends '
             '(outer ends also infinite), 9 given ranges; any rational '
             'amount of either '
             'sign'),
    H('ints', ints, [dict(n=2)], [dict(n=3)],
      bounds='integer amounts -2..2'),
]
