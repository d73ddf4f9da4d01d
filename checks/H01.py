"""Random finger widths fill the range within their limits."""
from symq.runner import H
from plycutter.heuristics import random_min_max
from .rng import AnyRNG

PROPERTY = 'H01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['floats are modelled as exact reals; equalities are judged '
               'with a slack of 1e-6, far above the rounding of the widths '
               'considered (at most 1000)',
               'the generator\'s draws are arbitrary legal outcomes']


def spans(env, n, perms, mn=None, mx=None):
    a = env.Q(mn) if mn else env.real('mn', [1, 100], 100)
    b = env.Q(mx) if mx else env.real('mx', [1, 100], 100)
    env.assume(a <= b)
    total = env.real('total', 0, 1000)
    env.assume(env.AND(a * n <= total, total <= b * n))
    rng = AnyRNG(env, perms=perms)
    res = random_min_max(n, a, b, total, rng)
    eps = env.Q(1, 10 ** 6) if env.symbolic else 1e-7
    Q = env.Q if env.symbolic else float
    env.observe('n', len(res))
    env.check(len(res) == n, 'as many fingers as asked for')
    prev = Q(0)
    for lo, hi in res:
        env.check(env.AND(lo - prev <= eps, prev - lo <= eps),
                  'fingers follow each other without gap or overlap')
        w = hi - lo
        env.check(env.AND(w >= a - eps, w <= b + eps),
                  'every finger width is within the limits')
        prev = hi
    env.check(env.AND(prev - total <= eps, total - prev <= eps),
              'the fingers fill the range')


HARNESSES = [
    H('spans', spans,
      [dict(n=1, perms=1), dict(n=2, perms=2), dict(n=3, perms=6),
       dict(n=4, perms=24), dict(n=5, perms=6, mn=3, mx=5),
       dict(n=6, perms=2, mn=3, mx=5)],
      [dict(n=5, perms=120), dict(n=6, perms=24), dict(n=7, perms=8),
       dict(n=8, perms=2, mn=3, mx=5)],
      bounds='1-6 (8) fingers, arbitrary width limits and range length up '
             'to 1000, arbitrary draws, all orders up to 4 (5) fingers'),
]
