"""1-D set algebra is exact."""
from symq.runner import H
from plycutter.geometry.geom1d import Geom1D
from .common import (raw_ivs, some_ivs, in_ivs, not_end, check_canonical,
                     INF)

PROPERTY = 'G01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['membership is compared at every real point that is not an '
               'endpoint of an input interval (documented: end points are '
               'not part of the domain)']


def construct(env, n, given=(), at=0):
    """The constructor denotes the union of arbitrary input intervals."""
    A = raw_ivs(env, 'a', n)
    A[at:at] = [(env.Q(a), env.Q(b)) for a, b in given]
    g = Geom1D([list(x) for x in A])
    env.observe('r', g.intervals)
    check_canonical(env, g)
    p = env.real('p')
    # p strictly inside the union of [lo, hi] once single points are ignored:
    # covered on both sides
    left = env.OR(*[env.AND(a < p, p <= b) for a, b in A])
    right = env.OR(*[env.AND(a <= p, p < b) for a, b in A])
    env.check(env.IFF(in_ivs(env, g.intervals, p), env.AND(left, right)),
              'Geom1D(intervals) is the union of the intervals, with virtual '
              'edges removed')


def ops(env, na, nb, op, inf=0, many=0):
    A = some_ivs(env, 'a', na, inf, many & 1)
    B = some_ivs(env, 'b', nb, inf >> 2, many & 2)
    g = Geom1D([list(x) for x in A])
    h = Geom1D([list(x) for x in B])
    p = env.real('p')
    ia, ib = in_ivs(env, A, p), in_ivs(env, B, p)
    if op == 'or':
        r, want = g | h, env.OR(ia, ib)
    elif op == 'and':
        r, want = g & h, env.AND(ia, ib)
    elif op == 'sub':
        r, want = g - h, env.AND(ia, env.NOT(ib))
    elif op == 'xor':
        r, want = g ^ h, env.XOR(ia, ib)
    elif op == 'not':
        r, want = ~g, env.NOT(ia)
    env.observe('r', r.intervals)
    check_canonical(env, r)
    got = in_ivs(env, r.intervals, p)
    env.check(env.IMPLIES(not_end(env, A + B, p), env.IFF(got, want)),
              '%s is the pointwise set operation' % op)
    # operands untouched
    env.check(env.IFF(in_ivs(env, g.intervals, p), ia), 'operand unchanged')
    env.check(env.IFF(in_ivs(env, h.intervals, p), ib), 'operand unchanged')


Q = [dict(na=2, nb=2, op=o) for o in ('or', 'and', 'sub', 'xor')]
Q += [dict(na=3, nb=0, op='not'), dict(na=0, nb=2, op='not')]
Q += [dict(na=2, nb=2, op='or', inf=i) for i in (3, 6, 9, 12)]
Q += [dict(na=2, nb=1, op=o, inf=i) for o in ('and', 'sub', 'xor')
      for i in (1, 2, 4, 8, 6, 12)]
Q += [dict(na=n, nb=0, op='not', inf=i) for n in (1, 2) for i in (1, 2, 3)]
Q += [dict(na=0, nb=1, op=o, inf=i) for o in ('or', 'and', 'sub', 'xor')
      for i in (0, 12)]
Q += [dict(na=1, nb=0, op=o) for o in ('or', 'and', 'sub', 'xor')]

Q += [dict(na=1, nb=1, op=o, many=m) for o, m in (
    ('or', 1), ('or', 2), ('and', 1), ('sub', 1), ('sub', 2), ('xor', 2))]

T = [dict(na=3, nb=2, op=o) for o in ('or', 'and', 'sub', 'xor')]
T += [dict(na=3, nb=3, op=o) for o in ('or', 'and')]
T += [dict(na=2, nb=2, op=o, inf=i) for o in ('or', 'and', 'sub', 'xor')
      for i in range(16)]
T += [dict(na=2, nb=2, op=o, many=m) for o in ('or', 'and', 'sub', 'xor')
      for m in (1, 2)]

GIVEN = [(10, 12), (0, 1), (1, 2), (5, 5), (4, 6), (20, 22), (21, 30),
         (-5, -4), (11, 13), (15, 16), (10, 12), (-1, 0)]
HARNESSES = [
    H('construct', construct, [dict(n=1), dict(n=2), dict(n=3),
                             dict(n=1, given=GIVEN),
                             dict(n=1, given=GIVEN[:7], at=1)],
      [dict(n=4), dict(n=2, given=GIVEN), dict(n=2, given=GIVEN[::-1], at=1)],
      bounds='up to 3 (thorough 4) arbitrary rational intervals lo<=hi, all '
             'orders and ties; one (two) more among up to 12 given ones'),
    H('ops', ops, Q, T,
      bounds='operands of up to 2+2 (thorough 3+3) intervals with arbitrary '
             'rational ends, with and without infinite ends; 9 given ranges '
             'and an arbitrary one (two)'),
]
