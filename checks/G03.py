"""1-D queries agree with the set."""
from symq.runner import H
from plycutter.geometry.geom1d import Geom1D
from .common import (canon_ivs, some_ivs, raw_ivs, in_ivs, check_canonical, INF)

PROPERTY = 'G03'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def locate(env, n, inf=0, many=False):
    A = some_ivs(env, 'a', n, inf, many)
    g = Geom1D([list(x) for x in A])
    p = env.real('p')
    r = g.locate(p)
    env.observe('r', r)
    end = env.OR(*[env.OR(p == a, p == b) for a, b in A])
    ins = in_ivs(env, A, p)
    env.check(r in (-1, 0, 1), 'locate returns -1, 0 or 1')
    env.check(env.IFF(r == 0, end), 'locate is 0 exactly at the edges')
    env.check(env.IFF(r == 1, ins), 'locate is 1 exactly inside')
    env.check(env.IFF(r == -1, env.NOT(env.OR(end, ins))),
              'locate is -1 exactly outside')


def pieces(env, n, inf=0, many=False):
    A = some_ivs(env, 'a', n, inf, many)
    g = Geom1D([list(x) for x in A])
    ps = g.disjoint_pieces()
    env.observe('n', len(ps))
    env.check(len(ps) == n, 'one piece per maximal interval')
    for piece, (a, b) in zip(ps, A):
        env.check(len(piece.intervals) == 1, 'a piece is one interval')
        env.check(env.AND(piece.intervals[0][0] == a,
                          piece.intervals[0][1] == b),
                  'pieces are the maximal intervals, in order')
    env.check(g.is_empty() == (n == 0), 'is_empty iff no measure')
    iv = g.get_intervals()
    env.check(len(iv) == n, 'get_intervals lists the maximal intervals')
    for x, (a, b) in zip(iv, A):
        env.check(env.AND(x[0] == a, x[1] == b),
                  'get_intervals lists the maximal intervals')


def measure(env, n, inf=0, many=False):
    A = some_ivs(env, 'a', n, inf, many)
    g = Geom1D([list(x) for x in A])
    m = g.measure1d()
    unb = n > 0 and inf != 0
    if unb:
        env.check(m == INF, 'measure of an unbounded set is infinite')
    else:
        want = 0
        for a, b in A:
            want = want + (b - a)
        env.check(m == want, 'measure1d is the total length')
    env.check(bool(g.is_bounded()) == (not unb),
              'is_bounded iff no infinite end')


def overlap_measure(env, n):
    """measure of overlapping input = measure of the union."""
    A = raw_ivs(env, 'a', n)
    g = Geom1D([list(x) for x in A])
    m = g.measure1d()
    env.check(m >= 0, 'measure is non-negative')
    tot = 0
    for a, b in A:
        tot = tot + (b - a)
        env.check(m >= b - a, 'measure covers each piece')
    env.check(m <= tot, 'measure counts no point twice')
    if n == 2:
        (a, b), (c, d) = A
        lo = a if a > c else c
        hi = b if b < d else d
        ov = hi - lo if hi > lo else 0
        env.check(m == tot - ov, 'inclusion-exclusion for lengths')
    empty = env.AND(*[a == b for a, b in A])
    env.check(env.IFF(bool(g.is_empty()), empty),
              'is_empty iff no interval has length')


def filt(env, n, inf=0, many=False):
    A = some_ivs(env, 'a', n, inf, many)
    keep = [env.boolean('k%d' % i) for i in range(n)]
    g = Geom1D([list(x) for x in A])
    seen = []

    def f(a, b):
        i = len(seen)
        seen.append((a, b))
        return keep[i]
    r = g.filter(f)
    env.check(len(seen) == n, 'filter asks once per maximal interval')
    for (a, b), (c, d) in zip(seen, A):
        env.check(env.AND(a == c, b == d), 'filter sees the intervals')
    want = [x for x, k in zip(A, keep) if k]
    env.check(len(r.intervals) == len(want), 'filter keeps what passes')
    for (a, b), (c, d) in zip(r.intervals, want):
        env.check(env.AND(a == c, b == d), 'filter keeps what passes')


def consts(env):
    p = env.real('p')
    env.check(Geom1D.full().locate(p) == 1, 'full contains every point')
    env.check(Geom1D.empty().locate(p) == -1, 'empty contains no point')
    env.check(Geom1D.empty().is_empty(), 'empty is empty')
    env.check(not Geom1D.full().is_empty(), 'full is not empty')
    env.check(not Geom1D.full().is_bounded(), 'full is unbounded')
    env.check(Geom1D.empty().is_bounded(), 'empty is bounded')
    env.check(Geom1D.empty().measure1d() == 0, 'empty has no length')


NI = [dict(n=n, inf=i) for n in (1, 2, 3) for i in (0, 1, 2, 3)] + \
    [dict(n=0), dict(n=9, many=True)]
NT = [dict(n=n, inf=i) for n in (4, 5, 6) for i in (0, 1, 2, 3)]
B = 'up to 3 (thorough 6) intervals, arbitrary rational or infinite ends, ' \
    '9 given ranges, ' \
    'arbitrary query point'
HARNESSES = [
    H('locate', locate, NI, NT, bounds=B),
    H('pieces', pieces, NI, NT, bounds=B),
    H('measure', measure, NI, NT, bounds=B),
    H('overlap_measure', overlap_measure, [dict(n=1), dict(n=2), dict(n=3)],
      [], bounds='up to 3 arbitrary overlapping intervals'),
    H('filter', filt, [dict(n=3), dict(n=2, inf=3), dict(n=0),
                      dict(n=9, many=True)],
      [dict(n=5, inf=i) for i in (0, 1, 2, 3)],
      bounds='up to 3 (thorough 5) intervals, every filter outcome'),
    H('consts', consts, [dict()], bounds='every query point'),
]
