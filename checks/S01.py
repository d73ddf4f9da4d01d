"""The sweep finds every intersection of every set of segments."""
from symq.runner import H
from plycutter.geometry.impl2d import scan2d
from .common import exact, cross, on_edge

PROPERTY = 'S01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['segments are pairwise different and not degenerate '
               '(documented precondition; asserted by the code)']


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1])


def judge(env, segs):
    n = len(segs)
    out = list(scan2d.all_segment_intersections(segs))
    rep = []
    for pt, ss in out:
        for v in pt:
            exact(env, v)
        ids = []
        for s in ss:
            k = [i for i in range(n) if s is segs[i]]
            if not k:
                k = [i for i in range(n) if s == segs[i]]
            ids.append(k[0])
        env.check(len(set(ids)) == len(ids) and len(ids) >= 2,
                  'a reported point names two or more different segments')
        rep.append((pt, ids))
    env.observe('n', len(rep))
    # sound: the point is on each of them; and exactly the segments through
    # the point are named
    for pt, ids in rep:
        for i in range(n):
            on = on_edge(env, segs[i][0], segs[i][1], pt)
            env.check(env.IFF(i in ids, on), 'a reported point names exactly '
                      'the segments through it')
    # no point twice
    for i in range(len(rep)):
        for j in range(i):
            p, q = rep[i][0], rep[j][0]
            env.check(env.OR(p[0] != q[0], p[1] != q[1]),
                      'no point is reported twice')

    def reported(p, i, j):
        return env.OR(*[env.AND(q[0] == p[0], q[1] == p[1])
                        for q, ids in rep if i in ids and j in ids])
    # complete
    for i in range(n):
        for j in range(i):
            a, b = segs[i], segs[j]
            da, db = sub(a[1], a[0]), sub(b[1], b[0])
            den = da[0] * db[1] - da[1] * db[0]
            if den != 0:
                w = sub(b[0], a[0])
                t = (w[0] * db[1] - w[1] * db[0]) / den
                u = (w[0] * da[1] - w[1] * da[0]) / den
                p = (a[0][0] + t * da[0], a[0][1] + t * da[1])
                env.check(env.IMPLIES(
                    env.AND(t >= 0, t <= 1, u >= 0, u <= 1),
                    reported(p, i, j)),
                    'every intersection point of two segments is reported')
            else:
                for s, o in ((a, b), (b, a)):
                    for p in s:
                        env.check(env.IMPLIES(
                            on_edge(env, o[0], o[1], p), reported(p, i, j)),
                            'the ends of a collinear overlap are reported')


def moving(env, fixed, moves):
    """fixed segments, plus segments of fixed direction placed anywhere in
    the range; moves: [(dir, mode, lo, hi)]"""
    Q = env.Q
    segs = [((Q(a), Q(b)), (Q(c), Q(d))) for a, b, c, d in fixed]
    for i, (d, o, mv, lo, hi) in enumerate(moves):
        if mv == 'free':
            x, y = env.real('x%d' % i, lo, hi), env.real('y%d' % i, lo, hi)
        else:
            t = env.real('t%d' % i, lo, hi)
            x, y = Q(o[0]) + t * mv[0], Q(o[1]) + t * mv[1]
        segs.append(((x, y), (x + Q(d[0]), y + Q(d[1]))))
    for i in range(len(segs)):
        for j in range(i):
            for k in (1, -1):
                a, b = segs[i], segs[j][::k]
                env.assume(env.OR(a[0][0] != b[0][0], a[0][1] != b[0][1],
                                  a[1][0] != b[1][0], a[1][1] != b[1][1]))
    judge(env, segs)


def pair(env, da):
    """One segment of a fixed direction at the origin, any other."""
    Q = env.Q
    a = ((Q(0), Q(0)), (Q(da[0]), Q(da[1])))
    b = ((env.real('x0'), env.real('y0')), (env.real('x1'), env.real('y1')))
    env.assume(env.OR(b[0][0] != b[1][0], b[0][1] != b[1][1]))
    for k in (1, -1):
        c = b[::k]
        env.assume(env.OR(a[0][0] != c[0][0], a[0][1] != c[0][1],
                          a[1][0] != c[1][0], a[1][1] != c[1][1]))
    judge(env, [a, b])


# a vertical fan, a T, a grid, horizontals (forces the shear) ...
FAN = [(0, 0, 4, 4), (0, 4, 4, 0), (2, 0, 2, 4)]
GRID = [(0, 0, 0, 4), (3, 0, 3, 4), (-1, 1, 5, 1), (-1, 3, 5, 3)]
COL = [(0, 0, 4, 0), (2, 0, 6, 0), (6, 0, 8, 0)]
VCOL = [(0, 0, 0, 4), (0, 2, 0, 6), (1, 1, 1, 3)]
STAR = [(-2, 0, 2, 0), (0, -2, 0, 2), (-2, -2, 2, 2), (-2, 2, 2, -2)]
ZIG = [(0, 0, 1, 3), (1, 3, 2, 0), (2, 0, 3, 3), (3, 3, 4, 0)]


def mv(d, o, m, lo, hi):
    return (d, o, m, lo, hi)


QUICK = [
    dict(fixed=FAN, moves=[mv((0, 4), (-1, 0), (1, 0), 0, 6)]),
    dict(fixed=FAN, moves=[mv((4, 0), (0, -1), (0, 1), 0, 6)]),
    dict(fixed=FAN, moves=[mv((3, 1), None, 'free', -4, 5)]),
    dict(fixed=GRID, moves=[mv((2, 2), (-2, 0), (1, 0), 0, 6)]),
    dict(fixed=GRID, moves=[mv((3, 0), (-4, 1), (1, 0), 0, 10)]),
    dict(fixed=COL, moves=[mv((3, 0), (-4, 0), (1, 0), 0, 14)]),
    dict(fixed=COL, moves=[mv((0, 2), (-1, -1), (1, 0), 0, 10)]),
    dict(fixed=VCOL, moves=[mv((0, 3), (0, -4), (0, 1), 0, 12)]),
    dict(fixed=VCOL, moves=[mv((2, 0), (-1, -1), (0, 1), 0, 8)]),
    dict(fixed=STAR, moves=[mv((1, 3), (-3, -2), (1, 0), 0, 6)]),
    dict(fixed=STAR, moves=[mv((2, 2), (-5, -5), (1, 1), 0, 10)]),
    dict(fixed=ZIG, moves=[mv((5, 0), (-1, -1), (0, 1), 0, 5)]),
    dict(fixed=ZIG, moves=[mv((4, 1), (0, -2), (0, 1), 0, 6)]),
    dict(fixed=[(0, 0, 4, 0)], moves=[mv((0, 3), None, 'free', -4, 5),
                                      mv((2, 0), (-3, 0), (1, 0), 0, 8)]),
    dict(fixed=[(0, 0, 0, 4)], moves=[mv((1, 2), (-2, -1), (1, 0), 0, 4),
                                      mv((1, -2), (-2, 4), (1, 0), 0, 4)]),
]
TH = [
    dict(fixed=[(0, 0, 4, 0)], moves=[mv((0, 3), None, 'free', -4, 5),
                                      mv((2, 2), None, 'free', -4, 5)]),
    dict(fixed=[(0, 0, 4, 4)], moves=[mv((-1, 3), None, 'free', -4, 5),
                                      mv((2, 2), None, 'free', -4, 5)]),
    dict(fixed=GRID, moves=[mv((2, 2), None, 'free', -3, 6)]),
    dict(fixed=STAR, moves=[mv((1, 3), None, 'free', -4, 4)]),
    dict(fixed=ZIG, moves=[mv((4, 1), None, 'free', -5, 5)]),
    dict(fixed=VCOL, moves=[mv((0, 3), None, 'free', -4, 7)]),
    dict(fixed=COL, moves=[mv((3, 0), None, 'free', -4, 9)]),
]
HARNESSES = [
    H('moving', moving, QUICK, TH,
      bounds='3-4 fixed segments (fans, grids, collinear chains, stars) plus '
             '1-2 segments of fixed direction sliding along a line or placed '
             'anywhere in 2-D'),
    H('pair', pair, [dict(da=(4, 0)), dict(da=(0, 3)), dict(da=(2, 3))],
      [dict(da=(-1, 4)), dict(da=(3, -1))],
      bounds='a fixed segment and an arbitrary second one',
      nl_timeout_ms=20000),
]
