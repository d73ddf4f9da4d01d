"""Where two plates meet there is one joint, seen alike from both."""
from symq.runner import H
from symq.arrays import arr, linalg
import pyrsistent as pyr
from plycutter import create_sheetplex as cs
from plycutter.sheetplex import SheetPlex, Sheet

PROPERTY = 'C02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['floats are modelled as exact reals; replays compare with a '
               'slack of 1e-6',
               'numpy.linalg.lstsq is replaced by its contract (the solution '
               'of least norm) in symbolic runs']


def rot(env, q):
    """The rotation matrix of a quaternion with rational parts."""
    w, x, y, z = [env.Q(v) if isinstance(v, int) else v for v in q]
    n = w * w + x * x + y * y + z * z
    return [[(w * w + x * x - y * y - z * z) / n, 2 * (x * y - w * z) / n,
             2 * (x * z + w * y) / n],
            [2 * (x * y + w * z) / n, (w * w - x * x + y * y - z * z) / n,
             2 * (y * z - w * x) / n],
            [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n,
             (w * w - x * x - y * y + z * z) / n]]


def dot(a, b):
    return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])


def mk(env, id, R, off, T, flip=False):
    """The plate between n.p = off - T and n.p = off; n: third column."""
    n = [r[2] for r in R]
    if flip:
        # the drawing plane is turned over
        R = [[r[0], -r[1], -r[2]] for r in R]
    back = [[R[j][i] for j in range(3)] + [env.Q(0)] for i in range(3)] + \
        [[env.Q(0)] * 3 + [env.Q(1)]]
    fwd = [[back[j][i] for j in range(4)] for i in range(4)]
    s = Sheet(id=id, sides=arr(env, [n + [off], [-v for v in n] +
                                     [-(off - T)]]),
              slice_rotation=arr(env, fwd),
              inverse_slice_rotation=arr(env, back))
    return s, (n, off, T, R)


QS = [(1, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 2, 3, 4), (2, -1, 0, 1),
      (3, 1, 1, -2), (1, 0, 0, 2), (0, 1, 0, 0)]


def close(env, a, b):
    e = env.Q(1, 10 ** 6)
    return env.AND(a - b < e, b - a < e)


def val(env, x):
    return x if env.symbolic else env.Q(float(x))


def meet(env, qs, flips=(), sym=('o', 'T'), tilt=None):
    """Plates turned in the given ways, at arbitrary places."""
    T = env.real('T', 1, 12) if 'T' in sym else env.Q(6)
    t = env.real('t', *tilt) if tilt else None
    ss, geo = [], []
    for i, q in enumerate(qs):
        off = env.real('o%d' % i, -100, 100) if 'o' in sym else \
            env.Q(10 + 7 * i)
        q = [t if v == 't' else v for v in q]
        s, g = mk(env, 's%d' % i, rot(env, q), off, T, i in flips)
        ss.append(s)
        geo.append(g)
    sp = SheetPlex(sheets=pyr.pmap({s.id: s for s in ss}),
                   intersections=pyr.m())
    with linalg(env):
        r = cs.create_intersections(sp)
    env.check(set(r.sheets.keys()) == {s.id for s in ss},
              'the plates are kept')
    want = {}
    for i in range(len(qs)):
        for j in range(i):
            a, b = geo[i][0], geo[j][0]
            c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                 a[0] * b[1] - a[1] * b[0]]
            if bool(dot(c, c) > 0):
                want['s%d,s%d' % (j, i)] = c
    env.observe('n', len(r.intersections))
    env.check(set(r.intersections.keys()) == set(want),
              'two plates have one joint if they are not parallel')
    X = [env.real('X%d' % k, -200, 200) for k in range(3)]
    # rounding of the replay
    sl = env.Q(0) if env.symbolic else env.Q(1, 10 ** 6)
    for k, c in want.items():
        inter = r.intersections[k]
        ids = k.split(',')
        env.check(len(inter.sides) == 2 and
                  sorted(x.sheet for x in inter.sides) == ids,
                  'a joint has a side on each of its plates')
        coord, inside = [], []
        for idx, side in enumerate(inter.sides):
            m = int(side.sheet[1:])
            n, off, T_, R = geo[m]
            env.check(side.id == (k, side.sheet) and side.intersection == k
                      and side.idx == idx and
                      side.opposite(r) is inter.sides[1 - idx],
                      'a side knows its place')
            d = [val(env, v) for v in side.direction]
            nn = [val(env, v) for v in side.normal]
            lo, hi = val(env, side.min_normal_offset), \
                val(env, side.max_normal_offset)
            env.check(close(env, d[0] * d[0] + d[1] * d[1], 1),
                      'the direction has unit length')
            env.check(env.AND(close(env, nn[0] * d[0] + nn[1] * d[1], 0),
                              close(env, dot(nn, nn), 1)),
                      'the normal is at right angles to the direction')
            # the direction is along the line where the plates meet
            d3 = [R[i][0] * d[0] + R[i][1] * d[1] for i in range(3)]
            env.check(env.AND(*[close(env, dot(d3, geo[int(s[1:])][0]), 0)
                                for s in ids]),
                      'the joint runs along the line where the plates meet')
            p = [dot([R[i][0] for i in range(3)], X),
                 dot([R[i][1] for i in range(3)], X)]
            coord.append(dot(d, p) - val(env, side.origin_offset))
            h = dot(nn, p)
            inside.append(env.AND(lo - sl <= h, h <= hi + sl))
            # the four edges of the joint
            hs = []
            o = int([s for s in ids if s != side.sheet][0][1:])
            on, ooff, oT, _ = geo[o]
            g = dot(n, on)
            det = 1 - g * g
            for e1 in (off, off - T_):
                for e2 in (ooff, ooff - oT):
                    u, w = (e1 - g * e2) / det, (e2 - g * e1) / det
                    pt = [u * n[i] + w * on[i] for i in range(3)]
                    hs.append(dot(nn, [
                        dot([R[i][0] for i in range(3)], pt),
                        dot([R[i][1] for i in range(3)], pt)]))
            env.check(env.AND(env.OR(*[close(env, lo, v) for v in hs]),
                              env.OR(*[close(env, hi, v) for v in hs])),
                      'the joint is no wider than where the plates meet')
            env.check(env.AND(*[env.AND(lo - sl <= v, v <= hi + sl)
                                for v in hs]),
                      'the joint covers all of where the plates meet')
        # any point within both plates
        both = env.AND(*[env.AND(
            geo[int(s[1:])][1] - geo[int(s[1:])][2] <= dot(
                geo[int(s[1:])][0], X),
            dot(geo[int(s[1:])][0], X) <= geo[int(s[1:])][1]) for s in ids])
        env.check(env.IMPLIES(both, env.AND(*inside)),
                  'a point of both plates lies in the joint of both')
        env.check(close(env, coord[0], coord[1]),
                  'both plates have the same coordinate along the joint')


def c(*q, **k):
    return dict(qs=[QS[i] for i in q], **k)


HARNESSES = [
    H('meet', meet,
      [c(0, 1), c(1, 2), c(0, 3), c(3, 4, flips=[1]), c(5, 3), c(0, 6),
       c(0, 7), c(0, 1, 2, sym=['T']), c(0, 1, 2, 6, sym=['o']),
       dict(qs=[QS[0], (1, 't', 0, 0)], tilt=[[1, 10], 3], sym=[])],
      [c(i, j) for i in range(len(QS)) for j in range(i)] +
      [dict(qs=[QS[3], QS[4], QS[5]]),
       dict(qs=[QS[0], (1, 0, 't', 0)], tilt=[[1, 10], 3], sym=['T']),
       dict(qs=[QS[0], (1, 't', 0, 0)], tilt=[-3, [-1, 10]], sym=[]),
       dict(qs=[QS[0], (1, 't', 0, 0)], tilt=[[1, 1000], 1], sym=['T'])],
      bounds='two to four plates turned in eight ways (or by any angle '
             'about an axis), every position and thickness, every point of '
             'space', path_s=120),
]
