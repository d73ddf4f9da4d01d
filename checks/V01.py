"""Segment-segment intersection and point fractions are exact."""
from symq.runner import H
from plycutter.geometry.impl2d import primitive2d as pr
from .common import exact, cross

PROPERTY = 'V01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the two lines are not parallel (documented precondition)']


def pt(env, n):
    return (env.real(n + 'x'), env.real(n + 'y'))


def inter(env, d0=None, d1=None):
    a, c = pt(env, 'a'), pt(env, 'c')
    if d0 is None:
        b = pt(env, 'b')
    else:
        b = (a[0] + d0[0], a[1] + d0[1])
    if d1 is None:
        d = pt(env, 'd')
    else:
        d = (c[0] + d1[0], c[1] + d1[1])
    den = (b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])
    env.assume(den != 0)
    p, t0, t1 = pr.segment_segment_general_intersection((a, b), (c, d))
    env.observe('p', [p, t0, t1])
    for v in (p[0], p[1], t0, t1):
        exact(env, v)
    env.check(env.AND(cross(a, b, p) == 0, cross(c, d, p) == 0),
              'the point lies on both lines')
    env.check(env.AND(p[0] == a[0] + t0 * (b[0] - a[0]),
                      p[1] == a[1] + t0 * (b[1] - a[1])),
              'the first parameter locates the point on the first line')
    env.check(env.AND(p[0] == c[0] + t1 * (d[0] - c[0]),
                      p[1] == c[1] + t1 * (d[1] - c[1])),
              'the second parameter locates the point on the second line')


def fraction(env, dirn=None, free=True):
    """line_segment_point_fraction"""
    a = pt(env, 'a')
    if dirn is None:
        b = pt(env, 'b')
    else:
        k = env.real('k')
        b = (a[0] + k * dirn[0], a[1] + k * dirn[1])
    p = pt(env, 'p')
    f = pr.line_segment_point_fraction((a, b), p)
    env.observe('f', f)
    deg = env.AND(a[0] == b[0], a[1] == b[1])
    if f is None:
        env.check(env.OR(cross(a, b, p) != 0,
                         env.AND(deg, env.OR(a[0] != p[0], a[1] != p[1]))),
                  'None only for points off the line')
    else:
        env.check(env.AND(p[0] == a[0] + f * (b[0] - a[0]),
                          p[1] == a[1] + f * (b[1] - a[1])),
                  'the fraction locates the point on the segment')


def on_line(env):
    """A point built on the segment gets exactly its parameter."""
    a, b = pt(env, 'a'), pt(env, 'b')
    env.assume(env.OR(a[0] != b[0], a[1] != b[1]))
    t = env.real('t')
    p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
    f = pr.line_segment_point_fraction((a, b), p)
    env.check(f is not None, 'points of the line have a fraction')
    env.check(f == t, 'the fraction is the parameter')


HARNESSES = [
    H('inter', inter, [dict()],
      bounds='every two segments on non-parallel lines (8 free '
             'coordinates)'),
    H('fraction', fraction, [dict()] + [dict(dirn=d) for d in
                                        ((1, 0), (0, 1), (1, 1), (-2, 3))],
      bounds='every segment (also degenerate) and every point'),
    H('on_line', on_line, [dict()], bounds='every proper segment, every '
      'parameter'),
]
