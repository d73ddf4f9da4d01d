"""The 1-D projection of a shape is its extent along the direction."""
from symq.runner import H
import numpy as np
from .common import check_canonical, in_ivs, not_end
from .shapes import geom, qrings, rings_of, S
from plycutter.geometry.geom2d import Geom2D

PROPERTY = 'D07'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def judge(env, g, outers, vec, offs):
    """outers: the outer rings of the pieces."""
    r = g.project_to_1d(np.array(vec, object), offs)
    check_canonical(env, r)
    env.observe('n', len(r.intervals))
    x = env.real('x')
    want, ends = [], []
    for ring in outers:
        d = [vec[0] * v[0] + vec[1] * v[1] + offs for v in ring]
        want.append(env.AND(env.OR(*[a < x for a in d]),
                            env.OR(*[a > x for a in d])))
        ends += [a == x for a in d]
    got = env.OR(*[env.AND(a < x, x < b) for a, b in r.intervals])
    env.check(env.IMPLIES(env.NOT(env.OR(*ends)), env.IFF(got, want_or(
        env, want))), 'a coordinate is covered iff some point of the shape '
        'projects to it')
    for a, b in r.intervals:
        env.check(env.AND(
            env.OR(*[a == vec[0] * v[0] + vec[1] * v[1] + offs
                     for ring in outers for v in ring]),
            env.OR(*[b == vec[0] * v[0] + vec[1] * v[1] + offs
                     for ring in outers for v in ring])),
            'the ends are those of the shape')


    o2 = offs + env.real('shift')
    moved = g.project_to_1d(np.array(vec, object), o2)
    env.check(len(moved.intervals) == len(r.intervals) and env.AND(*[
        env.AND(a + o2 == c + offs, b + o2 == d + offs) for (c, d), (a, b)
        in zip(moved.intervals, r.intervals)]),
        'another origin moves the coordinates along')


def want_or(env, w):
    return env.OR(*w)


def outers_of(env, s, off=(0, 0)):
    Q = env.Q
    return [[(Q(x) + off[0], Q(y) + off[1]) for x, y in o] for o, h in S[s]]


def direction(env, s, free=True, o=None, d=None):
    """Any direction and origin."""
    if free:
        vec = (env.real('u', -10 ** 6, 10 ** 6), env.real('v', -10 ** 6, 10 ** 6))
        env.assume(env.OR(vec[0] != 0, vec[1] != 0))
    else:
        t = env.real('t', -10, 10)
        vec = (o[0] + d[0] * t, o[1] + d[1] * t)
    judge(env, geom(env, s), outers_of(env, s), vec, env.real('offs'))


def place(env, s, vec, extra=None):
    """A fixed direction; the shape is anywhere and a second piece slides."""
    Q = env.Q
    off = (env.real('x0', -10 ** 6, 10 ** 6), env.real('y0', -10 ** 6, 10 ** 6))
    g = geom(env, s, off)
    outers = outers_of(env, s, off)
    if extra:
        off2 = (env.real('x1', -10 ** 6, 10 ** 6), env.real('y1', -10 ** 6, 10 ** 6))
        g = Geom2D(list(g.spwhs) + list(geom(env, extra, off2).spwhs)) \
            if hasattr(g, 'spwhs') else g | geom(env, extra, off2)
        outers = outers + outers_of(env, extra, off2)
    judge(env, g, outers, (Q(vec[0]), Q(vec[1])), Q(3))


def none(env):
    r = Geom2D.empty().project_to_1d(np.array([env.real('u'), env.real('v')],
                                              object), env.real('o'))
    env.check(r.is_empty(), 'nothing projects to nothing')


HARNESSES = [
    H('direction', direction,
      [dict(s=s) for s in ('sq', 'tri', 'frame', 'L', 'colin')] +
      [dict(s='two', free=False, o=(1, 0), d=(0, 1)),
       dict(s='checker', free=False, o=(2, 1), d=(1, -1)),
       dict(s='two'), dict(s='nest', free=False, o=(0, 1), d=(1, 0)),
       dict(s='many', free=False, o=(1, 0), d=(0, 1))],
      [dict(s=s) for s in ('skew', 'diamond', 'U', 'checker', 'dhole',
                           'comb')],
      bounds='concrete shapes, every direction (|components| <= 1e6) and '
             'offset, every coordinate'),
    H('place', place,
      [dict(s='sq', vec=(1, 0)), dict(s='L', vec=(0, -2)),
       dict(s='tri', vec=(3, 4), extra='sq2'),
       dict(s='two', vec=(-1, 0), extra='sq2')],
      [dict(s='two', vec=(2, -1), extra='two'),
       dict(s='frame', vec=(0, 1), extra='tri')],
      bounds='fixed directions, one or two pieces at every position (|coordinates| <= 1e6)'),
    H('none', none, [dict()], bounds='the empty shape'),
]
