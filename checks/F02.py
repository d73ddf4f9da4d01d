"""Angle -> vector inverts vector -> angle."""
from symq.runner import H
from plycutter.geometry.impl2d import frangle2d
from .common import exact

PROPERTY = 'F02'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def inv(env, lo=0, hi=8):
    f = env.real('f', lo, hi)
    v = frangle2d.frangle_unit_square_vector(f)
    env.observe('v', v)
    env.check(env.AND(v[0] <= 1, v[0] >= -1, v[1] <= 1, v[1] >= -1,
                      env.OR(v[0] == 1, v[0] == -1, v[1] == 1, v[1] == -1)),
              'vector lies on the unit square')
    g = frangle2d.vector_frangle(v)
    k = (f - g) / 8
    env.check(env.OR(*[k == i for i in range(-4, 5)]),
              'the vector of an angle has that angle (modulo full turns)')


def fwd(env):
    v = (env.real('x'), env.real('y'))
    env.assume(env.OR(v[0] != 0, v[1] != 0))
    w = frangle2d.frangle_unit_square_vector(frangle2d.vector_frangle(v))
    for c in w:
        exact(env, c)
    env.check(w[0] * v[1] - w[1] * v[0] == 0,
              'the unit vector is parallel to the original')
    env.check(w[0] * v[0] + w[1] * v[1] > 0,
              'the unit vector points the same way as the original')


HARNESSES = [
    H('inv', inv, [dict(lo=0, hi=8), dict(lo=-8, hi=0), dict(lo=8, hi=16)],
      [dict(lo=-24, hi=32)],
      bounds='angles in [-8, 16] (thorough [-24, 32])'),
    H('fwd', fwd, [dict()], bounds='every non-zero vector'),
]
