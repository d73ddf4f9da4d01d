"""Rational angles sort like real angles."""
from symq.runner import H
from plycutter.geometry.impl2d import frangle2d
from .common import exact

PROPERTY = 'F01'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def vec(env, n, dirn=None):
    if dirn is not None:
        k = env.real(n + 'k', 0, strict=True)
        return (k * dirn[0], k * dirn[1])
    v = (env.real(n + 'x'), env.real(n + 'y'))
    env.assume(env.OR(v[0] != 0, v[1] != 0))
    return v


def half(env, v):
    """0 for the clockwise half turn starting at +x, 1 for the other."""
    return env.OR(v[1] > 0, env.AND(v[1] == 0, v[0] < 0))


def order(env, d=None, swap=False):
    u = vec(env, 'u')
    v = vec(env, 'v', d)
    if swap:
        u, v = v, u
    fu = frangle2d.vector_frangle(u)
    fv = frangle2d.vector_frangle(v)
    env.observe('f', [fu, fv])
    exact(env, fu)
    env.check(env.AND(fu >= 0, fu < 8), 'angle in [0, full circle)')
    cr = u[0] * v[1] - u[1] * v[0]
    hu, hv = half(env, u), half(env, v)
    want = env.OR(env.AND(env.NOT(hu), hv),
                  env.AND(env.IFF(hu, hv), cr < 0))
    env.check(env.IFF(fu < fv, want),
              'angles order vectors clockwise')
    same = env.AND(cr == 0, u[0] * v[0] + u[1] * v[1] > 0)
    env.check(env.IFF(fu == fv, same),
              'equal angles iff same direction')


def turn(env):
    u = vec(env, 'u')
    f = frangle2d.vector_frangle(u)
    g = frangle2d.vector_frangle((-u[0], -u[1]))
    q = frangle2d.vector_frangle((u[1], -u[0]))   # a clockwise quarter turn
    env.check(env.OR(g - f == frangle2d.FRANGLE_180,
                     g - f == -frangle2d.FRANGLE_180),
              'opposite vectors differ by the half-circle constant')
    env.check(env.OR(q - f == frangle2d.FRANGLE_90,
                     q - f == frangle2d.FRANGLE_90 - frangle2d.MAX_FRANGLE),
              'a clockwise quarter turn adds the 90-degree constant')


def scale(env):
    u = vec(env, 'u')
    k = env.real('k', 0, strict=True)
    f = frangle2d.vector_frangle(u)
    g = frangle2d.vector_frangle((k * u[0], k * u[1]))
    env.check(f == g, 'angle does not depend on length')


D = [(1, 0), (0, -1), (-1, 0), (0, 1), (1, -1), (-1, -1), (-1, 1), (1, 1),
     (2, 1), (-1, 3)]
HARNESSES = [
    H('order', order, [dict(d=d) for d in D] +
      [dict(d=d, swap=True) for d in D[:4]],
      [],
      bounds='every non-zero vector against any multiple of 10 directions'),
    H('order2', order, [dict(), dict(swap=True)], [],
      bounds='every two non-zero vectors'),
    H('turn', turn, [dict()], bounds='every non-zero vector'),
    H('scale', scale, [dict()], bounds='every non-zero vector and scale'),
]
