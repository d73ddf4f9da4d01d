"""Growing a shape is the Minkowski sum with an octagon of that radius."""
from symq.runner import H
from .common import in_rings, on_rings, exact
from .shapes import S, geom, qrings, out_rings, observe_geom, rings_of
from .minkowski import convex_parts, inside_sum, KERNEL_NOTE

PROPERTY = 'D05'
LEVEL = 'model_checking'
ASSUMPTIONS = [KERNEL_NOTE]


def grow(env, shape, lo, hi, off=(0, 0)):
    Q = env.Q
    r = env.real('r', lo, hi)
    off = (Q(*off[0]) if isinstance(off[0], list) else Q(off[0]),
           Q(*off[1]) if isinstance(off[1], list) else Q(off[1]))
    A = geom(env, shape, off)
    g = A.buffer(r)
    observe_geom(env, 'g', g)
    rings = out_rings(g)
    for ring in rings:
        for v in ring:
            exact(env, v[0])
            exact(env, v[1])
    p = (env.real('px'), env.real('py'))
    got = in_rings(env, rings, p)
    off_edge = env.NOT(on_rings(env, rings, p))
    parts = convex_parts(rings_of(shape))
    q = (p[0] - off[0], p[1] - off[1])
    near = env.OR(*[inside_sum(env, c, q, r, -1) for c in parts])
    far = env.OR(*[inside_sum(env, c, q, r, 1) for c in parts])
    env.check(env.IMPLIES(env.AND(off_edge, near), got),
              'every point within the radius of the shape is in the result')
    env.check(env.IMPLIES(env.AND(off_edge, got), far),
              'no point beyond the radius of the shape is in the result')


def zero(env, shape):
    """Radius zero changes nothing."""
    off = (env.real('x', -10 ** 6, 10 ** 6), env.real('y', -10 ** 6, 10 ** 6))
    g = geom(env, shape, off)
    p = (env.real('px'), env.real('py'))
    rs = qrings(env, shape, off)
    for r in (0, env.Q(0)):
        h = g.buffer(r)
        env.check(env.IMPLIES(env.NOT(on_rings(env, rs, p)),
                              env.IFF(in_rings(env, out_rings(h), p),
                                      in_rings(env, rs, p))),
                  'radius zero changes nothing')


def g(shape, lo, hi, off=(0, 0)):
    return dict(shape=shape, lo=lo, hi=hi, off=off)


HARNESSES = [
    H('grow', grow,
      [g('sq', [1, 10 ** 12], 10 ** 9), g('tri', [1, 100], 3), g('L', [1, 100], [3, 2]),
       g('two', [7, 8], [9, 8]), g('frame', [1, 100], 2), g('U', [9, 10], [11, 10]),
       g('dhole', [1, 2], 1), g('colin', [1, 100], 1),
       g('island', [9, 10], [11, 10])],
      [g('two', [1, 4], 3), g('U', [1, 4], 2), g('L', [1, 100], 3),
       g('dhole', [1, 100], 3), g('colin', [1, 100], 2),
       g('sq', [1, 1000000], 1000), g('skew', [1, 100], 6),
       g('diamond', [1, 100], 6), g('island', [1, 100], 2),
       g('checker', [1, 100], 4), g('comb', [1, 100], 1),
       g('hole2', [1, 100], 2), g('trihole', [1, 100], 2),
       g('nest', [1, 100], 1), g('U', [1, 100], 8),
       g('L', [1, 100], 8), g('frame', [1, 100], 5)],
      bounds='concrete shapes (convex, reflex, with holes, several pieces), '
             'every radius in the range, every query point', path_s=120),
    H('zero', zero, [dict(shape='frame')], [dict(shape='nest')],
      bounds='radius 0 at every position'),
]
