"""Shrinking a shape removes exactly what is near its outside."""
from symq.runner import H
from .common import in_rings, on_rings, exact
from .shapes import S, geom, qrings, out_rings, observe_geom, rings_of
from .minkowski import convex_parts, inside_sum, KERNEL_NOTE

PROPERTY = 'D06'
LEVEL = 'model_checking'
ASSUMPTIONS = [KERNEL_NOTE]
BIG = 100000


def shrink(env, shape, lo, hi, off=(0, 0)):
    Q = env.Q
    r = env.real('r', lo, hi)
    off = (Q(off[0]), Q(off[1]))
    A = geom(env, shape, off)
    g = A.buffer(-r)
    observe_geom(env, 'g', g)
    rings = out_rings(g)
    for ring in rings:
        for v in ring:
            exact(env, v[0])
            exact(env, v[1])
    p = (env.real('px'), env.real('py'))
    got = in_rings(env, rings, p)
    off_edge = env.NOT(on_rings(env, rings, p))
    # the outside, within a box nobody can look beyond
    rs = rings_of(shape)
    box = [(-BIG, -BIG), (BIG, -BIG), (BIG, BIG), (-BIG, BIG)]
    outside = convex_parts(rs + [box])
    q = (p[0] - off[0], p[1] - off[1])
    here = env.AND(q[0] > -50, q[0] < 50, q[1] > -50, q[1] < 50)
    surely = env.NOT(env.OR(*[inside_sum(env, c, q, r, 1)
                              for c in outside]))
    maybe = env.NOT(env.OR(*[inside_sum(env, c, q, r, -1)
                             for c in outside]))
    env.check(env.IMPLIES(env.AND(off_edge, here, surely), got),
              'a point farther than the radius from the outside is kept')
    env.check(env.IMPLIES(env.AND(off_edge, here, got), maybe),
              'a point within the radius of the outside is removed')
    env.check(env.IMPLIES(env.NOT(here), env.NOT(got)),
              'nothing far away appears')


def roundtrip(env, shape, lo, hi):
    """Shrinking what was grown by the same radius gives at least the
    original; growing what was shrunk gives at most the original."""
    r = env.real('r', lo, hi)
    A = geom(env, shape)
    rs = qrings(env, shape)
    p = (env.real('px'), env.real('py'))
    i = in_rings(env, rs, p)
    off = env.NOT(on_rings(env, rs, p))
    c = out_rings(A.buffer(r).buffer(-r))
    env.check(env.IMPLIES(env.AND(off, env.NOT(on_rings(env, c, p)), i),
                          in_rings(env, c, p)),
              'growing then shrinking loses nothing')
    o = out_rings(A.buffer(-r).buffer(r))
    env.check(env.IMPLIES(env.AND(off, env.NOT(on_rings(env, o, p)),
                                  in_rings(env, o, p)), i),
              'shrinking then growing adds nothing')


def g(shape, lo, hi, off=(0, 0)):
    return dict(shape=shape, lo=lo, hi=hi, off=off)


HARNESSES = [
    H('shrink', shrink,
      [g('sq', [1, 10 ** 12], 10 ** 9), g('tri', [4, 5], 1),
       g('L', [3, 4], [9, 8]), g('frame', [9, 10], [11, 10]),
       g('U', [9, 10], [11, 10]), g('checker', [3, 4], [5, 4]),
       g('dhole', [1, 2], [9, 16]),
       g('island', [1, 2], [11, 20])],
      [g('sq', [1, 1000000], 1000), g('L', [1, 100], 3),
       g('tri', [1, 100], 2), g('frame', [1, 100], 2),
       g('U', [1, 100], 3), g('checker', [1, 100], 2),
       g('skew', [1, 100], 3),
       g('diamond', [1, 100], 3), g('comb', [1, 100], 1),
       g('island', [1, 100], 2), g('hole2', [1, 100], 2),
       g('trihole', [1, 100], 2), g('dhole', [1, 100], 3),
       g('nest', [1, 100], 1), g('colin', [1, 100], 3),
       g('two', [1, 100], 2)],
      bounds='concrete shapes (convex, reflex, with holes, several pieces), '
             'every radius in the range, every query point', path_s=120),
    H('roundtrip', roundtrip, [],
      [g2 for g2 in (dict(shape='sq', lo=[1, 10], hi=1),
                     dict(shape='L', lo=[1, 2], hi=1))],
      bounds='two shapes, every radius in the range', path_s=300),
]
