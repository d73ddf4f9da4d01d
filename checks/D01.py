"""Pairwise 2-D set operations are exact pointwise."""
from symq.runner import H
from .common import in_rings, on_rings
from .shapes import geom, qrings, out_rings, observe_geom

PROPERTY = 'D01'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def setop(env, a, b, op, d=None, o=(0, 0), lo=-12, hi=12, ylo=None,
          yhi=None, grow=False):
    k = 1
    if grow:
        k, off = env.real('size', lo, hi), o
    elif d is not None:
        t = env.real('t', lo, hi)
        off = (o[0] + d[0] * t, o[1] + d[1] * t)
    else:
        off = (env.real('tx', lo, hi),
               env.real('ty', lo if ylo is None else ylo,
                        hi if yhi is None else yhi))
    A, B = geom(env, a), geom(env, b, off, k)
    ra, rb = qrings(env, a), qrings(env, b, off, k)
    if op == 'or':
        r = A | B
    elif op == 'and':
        r = A & B
    elif op == 'sub':
        r = A - B
    elif op == 'rsub':
        r = B - A
    observe_geom(env, 'r', r)
    p = (env.real('px'), env.real('py'))
    ia, ib = in_rings(env, ra, p), in_rings(env, rb, p)
    want = {'or': lambda: env.OR(ia, ib),
            'and': lambda: env.AND(ia, ib),
            'sub': lambda: env.AND(ia, env.NOT(ib)),
            'rsub': lambda: env.AND(ib, env.NOT(ia))}[op]()
    got = in_rings(env, out_rings(r), p)
    off_edges = env.NOT(on_rings(env, ra + rb, p))
    env.check(env.IMPLIES(off_edges, env.IFF(got, want)),
              '%s is the pointwise set operation' % op)



def sw(a, b, op, o, d, lo, hi):
    return dict(a=a, b=b, op=op, o=o, d=d, lo=lo, hi=hi)


OPS = ('or', 'and', 'sub', 'rsub')
# (a, b, start offset, direction, parameter range): B slides across A
SWEEPS = [
    ('sq', 'sq2', (0, 1), (1, 0), -3, 5),       # through, edges aligned never
    ('sq', 'sq', (0, 0), (0, 1), -5, 5),        # collinear sides all along
    ('sq', 'diamond', (0, 0), (1, 0), -5, 5),
    ('L', 'sq2', (0, 1), (1, 1), -3, 6),
    ('U', 'wide', (-1, 0), (0, 1), -3, 7),      # makes holes
    ('frame', 'frame', (0, 0), (1, 0), -7, 7),
    ('frame', 'sq2', (0, 2), (1, 0), -3, 7),    # in and out of the hole
    ('island', 'sq2', (3, 0), (0, 1), -3, 9),
    ('dhole', 'sq2', (1, 2), (1, 0), -4, 6),
    ('tri', 'skew', (0, 0), (2, 1), -3, 3),
    ('checker', 'sq2', (0, 1), (1, 0), -3, 5),
    ('hole2', 'tall', (0, -2), (1, 0), -3, 10),
    ('comb', 'wide', (-1, 0), (0, 1), -3, 5),
    ('nest', 'sq', (3, 0), (0, 1), -5, 11),
    ('colin', 'two', (-1, 1), (0, 1), -4, 4),
    ('trihole', 'tri', (1, 1), (1, 2), -2, 4),
]
MORE = [
    ('nest', 'frame', (2, 2), (1, 0), -9, 9),
    ('comb', 'comb', (0, 1), (1, 0), -6, 6),
    ('U', 'U', (1, 0), (0, 1), -7, 7),
    ('island', 'island', (0, 0), (1, 1), -9, 9),
    ('hole2', 'hole2', (0, 1), (1, 0), -10, 10),
    ('dhole', 'dhole', (0, 0), (1, 0), -7, 7),
    ('skew', 'diamond', (0, 0), (1, -2), -3, 3),
    ('L', 'L', (0, 0), (1, 1), -7, 7),
    ('checker', 'checker', (0, 0), (1, 1), -5, 5),
    ('frame', 'two', (-1, 2), (1, 0), -7, 7),
]
QUICK = []
for i, x in enumerate(SWEEPS):
    for op in (OPS[i % 4], OPS[(i + 1) % 4]):
        QUICK.append(sw(x[0], x[1], op, *x[2:]))
THOROUGH = [sw(x[0], x[1], op, *x[2:]) for x in SWEEPS + MORE for op in OPS]
QUICK += [sw('many', 'sq2', 'sub', (2, 3), (1, 0), -5, 25)]
THOROUGH += [sw('many', 'sq2', op, (0, 1), (1, 0), -3, 28) for op in OPS]
THOROUGH += [sw('many', 'tall', op, (0, 3), (1, 0), -3, 28) for op in OPS]
FREE = [dict(a=a, b=b, op=op, lo=lo, hi=hi) for a, b, lo, hi in (
    ('sq', 'sq2', -3, 5), ('sq', 'diamond', -5, 5), ('L', 'sq2', -3, 7),
    ('frame', 'sq2', -3, 7), ('tri', 'sq1', -2, 5), ('sq', 'colin', -5, 5),
    ('U', 'sq', -5, 7), ('two', 'two', -7, 7)) for op in OPS]

GROW = [('frame', 'sq2', (1, 1)), ('L', 'diamond', (1, 0)),
        ('two', 'tri', (2, 1)), ('frame', 'frame', (0, 0))]

HARNESSES = [
    H('sweep', setop, QUICK, THOROUGH,
      bounds='one operand slides along a line through every relative '
             'position (all touching / collinear / containment cases on '
             'the way); every query point'),
    H('free', setop, [dict(a='sq', b='sq2', op='sub', lo=-3, hi=5,
                           ylo=1, yhi=5)], FREE,
      bounds='two shapes at every relative 2-D position in the range; '
             'every query point'),
    H('size', setop, [dict(a=a, b=b, op=OPS[(i + k) % 4], o=o, grow=True,
                           lo=[1, 10 ** 9], hi=10 ** 6)
                      for i, (a, b, o) in enumerate(GROW) for k in (0, 1)],
      [dict(a=a, b=b, op=op, o=o, grow=True, lo=[1, 10 ** 9], hi=10 ** 6)
       for a, b, o in GROW for op in OPS],
      bounds='one operand has any size between 1e-9 and 1e6 times that of '
             'the other; every query point'),
]
