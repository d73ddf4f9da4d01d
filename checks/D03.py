"""Results are well-formed polygons with holes."""
from symq.runner import H
from .common import in_rings, on_rings, ring_edges, shoelace2, exact, cross
from .shapes import geom, qrings, out_rings, observe_geom
from .D01 import SWEEPS, MORE, FREE, GROW, sw

PROPERTY = 'D03'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def area2(env, rings_by_poly):
    """Twice the area: outer minus holes (rings in any direction)."""
    s = env.Q(0)
    for outer, holes in rings_by_poly:
        s = s + absd(env, shoelace2(outer))
        for h in holes:
            s = s - absd(env, shoelace2(h))
    return s


def absd(env, v):
    return v if v >= 0 else -v


def parts(g):
    out = []
    for poly in g.polygons():
        out.append(([tuple(v) for v in poly.exterior()],
                    [[tuple(v) for v in h] for h in poly.holes()]))
    return out


def proper(env, a, b, c, d):
    """Segments ab and cd cross in their interiors (formula)."""
    def opp(x, y):
        return env.OR(env.AND(x > 0, y < 0), env.AND(x < 0, y > 0))
    return env.AND(opp(cross(a, b, c), cross(a, b, d)),
                   opp(cross(c, d, a), cross(c, d, b)))


def along(env, a, b, c, d):
    """Segments ab and cd share more than a point (formula)."""
    on = env.AND(cross(a, b, c) == 0, cross(a, b, d) == 0)
    u = (b[0] - a[0], b[1] - a[1])
    t = [(q[0] - a[0]) * u[0] + (q[1] - a[1]) * u[1] for q in (c, d)]
    n = u[0] * u[0] + u[1] * u[1]
    return env.AND(on, env.OR(t[0] > 0, t[1] > 0),
                   env.OR(t[0] < n, t[1] < n))


def well_formed(env, g, what):
    ps = parts(g)
    for outer, holes in ps:
        for ring in [outer] + holes:
            env.check(len(ring) >= 3, what + ': rings have 3 or more corners')
            for v in ring:
                exact(env, v[0])
                exact(env, v[1])
            for a, b in ring_edges(ring):
                env.check(env.OR(a[0] != b[0], a[1] != b[1]),
                          what + ': consecutive corners differ')
            env.check(shoelace2(ring) < 0, what + ': every ring is clockwise '
                      'and has an area')
    rings = [r for o, hs in ps for r in [o] + hs]
    edges = [e for r in rings for e in ring_edges(r)]
    for i in range(len(edges)):
        for j in range(i):
            (a, b), (c, d) = edges[i], edges[j]
            if a == c or a == d or b == c or b == d:
                continue
            env.check(env.NOT(proper(env, a, b, c, d)),
                      what + ': borders do not cross')
    for i in range(len(edges)):
        for j in range(i):
            env.check(env.NOT(along(env, *edges[i], *edges[j])),
                      what + ': no part of a border is there twice')
    p = (env.real('px'), env.real('py'))
    off = env.NOT(on_rings(env, rings, p))
    ins = []
    for outer, holes in ps:
        io = in_rings(env, [outer], p)
        ih = [in_rings(env, [h], p) for h in holes]
        for k, h in enumerate(ih):
            env.check(env.IMPLIES(env.AND(off, h), io),
                      what + ': holes lie inside their polygon')
            for h2 in ih[:k]:
                env.check(env.NOT(env.AND(off, h, h2)),
                          what + ': holes do not overlap')
        ins.append(env.AND(io, *[env.NOT(h) for h in ih]))
    for k in range(len(ins)):
        for m in range(k):
            env.check(env.NOT(env.AND(off, ins[k], ins[m])),
                      what + ': polygons do not overlap')
    a2 = area2(env, ps)
    env.check(2 * g.area() == a2, what + ': the area is that of the polygons '
              'minus their holes')
    env.check(g.is_empty() == (len(ps) == 0), what + ': empty has no '
              'polygons')
    env.check(env.IFF(g.is_empty(), a2 == 0), what + ': empty iff no area')
    return a2 / 2


def formed(env, a, b, op, d=None, o=(0, 0), lo=-12, hi=12, ylo=None,
           yhi=None, grow=False):
    k = 1
    if grow:
        k, off = env.real('size', lo, hi), o
    elif d is not None:
        t = env.real('t', lo, hi)
        off = (o[0] + d[0] * t, o[1] + d[1] * t)
    else:
        off = (env.real('tx', lo, hi),
               env.real('ty', lo if ylo is None else ylo,
                        hi if yhi is None else yhi))
    A, B = geom(env, a), geom(env, b, off, k)
    r = {'or': lambda: A | B, 'and': lambda: A & B, 'sub': lambda: A - B,
         'rsub': lambda: B - A}[op]()
    observe_geom(env, 'r', r)
    well_formed(env, r, op)


def laws(env, a, b, d, o, lo, hi):
    t = env.real('t', lo, hi)
    A, B = geom(env, a), geom(env, b, (o[0] + d[0] * t, o[1] + d[1] * t))
    aa, ab = A.area(), B.area()
    u, i, s, q = A | B, A & B, A - B, B - A
    env.check(u.area() + i.area() == aa + ab,
              'area(A|B) + area(A&B) = area(A) + area(B)')
    env.check(s.area() + i.area() == aa, 'area(A-B) + area(A&B) = area(A)')
    env.check(q.area() + i.area() == ab, 'area(B-A) + area(A&B) = area(B)')
    env.check((A - A).is_empty(), 'A - A is empty')
    env.check((A & A).area() == aa and (A | A).area() == aa,
              'A & A and A | A are A')
    env.check((s & B).is_empty(), '(A - B) & B is empty')
    env.observe('areas', [u.area(), i.area(), s.area(), q.area()])


QUICK = []
OPS = ('or', 'and', 'sub', 'rsub')
for _k, _x in enumerate(SWEEPS):
    if _x[0] in ('U', 'frame', 'island', 'dhole', 'checker', 'comb',
                 'hole2', 'nest'):
        QUICK.append(sw(_x[0], _x[1], OPS[(_k + 2) % 4], *_x[2:]))
TH = [sw(x[0], x[1], op, *x[2:]) for x in SWEEPS + MORE for op in OPS]


def lw(x):
    return dict(a=x[0], b=x[1], o=x[2], d=x[3], lo=x[4], hi=x[5])


QUICK += [sw(*_x[:2], 'or', *_x[2:]) for _x in (SWEEPS[0], SWEEPS[1])]

HARNESSES = [
    H('formed', formed, QUICK, TH + FREE[:8],
      bounds='one operand slides along a line through every relative '
             'position'),
    H('size', formed, [dict(a=a, b=b, op=OPS[(i + 2) % 4], o=o, grow=True,
                            lo=[1, 10 ** 9], hi=10 ** 6)
                       for i, (a, b, o) in enumerate(GROW)],
      [dict(a=a, b=b, op=op, o=o, grow=True, lo=[1, 10 ** 9], hi=10 ** 6)
       for a, b, o in GROW for op in OPS],
      bounds='one operand has any size between 1e-9 and 1e6 times that of '
             'the other'),
    H('laws', laws, [lw(SWEEPS[4]), lw(SWEEPS[6]), lw(SWEEPS[2])],
      [lw(x) for x in SWEEPS + MORE],
      bounds='one operand slides along a line through every relative '
             'position'),
]
