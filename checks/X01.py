"""Joint coordinates and sheet coordinates agree."""
from symq.runner import H
from plycutter.geometry.geom1d import Geom1D
from .common import canon_ivs, check_canonical, in_ivs, not_end, in_rings, \
    exact, cross
from .shapes import out_rings, geom, qrings
from .model import interside

PROPERTY = 'X01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['joint directions are exact unit vectors (rational; the '
               'reader\'s float directions are unit up to rounding)']

DIRS = {'x': (1, 0), 'y': (0, 1), '-x': (-1, 0), '-y': (0, -1),
        'p': ((3, 5), (4, 5)), 'q': ((-5, 13), (12, 13))}


def direction(env, name):
    return [env.Q(*v) if isinstance(v, tuple) else env.Q(v)
            for v in DIRS[name]]


def fingers(env, d, n, fr, fixed=()):
    """Any ranges along the joint become exactly these parts of the strip."""
    Q = env.Q
    d = direction(env, d)
    if fr == 'any':
        lo, hi, o = Q(-1), Q(5), Q(2)
        ivs = canon_ivs(env, 'w', n)
    elif fixed:
        # some ranges at given places, the others anywhere between them
        lo, hi, o = Q(-1), Q(5), Q(2)
        ivs = [(Q(a), Q(b)) for a, b in fixed]
        for i in range(n):
            a, b = env.real('w%dl' % i), env.real('w%dh' % i)
            env.assume(a < b)
            for u, v in fixed:
                env.assume(env.OR(b < u, v < a))
            for u, v in ivs[len(fixed):]:
                env.assume(v < a)
            ivs.append((a, b))
        n = len(ivs)
    else:
        lo, hi, o = env.real('lo'), env.real('hi'), env.real('o')
        env.assume(lo < hi)
        ivs = canon_ivs(env, 'w', n)
    s = interside(env, 'a,b', 'a', 0, d, o, lo, hi)
    where = Geom1D(list(ivs))
    if fr == 'any':
        # any part of the way across
        f0, f1 = env.real('f0', -1, 2), env.real('f1', -1, 2)
        env.assume(f0 < f1)
    else:
        f0, f1 = [Q(*v) for v in fr]
    g = s.make_fingers(where, f0, f1) if fr != [[0, 1], [1, 1]] \
        else s.make_fingers(where)
    rings = out_rings(g)
    for r in rings:
        for v in r:
            exact(env, v[0])
            exact(env, v[1])
    p = (env.real('px'), env.real('py'))
    along = p[0] * d[0] + p[1] * d[1] - o
    across = p[0] * d[1] - p[1] * d[0]
    a0, a1 = lo + (hi - lo) * f0, lo + (hi - lo) * f1
    inside = env.AND(in_ivs(env, ivs, along), a0 < across, across < a1)
    off = env.AND(not_end(env, ivs, along), across != a0, across != a1)
    env.check(env.IMPLIES(off, env.IFF(in_rings(env, rings, p), inside)),
              'fingers cover exactly the given ranges across the joint')
    env.check(g.is_empty() == (n == 0), 'no range, no finger')
    back = s.project_to_1d(g)
    check_canonical(env, back)
    x = env.real('x')
    env.check(env.IMPLIES(not_end(env, ivs, x),
                          env.IFF(in_ivs(env, back.intervals, x),
                                  in_ivs(env, ivs, x))),
              'projecting fingers back gives the same ranges')
    env.observe('n', [len(rings), len(back.intervals)])


def project(env, d, shape):
    """A shape on the sheet projects to its extent in joint coordinates."""
    d = direction(env, d)
    o = env.real('o')
    s = interside(env, 'a,b', 'a', 0, d, o, 0, 6)
    off = (env.real('x0', -10 ** 6, 10 ** 6), env.real('y0', -10 ** 6, 10 ** 6))
    g = geom(env, shape, off)
    back = s.project_to_1d(g)
    ring = qrings(env, shape, off)[0]
    x = env.real('x')
    ds = [v[0] * d[0] + v[1] * d[1] - o for v in ring]
    env.check(env.IMPLIES(
        env.AND(*[x != v for v in ds]),
        env.IFF(in_ivs(env, back.intervals, x),
                env.AND(env.OR(*[v < x for v in ds]),
                        env.OR(*[v > x for v in ds])))),
        'a shape projects to its extent in joint coordinates')


ALL = [[0, 1], [1, 1]]
HARNESSES = [
    H('fingers', fingers,
      [dict(d=d, n=1, fr=ALL) for d in DIRS] +
      [dict(d='-y', n=1, fr=ALL, fixed=[(0, 3)]),
       dict(d='q', n=1, fr=ALL, fixed=[(0, 3)]),
       dict(d='x', n=1, fr=ALL, fixed=[(-4, -2), (1, 5)]),
       dict(d='y', n=1, fr=[[4, 10], [6, 10]]), dict(d='y', n=0, fr=ALL),
       dict(d='-x', n=1, fr=[[3, 10], [7, 10]]),
       dict(d='y', n=1, fr='any'), dict(d='-x', n=1, fr='any')],
      [dict(d=d, n=1, fr=f, fixed=x) for d in DIRS
       for f, x in ((ALL, [(0, 3)]), ([[1, 3], [1, 2]], [(0, 3)]),
                    (ALL, [(-4, -2), (1, 5)]),
                    (ALL, [(0, 1), (2, 3), (4, 5), (6, 7)]))] +
      [dict(d='x', n=2, fr=ALL, fixed=[(0, 3)])] +
      [dict(d=d, n=1, fr='any') for d in DIRS],
      bounds='one arbitrary range with arbitrary strip and origin; one '
             '(two) arbitrary ranges among 1-4 given ones; six exact unit '
             'directions'),
    H('project', project,
      [dict(d='x', shape='tri'), dict(d='q', shape='L'),
       dict(d='-y', shape='frame')],
      [dict(d=d, shape='skew') for d in DIRS],
      bounds='shapes at every position, arbitrary origin'),
]
