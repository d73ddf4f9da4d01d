"""A plate's planes and its own coordinates describe the same plate."""
from symq.runner import H
from symq.arrays import arr
from .C02 import rot, dot, mk, close, val

PROPERTY = 'C03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['floats are modelled as exact reals; replays compare with a '
               'slack of 1e-6']


def quat(env, q):
    r = []
    for i, v in enumerate(q):
        r.append(env.real('q%d' % i, -5, 5) if v == 't' else env.Q(v))
    if env.symbolic or any(r):
        return r
    return [env.Q(1)] + r[1:]


def turn(env, q):
    if not any(isinstance(v, int) and v for v in q):
        raise ValueError('degenerate')
    return rot(env, quat(env, q))


def same(env, a, b, label):
    env.check(env.AND(*[close(env, val(env, x), y)
                        for x, y in zip(a, b)]) if not env.symbolic else
              env.AND(*[x == y for x, y in zip(a, b)]), label)


def planes(env, q):
    R = turn(env, q)
    o, T = env.real('o', -100, 100), env.real('T', 1, 12)
    s, (n, _, _, _) = mk(env, 's0', R, o, T)
    before = [list(r) for r in s.sides]
    same(env, s.normal(0), n, 'the first side faces along the normal')
    same(env, s.normal(1), [-v for v in n], 'the other side faces away')
    env.check(len(s.normal(0)) == 3 == len(s.normal(1)),
              'a normal has three parts')
    same(env, [s.offset(0), s.offset(1)], [o, T - o],
         'the sides lie where the plate begins and ends')
    m = list(s.midplane())
    env.check(len(m) == 4, 'the middle of the plate is a plane')
    # points half-way are on it, whatever its scale
    u, v = env.real('u', -50, 50), env.real('v', -50, 50)
    c = o - T / 2
    p = [R[i][0] * u + R[i][1] * v + R[i][2] * c for i in range(3)]
    mm = [val(env, x) for x in m]
    d = dot(mm[:3], p) - mm[3]
    env.check(d == 0 if env.symbolic else close(env, d, env.Q(0)),
              'the middle plane lies half-way between the sides')
    same(env, mm[:3], n, 'the middle plane faces along the normal')
    for a, b in zip(before, [list(r) for r in s.sides]):
        env.check(env.AND(*[x == y for x, y in zip(a, b)]),
                  'asking changes nothing')


def coords(env, q, kind):
    """Points and directions of space in the plate's coordinates."""
    R = turn(env, q)
    s, _ = mk(env, 's0', R, env.Q(3), env.Q(2))
    # arbitrary position in the plate's frame
    x, y, z = [env.real(k, -100, 100) for k in 'xyz']
    P = [R[i][0] * x + R[i][1] * y + R[i][2] * z for i in range(3)]
    if kind == 'point':
        w = env.Q(1)
    elif kind == 'weight':
        w = env.real('w', -5, 5)
        env.assume(w != 0)
        P = [v * w for v in P]
    else:
        w = env.Q(0)
    pt = list(arr(env, P + [w]))
    keep = list(pt)
    r = s.project_point4(pt)
    env.check(len(r) == 2, 'plate coordinates have two parts')
    same(env, [val(env, v) for v in r], [x, y],
         {'point': 'a point', 'weight': 'a weighted point'}.get(
             kind, 'a direction') + ' has its place on the plate')
    env.check(all(a is b or bool(a == b) for a, b in zip(keep, pt)),
              'asking changes nothing')


def moved(env, q, kind):
    """A plate whose coordinates are also shifted."""
    R = turn(env, q)
    s, _ = mk(env, 's0', R, env.Q(3), env.Q(2))
    t = [env.real('t' + k, -100, 100) for k in 'xyz']
    m = [[R[j][i] for j in range(3)] + [t[i]] for i in range(3)] + \
        [[env.Q(0)] * 3 + [env.Q(1)]]
    s = s.set('inverse_slice_rotation', arr(env, m))
    x, y, z = [env.real(k, -100, 100) for k in 'xyz']
    P = [R[i][0] * x + R[i][1] * y + R[i][2] * z for i in range(3)]
    w = env.Q(0) if kind == 'direction' else env.Q(1)
    if kind == 'weight':
        w = env.real('w', [1, 5], 5)
        P = [v * w for v in P]
    r = s.project_point4(list(arr(env, P + [w])))
    if kind == 'direction':
        want = [x, y]
    else:
        want = [x + t[0], y + t[1]]
    same(env, [val(env, v) for v in r], want,
         'a shift moves points, not directions')


QS = [(1, 0, 0, 0), (1, 't', 't', 0), (2, -1, 't', 1), ('t', 1, 2, 't')]
ALL = QS + [(1, 't', 't', 't'), ('t', 't', 't', 1), ('t', 1, 't', 't')]
KINDS = ('point', 'weight', 'direction')
HARNESSES = [
    H('planes', planes, [dict(q=q) for q in QS + [(1, "t", "t", "t")]], [dict(q=q) for q in ALL],
      bounds='plates turned in arbitrary ways (two of the four parts of the '
             'turn arbitrary; thorough: three), at every place, of every '
             'thickness'),
    H('coords', coords, [dict(q=QS[i], kind=k) for i in (1, 2)
                         for k in KINDS],
      [dict(q=q, kind=k) for q in ALL for k in KINDS],
      bounds='every point and direction of space, in turned plates'),
    H('moved', moved, [dict(q=(1, 2, 3, 4), kind=k) for k in KINDS],
      [dict(q=q, kind=k) for q in ALL for k in KINDS],
      bounds='every shift of the coordinates'),
]
