"""From the model to the finished plates: put together, they are the model."""
from symq.runner import H
from plycutter import canned
from .common import in_rings, on_rings
from .shapes import out_rings
from .C01 import Solid, ROT, run, to_q
from .C02 import rot, dot
from .rng import AnyRNG, use_rng

PROPERTY = 'E01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['symbolic runs replace the mesh library by the facets and the '
               'cross-sections of a known solid (replays use trimesh); '
               'floats are modelled as exact reals; judged with a slack of '
               '1e-5, ends of joints and fingers with 1/50',
               'draws of the generator are fixed (middle of what is '
               'possible)', 'the solids are extruded profiles; one iteration '
               'order of plates and joints is explored (hash seed 0)']


def again(env, kind, sym, rotation='id', W=15, Hh=14, D=8, T=6, r=7, mn=3,
          mx=5):
    Q = env.Q
    d = dict(W=Q(W), Hh=Q(Hh), D=Q(D), T=Q(T), r=Q(r))
    sh = [Q(0)] * 3
    for name, (lo, hi) in sym.items():
        v = env.real(name, lo, hi)
        if name == 'shift':
            sh = [v, Q(2) * v, Q(1) - v]
        else:
            d[name] = v
    R = rot(env, ROT[rotation])
    solid = Solid(env, kind, d['W'], d['Hh'], d['D'], d['T'], R, sh)
    sp = run(env, solid.mesh(), dict(thickness=d['T'], only_sheets=None))
    env.check(len(sp.sheets) == len(solid.plates), 'every plate is found')
    with use_rng(AnyRNG(env, perms=1, mid=True)):
        res = canned.canned_1(sp, dict(
            support_radius=d['r'], min_finger_width=Q(mn),
            max_finger_width=Q(mx), random_seed=5,
            return_on_failure=False))
    env.check(res.ok is True, 'the process succeeds')
    env.check(set(res.sheet_cuts) == set(sp.sheets), 'every plate is cut')
    # a place in space, in the model's own axes
    p = [env.real('x'), env.real('y'), env.real('z')]
    w = solid.to_world(p)
    m = Q(1, 10 ** 5)
    ins, off = [], []
    for k, s in sp.sheets.items():
        n = [to_q(env, v) for v in s.sides[0][:3]]
        o = to_q(env, s.sides[0][3])
        inv = [[to_q(env, v) for v in row]
               for row in s.inverse_slice_rotation]
        h = dot(n, w) - o
        q = (dot(inv[0][:3], w), dot(inv[1][:3], w))
        T = d['T']
        off.append(env.AND(env.OR(h < -m, h > m),
                           env.OR(h < -T - m, h > -T + m)))
        rings = out_rings(res.sheet_cuts[k])
        env.observe('rings' + k, len(rings))
        off.append(env.NOT(on_rings(env, rings, q)))
        ins.append(env.AND(-T < h, h < 0, in_rings(env, rings, q)))
    # off the ends of the fingers
    e = Q(1, 50)
    sb = res.sheetbuild
    for iid, g in sb.interside_chosen.items():
        it = sp.intersections[iid[0]]
        side = [z for z in it.sides if z.sheet == iid[1]][0]
        s = sp.sheets[iid[1]]
        inv = [[to_q(env, v) for v in row]
               for row in s.inverse_slice_rotation]
        q = (dot(inv[0][:3], w), dot(inv[1][:3], w))
        t = to_q(env, side.direction[0]) * q[0] + \
            to_q(env, side.direction[1]) * q[1] - \
            to_q(env, side.origin_offset)
        for iv in g.intervals:
            for v in iv:
                off.append(env.OR(t < v - e, t > v + e))
    # the model itself, off its surface
    off += [env.OR(p[1] < -m, p[1] > e), env.OR(p[1] < d['D'] - e,
                                               p[1] > d['D'] + m)]
    for ring in solid.rings:
        for x, z in ring:
            off += [env.OR(p[0] < x - m, p[0] > x + m),
                    env.OR(p[2] < z - m, p[2] > z + m)]
    body = solid.inside(p)
    off = env.AND(*off)
    pairs = [env.AND(a, b) for i, a in enumerate(ins) for b in ins[:i]]
    env.check(env.IMPLIES(off, env.NOT(env.OR(*pairs))),
              'no two plates fill the same place')
    env.check(env.IMPLIES(env.AND(off, body), env.OR(*ins)),
              'the plates fill the model')
    env.check(env.IMPLIES(env.AND(off, env.OR(*ins)), body),
              'the plates fill nothing but the model')


def c(kind, rotation='id', **sym):
    k = {x: sym.pop(x) for x in list(sym) if not isinstance(sym[x], list)}
    return dict(kind=kind, rotation=rotation, sym=sym, **k)


HARNESSES = [
    H('again', again,
      [c('L', D=[8, [83, 10]]), c('T', W=[24, 25]),
       c('L', 'flip', shift=[450, 550]), c('L', 'x', D=[8, [83, 10]])],
      [c('U', D=[8, [83, 10]], W=25), c('tube', D=[8, [83, 10]], W=25, Hh=25),
       c('cross', D=[8, [83, 10]], W=45, Hh=42), c('L', 'skew', D=[8, [83, 10]]),
       c('L', T=[5, 6]), c('L', D=[8, 12]),
       c('U', 'flip', shift=[-9000, -50], W=25), c('T', 'x', D=[8, [83, 10]], W=24),
       c('L', W=[14, 40]), c('L', r=[6, 20]), c('L', D=[15, 17])],
      bounds='L and T profiles (thorough: U, box, cross), one size, the place or '
             'the support radius symbolic; draws fixed', path_s=400),
]
