"""The whole process: the finished plates fit together."""
from symq.runner import H
from plycutter import canned
from .common import in_ivs, in_rings, on_rings
from .shapes import out_rings
from .model import corner
from .B01 import model
from .rng import AnyRNG, use_rng

PROPERTY = 'P01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the generator\'s draws are arbitrary legal outcomes, finger '
               'order within a joint limited to a few permutations',
               'floats are modelled as exact reals; judged with a slack of '
               '1e-6']
I = 's0,s1'
IDS = [(I, 's0'), (I, 's1')]


def fit(env, var, lo, hi, T=6, L0=20, L1=20, W=30, r=12, tee=None, mn=3,
        mx=5, perms=1, mid=True):
    v = env.real('v', lo, hi)
    d = dict(T=T, L0=L0, L1=L1, W=W, r=r, tee=tee)
    for k in var.split(','):
        d[k] = v
    d = {k: env.Q(x) if isinstance(x, int) else x for k, x in d.items()}
    sp = model(env, d['T'], d['L0'], d['L1'], d['W'], d['tee'])
    rng = AnyRNG(env, perms=perms, mid=mid)
    with use_rng(rng):
        res = canned.canned_1(sp, dict(
            support_radius=d['r'], min_finger_width=env.Q(mn),
            max_finger_width=env.Q(mx), random_seed=5,
            return_on_failure=False))
    env.check(res.ok is True, 'the process succeeds')
    cuts = res.sheet_cuts
    env.check(set(cuts.keys()) == set(sp.sheets.keys()),
              'every plate is cut')
    # a place in the joint: along it, and anywhere across
    y, q, s = env.real('y'), env.real('q'), env.real('s')
    T, tee = d['T'], d['tee']
    top = d['L0'] if bool(d['L0'] < d['L1']) else d['L1']
    eps = env.Q(1, 10 ** 6)
    end = env.Q(1, 50)
    q0 = q if tee is None else q + tee
    env.assume(0 < q)
    env.assume(q < T)
    rs = [out_rings(cuts[k]) for k in ('s0', 's1')]
    in0 = in_rings(env, rs[0], (q0, y))
    in1 = in_rings(env, rs[1], (s, y))
    env.assume(0 < s)
    env.assume(s < T)
    near = []
    for ring in rs[0] + rs[1]:
        for vx in ring:
            near.append(env.AND(vx[1] - eps < y, y < vx[1] + eps))
    for k in range(2):
        for iv in res.sheetbuild.interside_chosen[IDS[k]].intervals:
            for e in iv:
                near.append(env.AND(e - eps < y, y < e + eps))
    off = env.AND(env.NOT(env.OR(*near)),
                  env.NOT(on_rings(env, rs[0], (q0, y))),
                  env.NOT(on_rings(env, rs[1], (s, y))))
    env.check(env.IMPLIES(off, env.NOT(env.AND(in0, in1))),
              'no joint position is cut from both plates')
    env.check(env.IMPLIES(env.AND(off, end < y, y < top - end), env.OR(in0, in1)),
              'every joint position is cut from one of the plates')
    # the plates themselves
    p = (env.real('px'), env.real('py'))
    for k in range(2):
        sid = 's%d' % k
        L = d['L%d' % k]
        a, b = (env.Q(0), T) if tee is None or k else (tee, tee + T)
        off = env.AND(env.NOT(on_rings(env, rs[k], p)), p[0] != a,
                      p[0] != b)
        got = in_rings(env, rs[k], p)
        inside = env.AND(0 < p[0], p[0] < d['W'], 0 < p[1], p[1] < L)
        strip = env.AND(a < p[0], p[0] < b)
        env.check(env.IMPLIES(env.AND(off, inside, env.NOT(strip), p[0] > a),
                              got), 'the plate beside the joint is complete')
        env.check(env.IMPLIES(env.AND(off, got), inside),
                  'nothing is cut outside the outline of the model')
        ps = list(cuts[sid].polygons())
        env.check(len(ps) == 1, 'every plate is one piece')
        hole = len(list(ps[0].holes()))
        env.observe('holes%d' % k, hole)
        if tee is None:
            env.check(hole == 0, 'a corner joint leaves no hole')


def c(var, lo, hi, **k):
    return dict(var=var, lo=lo, hi=hi, **k)


HARNESSES = [
    H('fit', fit,
      [c('L0,L1', 8, [83, 10], W=15, r=7), c('T', [56, 10], [57, 10], L0=9, L1=9, W=15,
                                       r=7),
       c('r', 7, 8, L0=8, L1=8, W=15),
       c('tee', 9, 10, L0=8, L1=8, r=7)],
      [c('L0,L1', 6, 12), c('L0,L1', 8, 9, mid=False, perms=2),
       c('L0,L1', 15, 18), c('T', 3, 8), c('tee', 4, 18, L0=12, L1=12),
       c('tee', 9, 10, L0=12, L1=12, mid=False), c('L1', 8, 30),
       c('L1', 10, 11, L0=14), c('L0,L1', 8, 9), c('r', 7, 8, L0=9, L1=9),
       c('L1', 10, 22, tee=9), c('r', 6, 14), c('W', 15, 60, L0=9, L1=9)],
      bounds='corner and T joints of two plates; one dimension symbolic in '
             'the range given, random draws at their middle (some thorough '
             'configurations: arbitrary draws)', path_s=400),
]
