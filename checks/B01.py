"""The starting state leaves exactly the joints open."""
import pyrsistent as pyr
from symq.runner import H
from plycutter.sheetbuild import create_sheetbuild
from .common import in_ivs, not_end, in_rings, on_rings, check_canonical
from .shapes import out_rings
from .minkowski import KERNEL_NOTE
from .model import rect, sheet, plex, interside, corner
from plycutter.sheetplex import Intersection

PROPERTY = 'B01'
LEVEL = 'model_checking'
ASSUMPTIONS = [KERNEL_NOTE, 'two plates meeting in one right-angled joint']
I = 's0,s1'


def params(env, r):
    return dict(support_radius=r, min_finger_width=env.Q(3),
                max_finger_width=env.Q(5), random_seed=1)


def model(env, T, L0, L1, W, tee=None):
    """Two plates; tee: the second one ends at the first one's face, which
    lies at tee .. tee + T."""
    if tee is None:
        return corner(env, L=L0, W=W, T=T, L1=L1)
    Q = env.Q
    full = rect(env, 0, 0, W, L0)
    s0 = sheet(env, 's0', full, rect(env, 0, 0, tee, L0)
               | rect(env, tee + T, 0, W, L0), full)
    s1 = sheet(env, 's1', rect(env, T, 0, W, L1), rect(env, T, 0, W, L1),
               rect(env, 0, 0, W, L1))
    i = Intersection(id=I, sides=(
        interside(env, I, 's0', 0, (0, 1), 0, tee, tee + T),
        interside(env, I, 's1', 1, (0, 1), 0, 0, T)))
    return plex([s0, s1], [i])


def turned(sp):
    """The same model with the plates lying the other way up."""
    return sp.set('sheets', pyr.pmap({
        k: s.set('faces', list(reversed(s.faces)))
        for k, s in sp.sheets.items()}))


def start(env, var, lo, hi, T=6, L0=20, L1=20, W=30, r=12, tee=None,
          turn=False):
    v = env.real('v', lo, hi)
    d = dict(T=T, L0=L0, L1=L1, W=W, r=r, tee=tee)
    for k in var.split(','):
        d[k] = v
    d = {k: env.Q(x) if isinstance(x, int) else x for k, x in d.items()}
    sp = model(env, d['T'], d['L0'], d['L1'], d['W'], d['tee'])
    if turn:
        sp = turned(sp)
    sb = create_sheetbuild(sp, params(env, d['r']))
    T, r, tee = d['T'], d['r'], d['tee']
    env.check(sb.sheetplex is sp, 'the model is kept')
    env.check(set(sb.sheet_ok.keys()) == set(sp.sheets.keys()) ==
              set(sb.sheet_chosen.keys()), 'every plate has a state')
    ids = {(I, 's0'), (I, 's1')}
    env.check(set(sb.interside_ok.keys()) == ids ==
              set(sb.interside_chosen.keys()), 'every joint side has a state')
    for k in ids:
        env.check(sb.interside_chosen[k].is_empty(),
                  'no joint position is decided at the start')
        check_canonical(env, sb.interside_ok[k])
    ok = sb.interside_ok[(I, 's0')]
    ok1 = sb.interside_ok[(I, 's1')]
    x = env.real('x')
    top = d['L0'] if bool(d['L0'] < d['L1']) else d['L1']
    both = [(env.Q(0), top)]
    ne = not_end(env, list(ok.intervals) + list(ok1.intervals) + both, x)
    env.check(env.IMPLIES(ne, env.IFF(in_ivs(env, ok.intervals, x),
                                      in_ivs(env, ok1.intervals, x))),
              'both sides of a joint have the same open positions')
    env.check(env.IMPLIES(ne, env.IFF(in_ivs(env, ok.intervals, x),
                                      in_ivs(env, both, x))),
              'exactly the positions where both plates reach are open')
    p = (env.real('px'), env.real('py'))
    for sid in ('s0', 's1'):
        s = sp.sheets[sid]
        L = d['L0'] if sid == 's0' else d['L1']
        a, b = (env.Q(0), T) if tee is None or sid == 's1' else \
            (tee, tee + T)
        c, o, m = [out_rings(z) for z in (sb.sheet_chosen[sid],
                                          sb.sheet_ok[sid], s.slices_max)]
        off = env.AND(env.NOT(on_rings(env, c + o + m, p)), p[1] != top,
                      p[0] != a, p[0] != b)
        inc, ino, inm = [in_rings(env, z, p) for z in (c, o, m)]
        strip = env.AND(a < p[0], p[0] < b, 0 < p[1], p[1] < top)
        env.check(env.IMPLIES(env.AND(off, inc), ino),
                  'what is decided is possible')
        env.check(env.IMPLIES(env.AND(off, ino), inm),
                  'nothing outside the plate\'s outline is possible')
        env.check(env.IMPLIES(env.AND(off, inc), env.NOT(strip)),
                  'nothing is decided inside an open joint')
        # distance (octagon) from what is visible on both sides: here the
        # solid part next to the strip
        if tee is None or sid == 's1':
            solid = p[0] > T
            d0 = T - p[0]
        else:
            solid = env.OR(p[0] < a, p[0] > b)
            d0 = None
        solid = env.AND(solid, inm)
        env.check(env.IMPLIES(env.AND(off, solid), inc),
                  'material visible on both sides is decided')
        if d0 is not None:
            env.check(env.IMPLIES(env.AND(off, inm, d0 >= r), env.NOT(ino)),
                      'nothing beyond the support radius is possible')
            env.check(env.IMPLIES(env.AND(off, inm, d0 < r, p[1] > 0),
                                  ino),
                      'everything within the support radius is possible')
        extra = env.AND(inm, env.NOT(solid), env.NOT(strip))
        if d0 is not None:
            env.check(env.IMPLIES(env.AND(off, inc, env.NOT(solid)),
                                  d0 <= 1),
                      'only material close to the solid part is decided')
        env.check(env.IMPLIES(env.AND(off, inc),
                              env.OR(solid, extra)),
                  'only material of the plate is decided')
    sb.check(force=True)


def short(env, sides, f, r):
    """The inner face of a plate ends at f: beyond the support radius from
    there the plate can have no material."""
    Q = env.Q
    f = env.real('f', *f) if isinstance(f, list) else Q(f)
    r = env.real('r', *r) if isinstance(r, list) else Q(r)
    full = rect(env, 0, 0, 30, 20)
    ss = [sheet(env, 's%d' % k, full, rect(env, 6, 0, 30, f if k in sides
                                           else 20), full) for k in (0, 1)]
    sp = plex(ss, [Intersection(id=I, sides=(
        interside(env, I, 's0', 0, (0, 1), 0, 0, 6),
        interside(env, I, 's1', 1, (0, 1), 0, 0, 6)))])
    sb = create_sheetbuild(sp, params(env, r))
    y = env.real('y')
    for k in (0, 1):
        ok = sb.interside_ok[(I, 's%d' % k)]
        ne = not_end(env, list(ok.intervals), y)
        isok = in_ivs(env, ok.intervals, y)
        env.check(env.IMPLIES(env.AND(ne, isok, 0 < y), y < f + r),
                  'a position where a plate can have no material is not '
                  'open')
        env.check(env.IMPLIES(env.AND(ne, 0 < y, y < f, y < 20), isok),
                  'a position where both plates can have material is open')
        env.check(env.IMPLIES(env.AND(ne, isok), env.AND(0 < y, y < 20)),
                  'only positions where both plates reach are open')


HARNESSES = [
    H('short', short, [dict(sides=[1], f=[7, 9], r=7)],
      [dict(sides=[0], f=8, r=[[13, 2], 10]),
       dict(sides=[0], f=[2, 17], r=7), dict(sides=[0, 1], f=[3, 12], r=8),
       dict(sides=[0, 1], f=6, r=[[13, 2], 15])],
      bounds='the inner face of one or both plates ends before the joint '
             'does; its end or the support radius symbolic'),
    H('start', start,
      [dict(var='T', lo=3, hi=11), dict(var='r', lo=4, hi=8, turn=True),
       dict(var='L1', lo=17, hi=23, turn=True), dict(var='L1', lo=22, hi=23),
       dict(var='tee', lo=9, hi=[21, 2]),
       dict(var='L0,L1', lo=900, hi=5000)],
      [dict(var='tee', lo=4, hi=18), dict(var='L1', lo=8, hi=30),
       dict(var='tee', lo=4, hi=18, turn=True), dict(var='r', lo=4, hi=8),
       dict(var='L0,L1', lo=8, hi=30), dict(var='W', lo=15, hi=60), dict(var='tee', lo=2, hi=22, L1=14),
       dict(var='T', lo=3, hi=11, tee=9, L0=30), dict(var='L0', lo=8, hi=30, r=4),
       dict(var='r', lo=1, hi=20, tee=9), dict(var='r', lo=1, hi=20, L1=13)],
      bounds='corner and T joint of two rectangular plates; thickness, '
             'support radius, lengths and joint position symbolic one at a '
             'time', path_s=120),
]
