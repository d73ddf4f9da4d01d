"""Fingers: every open joint position goes to exactly one side."""
from symq.runner import H
import pyrsistent as pyr
from plycutter.geometry.geom1d import Geom1D
from plycutter.sheetbuild import SheetBuild
from plycutter import heuristics as heu
from .common import in_ivs, not_end
from .model import ghost_plex
from .rng import AnyRNG, use_rng

PROPERTY = 'H02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the generator\'s draws are arbitrary legal outcomes, finger '
               'order within a joint limited to a few permutations',
               'floats are modelled as exact reals; judged with a slack of '
               '1e-6',
               'the joint takes up no area on the plates here: what a choice '
               'means for the plates is B02']
I = 's0,s1'
IDS = [(I, 's0'), (I, 's1')]


def fingers(env, lc, rc, lo, hi, perms=2, mn=3, mx=5, far=0, gap=None):
    """Open range 0..L; lc, rc: which side (or None) has chosen what lies
    left and right of it; far: how far away that choice is; gap: there is a
    second open range, behind the right-hand choice."""
    Q = env.Q
    L = env.real('L', lo, hi)
    MN, MX = Q(*mn) if isinstance(mn, list) else Q(mn), \
        Q(*mx) if isinstance(mx, list) else Q(mx)
    far = Q(far)
    ch = [[], []]
    if lc is not None:
        ch[lc].append((Q(-10), -far))
    if rc is not None:
        ch[rc].append((L + far, L + 10))
    open_ = [(Q(0), L)]
    if gap is not None:
        open_.append((L + 10, L + 10 + gap))
    sp = ghost_plex(env)
    body = sp.sheets['s0'].slices_max
    sb = SheetBuild(
        sheetplex=sp,
        sheet_chosen=pyr.pmap({'s0': body, 's1': body}),
        sheet_ok=pyr.pmap({'s0': body, 's1': body}),
        interside_chosen=pyr.pmap({k: Geom1D(ch[i])
                                   for i, k in enumerate(IDS)}),
        interside_ok=pyr.pmap({k: Geom1D(ch[i] + open_)
                               for i, k in enumerate(IDS)}))
    rng = AnyRNG(env, perms=perms)
    with use_rng(rng) as u:
        r = heu.single_fingers_random(sb, dict(
            min_finger_width=MN, max_finger_width=MX, random_seed=77))
    env.check(bool(u.seeds) and all(z == 77 for z in u.seeds),
              'all randomness comes from the given seed')
    env.check(r.sheetplex is sp, 'the model stays the same')
    got = [r.interside_chosen[k] for k in IDS]
    eps = Q(1, 10 ** 6) if env.symbolic else Q(1, 10 ** 7)
    # 1. what was open is now divided between the sides, nothing else changed
    x = env.real('x')
    far_off = []
    for iv in list(got[0].intervals) + list(got[1].intervals) + open_ + \
            ch[0] + ch[1]:
        for e in iv:
            far_off.append(env.OR(x < e - eps, x > e + eps))
    ne = env.AND(*far_off)
    in0, in1 = [in_ivs(env, g.intervals, x) for g in got]
    env.check(env.IMPLIES(ne, env.NOT(env.AND(in0, in1))),
              'no joint position is given to both sides')
    was = [in_ivs(env, c, x) for c in ch]
    ino = in_ivs(env, open_, x)
    env.check(env.IMPLIES(env.AND(ne, ino), env.OR(in0, in1)),
              'every open joint position is given to a side')
    env.check(env.IMPLIES(env.AND(ne, env.NOT(ino)), env.AND(
        env.IFF(in0, was[0]), env.IFF(in1, was[1]))),
        'earlier choices stay as they are')
    ok = [in_ivs(env, r.interside_ok[k].intervals, x) for k in IDS]
    offk = env.AND(*[env.OR(x < e - eps, x > e + eps)
                     for k in IDS for iv in r.interside_ok[k].intervals
                     for e in iv])
    env.check(env.IMPLIES(env.AND(ne, offk), env.AND(
        env.IFF(ok[0], in0), env.IFF(ok[1], in1))),
        'what a side has not been given is closed to it')
    # 2. the fingers in 0..L
    inside = [[(a, b) for a, b in g.intervals] for g in got]
    cut = []
    for i in range(2):
        for a, b in inside[i]:
            lo_ = a if a > 0 else Q(0)
            hi_ = b if b < L else L
            if lo_ + eps < hi_:
                cut.append((lo_, hi_, i))
    cut = sort(cut)
    env.observe('fingers', len(cut))
    env.observe('sides', [c[2] for c in cut])
    for p, q in zip(cut, cut[1:]):
        env.check(p[2] != q[2], 'the fingers alternate')
    l = lc if lc is not None and bool(far < 2) else 0
    rr = rc if rc is not None and bool(far < 2) else 0
    # numbers of fingers with which the sides differ from their neighbours
    # and the widths fit
    dividable = env.OR(*[env.AND(MN * n <= L, L <= MX * n)
                         for n in range(1 if l == rr else 2, 30, 2)])
    env.check(len(cut) > 0, 'something is chosen')
    if bool(dividable):
        for a, b, i in cut:
            env.check(env.AND(b - a <= MX + eps, b - a >= MN - eps),
                      'finger widths are within the limits')
        env.check(cut[0][2] == 1 - l and cut[-1][2] == 1 - rr,
                  'the outer fingers differ from what is next to them')
    else:
        env.check(len(cut) == 1, 'an undividable range goes to one side')


def many(env, joints=1, ranges=1, lo=1, hi=4):
    """Several joints, each with several open ranges; L is the length of one
    range of each."""
    Q = env.Q
    L = env.real('L', lo, hi)
    sp = ghost_plex(env, tuple((0, n + 1) for n in range(joints)))
    op = []
    for n in range(ranges):
        s = Q(20 * n)
        op.append((s, s + (L if n == ranges - 1 else 2 + n % 5)))
    names = list(sp.sheets.keys())
    body = sp.sheets['s0'].slices_max
    ids = [s.id for i in sp.intersections.values() for s in i.sides]
    sb = SheetBuild(
        sheetplex=sp,
        sheet_chosen=pyr.pmap({k: body for k in names}),
        sheet_ok=pyr.pmap({k: body for k in names}),
        interside_chosen=pyr.pmap({k: Geom1D([]) for k in ids}),
        interside_ok=pyr.pmap({k: Geom1D(op) for k in ids}))
    with use_rng(AnyRNG(env, mid=True)):
        r = heu.single_fingers_random(sb, dict(
            min_finger_width=Q(3), max_finger_width=Q(5), random_seed=77))
    x = env.real('x')
    eps = Q(1, 10 ** 6)
    for inter in sp.intersections.values():
        g = [r.interside_chosen[s.id].intervals for s in inter.sides]
        ends = [e for iv in list(g[0]) + list(g[1]) + op for e in iv]
        ne = env.AND(*[env.OR(x < e - eps, x > e + eps) for e in ends])
        a, b = [in_ivs(env, k, x) for k in g]
        env.check(env.IMPLIES(ne, env.NOT(env.AND(a, b))),
                  'no joint position is given to both sides')
        env.check(env.IMPLIES(ne, env.IFF(in_ivs(env, op, x),
                                          env.OR(a, b))),
                  'every open joint position is given to a side, and no '
                  'other')


def sort(cut):
    out = []
    for c in cut:
        i = 0
        while i < len(out) and out[i][0] < c[0]:
            i += 1
        out.insert(i, c)
    return out


def f(lc, rc, lo, hi, **k):
    return dict(lc=lc, rc=rc, lo=lo, hi=hi, **k)


HARNESSES = [
    H('fingers', fingers,
      [f(0, 0, [1, 2], 12), f(0, 1, 1, 13), f(1, 0, 1, 9), f(1, 1, 2, 12),
       f(None, None, 2, 12), f(0, None, 2, 9), f(0, 0, 15, 18, perms=1),
       f(1, 0, 12, 15, perms=2), f(1, 1, 2, 9, far=1),
       f(1, 1, 2, 9, far=3), f(0, 1, 1, 9, mn=[5, 2], mx=[47, 10]),
       f(1, 0, 1, 6, gap=4), f(0, 1, 18, 19, perms=1),
       f(0, 0, 21, 22, perms=1)],
      [f(a, b, 1, 20, perms=3) for a in (0, 1, None) for b in (0, 1, None)] +
      [f(0, 0, 15, 26, perms=2), f(1, 0, 12, 24, perms=2, mn=2, mx=9),
       f(0, 1, 1, 15, gap=13)],
      bounds='one open range of arbitrary length (up to 18, thorough 26) '
             'next to any choices; up to 5 (8) fingers', path_s=120),
    H('many', many,
      [dict(joints=14), dict(ranges=14), dict(joints=3, ranges=3)],
      [dict(joints=6, ranges=6, lo=1, hi=12)],
      bounds='up to 14 joints, up to 14 open ranges of a joint; the last '
             'range of arbitrary length; draws in the middle of what is '
             'possible', path_s=120),
]
