"""Where three plates meet, exactly one of them gets the corner."""
from symq.runner import H
from plycutter import canned
from plycutter import heuristics as heu
from plycutter.sheetbuild import create_sheetbuild
from .common import in_ivs, in_rings, on_rings, check_canonical
from .shapes import out_rings
from .model import cube_corner, cube_side, corner_on
from .rng import AnyRNG, use_rng

PROPERTY = 'P02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['one iteration order of the plates and joints is explored '
               '(hash seed 0)', 'draws of the generator as in H02; floats '
               'modelled as exact reals, judged with a slack of 1e-6']


def par(env, mn=3, mx=5, r=12):
    return dict(support_radius=env.Q(r), min_finger_width=env.Q(mn),
                max_finger_width=env.Q(mx), random_seed=5,
                return_on_failure=False)


def build(env, var, lo, hi, **d):
    v = env.real('v', lo, hi)
    for k in var.split(','):
        d[k] = v
    d = {k: env.Q(x) if isinstance(x, int) else x for k, x in d.items()}
    return d, cube_corner(env, d['A'], d['B'], d['C'], d['T'])


# joint -> which box edge it runs along
ALONG = {'s0,s1': 1, 's0,s2': 0, 's1,s2': 2}
SIDES = {'s0,s1': ('s0', 's1'), 's0,s2': ('s0', 's2'),
         's1,s2': ('s1', 's2')}


def decide(env, var, lo, hi, A=20, B=20, C=20, T=6):
    d, sp = build(env, var, lo, hi, A=A, B=B, C=C, T=T)
    T = d['T']
    p = par(env)
    sb = create_sheetbuild(sp, p)
    r = heu.heuristic_multi_inter_single_decisions(sb, p)
    r.check(force=True)
    x = env.real('x')
    corner = env.AND(0 < x, x < T)
    owners = []
    for sid in ('s0', 's1', 's2'):
        got = True
        for j, ss in SIDES.items():
            if sid in ss:
                g = r.interside_chosen[(j, sid)]
                ne = env.AND(*[x != e for iv in g.intervals for e in iv])
                if g.is_empty():
                    got = False
                else:
                    env.check(env.IMPLIES(env.AND(ne, corner),
                                          in_ivs(env, g.intervals, x)),
                              'who gets the corner gets all of it')
        if got:
            owners.append(sid)
    env.check(len(owners) == 1, 'exactly one plate gets the corner')
    own = owners[0]
    env.observe('owner', own)
    extra = 0
    for j, ss in SIDES.items():
        top = d['ABC'[ALONG[j]]]
        ch = None
        for sid in ss:
            g = r.interside_chosen[(j, sid)]
            check_canonical(env, g)
            if sid != own:
                env.check(g.is_empty(), 'no other plate gets the corner')
            else:
                ch = g
        if ch is not None:
            env.check(len(ch.intervals) == 1, 'the corner choice is one '
                      'finger')
            a, b = ch.intervals[0]
            env.check(env.AND(a == 0, b >= T),
                      'the corner choice is the corner and what extends it')
            if b > T:
                extra += 1
                env.check(env.AND(b - T >= env.Q(3, 2), b - T <= 4),
                          'the extending finger has a usable size')
            ends = [0, b, top]
        else:
            ends = [0, T, top]
        lim = ends[1]
        for sid in ss:
            k = r.interside_ok[(j, sid)]
            ne = env.AND(*[x != e for e in ends],
                         *[x != e for iv in k.intervals for e in iv])
            got = in_ivs(env, k.intervals, x)
            env.check(env.IMPLIES(env.AND(ne, 0 < x, x < lim),
                                  got if sid == own else env.NOT(got)),
                      'the decided part is closed to the other plates')
            env.check(env.IMPLIES(env.AND(ne, lim < x, x < top), got),
                      'the rest of the joint stays open')
    env.check(extra <= 1, 'at most one joint is extended')
    env.check(extra == 1, 'the corner is held to its plate')
    q = (env.real('qx'), env.real('qy'))
    for sid in ('s0', 's1', 's2'):
        rings = out_rings(r.sheet_chosen[sid] if sid == own
                          else r.sheet_ok[sid])
        sq = env.AND(0 < q[0], q[0] < T, 0 < q[1], q[1] < T)
        off = env.NOT(on_rings(env, rings, q))
        got = in_rings(env, rings, q)
        env.check(env.IMPLIES(env.AND(off, sq),
                              got if sid == own else env.NOT(got)),
                  'one plate has the corner and the others cannot')


def collide(env, T, rings, p):
    """p (a point of space) is in which plates?"""
    x, y, z = p
    a = env.AND(0 < z, z < T, in_rings(env, rings[0], (x, y)))
    b = env.AND(0 < x, x < T, in_rings(env, rings[1], (y, z)))
    c = env.AND(0 < y, y < T, in_rings(env, rings[2], (x, z)))
    return a, b, c


def whole(env, var, lo, hi, A=16, B=16, C=16, T=6, mn=3, mx=5, mid=True):
    """The whole process on the corner of a box."""
    d, sp = build(env, var, lo, hi, A=A, B=B, C=C, T=T)
    T = d['T']
    with use_rng(AnyRNG(env, perms=1, mid=mid)):
        res = canned.canned_1(sp, par(env, mn, mx))
    env.check(res.ok is True, 'the process succeeds')
    rings = [out_rings(res.sheet_cuts[k]) for k in ('s0', 's1', 's2')]
    p = (env.real('x'), env.real('y'), env.real('z'))
    eps = env.Q(1, 10 ** 6)
    near = []
    # joints' decided ends: only the end of a draw may be off by rounding
    for k, g in res.sheetbuild.interside_chosen.items():
        c = p[ALONG[k[0]]]
        for iv in g.intervals:
            for e in iv:
                near.append(env.AND(e - eps < c, c < e + eps))
    x, y, z = p
    off = env.AND(env.NOT(env.OR(*near)),
                  env.NOT(on_rings(env, rings[0], (x, y))),
                  env.NOT(on_rings(env, rings[1], (y, z))),
                  env.NOT(on_rings(env, rings[2], (x, z))))
    a, b, c = collide(env, T, rings, p)
    env.check(env.IMPLIES(off, env.NOT(env.OR(
        env.AND(a, b), env.AND(a, c), env.AND(b, c)))),
        'the finished plates do not collide anywhere in space')
    e = env.Q(1, 50)
    for k, g in res.sheetbuild.interside_chosen.items():
        c_ = p[ALONG[k[0]]]
        off = env.AND(off, *[env.OR(c_ < v - e, c_ > v + e)
                             for iv in g.intervals for v in iv])
    ins = [env.AND(0 < v, v < T) for v in p]
    box = env.AND(*[env.AND(e < v, v < d[k] - e)
                    for v, k in zip(p, 'ABC')])
    # in two plates' walls at least
    rod = env.OR(env.AND(ins[2], ins[0]), env.AND(ins[2], ins[1]),
                 env.AND(ins[0], ins[1]))
    far = env.AND(*[env.OR(v < T - e, v > T + e) for v in p])
    env.check(env.IMPLIES(env.AND(off, box, rod, far), env.OR(a, b, c)),
              'the finished plates leave no hole in the joints')


def corners(env, var, lo, hi, A=30, B=16, C=16, T=6):
    """Two corners of a box: each is decided, and on its own."""
    v = env.real('v', lo, hi)
    d = dict(A=A, B=B, C=C, T=T)
    for k in var.split(','):
        d[k] = v
    d = {k: env.Q(x) if isinstance(x, int) else x for k, x in d.items()}
    A, T = d['A'], d['T']
    p = par(env)
    sb = create_sheetbuild(cube_side(env, A, d['B'], d['C'], T), p)
    r = heu.heuristic_multi_inter_single_decisions(sb, p)
    r.check(force=True)
    q = (env.real('qx'), env.real('qy'))
    eps = env.Q(1, 10 ** 6)
    lows = (eps < q[1], q[1] < T - eps)
    at0 = env.AND(eps < q[0], q[0] < T - eps, *lows)
    at1 = env.AND(A - T + eps < q[0], q[0] < A - eps, *lows)
    owners = []
    for c, (third, sq) in enumerate((('s1', at0), ('s3', at1))):
        own = []
        for sid in ('s0', third, 's2'):
            place = at0 if sid == third else sq
            # decided for this plate?
            pt = (T / 2, T / 2) if sid == third or c == 0 else \
                (A - T / 2, T / 2)
            ch = out_rings(r.sheet_chosen[sid])
            has = in_rings(env, ch, pt)
            if bool(has):
                own.append(sid)
                env.check(env.IMPLIES(env.AND(place, env.NOT(on_rings(
                    env, ch, q))), in_rings(env, ch, q)),
                    'who gets a corner gets all of it')
            else:
                ok = out_rings(r.sheet_ok[sid])
                env.check(env.IMPLIES(env.AND(place, env.NOT(on_rings(
                    env, ok, q))), env.NOT(in_rings(env, ok, q))),
                    'no other plate gets the corner')
        env.check(len(own) == 1, 'exactly one plate gets each corner')
        owners.append(own[0])
    env.observe('owners', owners)
    # beyond the corners and one extension each, the long joint is open
    x = env.real('x')
    for sid in ('s0', 's2'):
        k = r.interside_ok[('s0,s2', sid)]
        g = r.interside_chosen[('s0,s2', 's0' if sid == 's2' else 's2')]
        ne = env.AND(*[x != e for z in (k, g) for iv in z.intervals
                       for e in iv])
        env.check(env.IMPLIES(env.AND(ne, T < x, x < A - T, env.NOT(
            in_ivs(env, g.intervals, x))), in_ivs(env, k.intervals, x)),
            'the rest of the joint stays open')


def standing(env, var, lo, hi, A=20, B=20, C=20, T=6, X=10,
             names=('s0', 's1', 's2')):
    """Two walls that meet on a plate that extends beyond both of them."""
    v = env.real('v', lo, hi)
    d = dict(A=A, B=B, C=C, T=T, X=X)
    for k in var.split(','):
        d[k] = v
    d = {k: env.Q(x) if isinstance(x, int) else x for k, x in d.items()}
    T, X = d['T'], d['X']
    sp = corner_on(env, d['A'], d['B'], d['C'], T, X, names)
    n0, n1, n2 = names
    sides = {a + ',' + b: (a, b) for a, b in ((n0, n1), (n0, n2), (n1, n2))}
    p = par(env)
    sb = create_sheetbuild(sp, p)
    r = heu.heuristic_multi_inter_single_decisions(sb, p)
    r.check(force=True)
    x = env.real('x')
    eps = env.Q(1, 10 ** 6)
    # the corner is x, y in X .. X + T
    where = {j: X if n0 in ss else env.Q(0) for j, ss in sides.items()}
    owners, length = [], {}
    for sid in names:
        got = [r.interside_chosen[(j, sid)] for j, ss in sides.items()
               if sid in ss]
        if not all(g.is_empty() for g in got):
            owners.append(sid)
    env.check(len(owners) == 1, 'exactly one plate gets the corner')
    own = owners[0]
    env.observe('owner', own)
    extra = 0
    for j, ss in sides.items():
        if own not in ss:
            continue
        a0 = where[j]
        g = r.interside_chosen[(j, own)]
        env.check(len(g.intervals) == 1, 'the corner choice is one finger')
        a, b = g.intervals[0]
        env.check(env.AND(a <= a0, b >= a0 + T),
                  'who gets the corner gets all of it')
        if bool(env.OR(a < a0 - eps, b > a0 + T + eps)):
            extra += 1
            env.check(env.OR(b - a0 - T >= env.Q(3, 2),
                             a0 - a >= env.Q(3, 2)),
                      'the extending finger has a usable size')
        for k in (j, ):
            for sid in ss:
                if sid != own:
                    o = r.interside_ok[(k, sid)].intervals
                    ne = env.AND(*[x != e for iv in o for e in iv])
                    env.check(env.IMPLIES(env.AND(
                        ne, a < x, x < b), env.NOT(in_ivs(env, o, x))),
                        'the decided part is closed to the other plates')
    # held: s0 by what is around the corner, the walls by nothing
    env.check(extra == (0 if own == n0 else 1),
              'a joint is extended if the corner would not be held else')


HARNESSES = [
    H('standing', standing,
      [dict(var='X', lo=9, hi=[19, 2]),
       dict(var='X', lo=9, hi=[19, 2], names=['s2', 's0', 's1'])],
      [dict(var='X', lo=7, hi=12), dict(var='A', lo=16, hi=18),
       dict(var='T', lo=4, hi=7),
       dict(var='C', lo=8, hi=30)],
      bounds='two walls on a larger plate; one size symbolic',
      path_s=400),
    H('corners', corners,
      [dict(var='A', lo=17, hi=18)],
      [dict(var='A', lo=16, hi=30), dict(var='B', lo=16, hi=18, A=20),
       dict(var='C', lo=16, hi=18, A=20), dict(var='A', lo=13, hi=16), dict(var='A', lo=13, hi=17, B=7, C=7)],
      bounds='two corners of a box; one edge length symbolic', path_s=400),
    H('decide', decide,
      [dict(var='A', lo=16, hi=17), dict(var='C', lo=17, hi=19)] +
      [dict(var='B', lo=7, hi=[15, 2], A=16, B=16, C=16),
       dict(var='C', lo=7, hi=[15, 2], A=16, B=16, C=16)],
      [dict(var=v, lo=7, hi=9, A=16, B=16, C=16) for v in 'ABC'] +
      [dict(var='A', lo=16, hi=19), dict(var='B', lo=16, hi=19),
       dict(var='C', lo=16, hi=19), dict(var='A,B,C', lo=16, hi=19), dict(var='T', lo=5, hi=7),
       dict(var='A', lo=17, hi=40, C=30)],
      bounds='corner of a box; one edge length (thorough: all, or the '
             'thickness) symbolic in the range given', path_s=400),
    H('whole', whole, [],
      [dict(var='A', lo=[1295, 100], hi=[1299, 100], B=13, C=13),
       dict(var='A', lo=[129, 10], hi=13, B=13, C=13, mid=False),
       dict(var='B', lo=16, hi=18), dict(var='C', lo=20, hi=21)],
      bounds='the complete process for a box corner, one edge length '
             'symbolic; draws fixed (one configuration: arbitrary)',
      path_s=600),
]
