"""Choosing and unchoosing parts of a joint update exactly what they must."""
from symq.runner import H
import pyrsistent as pyr
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D
from plycutter.sheetbuild import SheetBuild
from .common import in_ivs, not_end, in_rings, on_rings
from .shapes import out_rings
from .model import corner, rect

PROPERTY = 'B02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['one joint between two plates; the joint coordinates are '
               'arbitrary, the plate outlines are given']
I = 's0,s1'
IDS = [(I, 's0'), (I, 's1')]


def g1(env, ivs):
    return Geom1D([(env.Q(a) if isinstance(a, int) else a,
                    env.Q(b) if isinstance(b, int) else b) for a, b in ivs])


def state(env, ok0, ok1, ch0=(), ch1=(), T=6, notch=None):
    sp = corner(env, T=T)
    body = rect(env, T, 0, 30, 20)
    s = [sp.interside(k) for k in IDS]
    c0, c1 = g1(env, ch0), g1(env, ch1)
    k0, k1 = g1(env, ok0), g1(env, ok1)
    full = rect(env, 0, 0, 30, 20)
    # notch: a part of the joint where the first plate has no material
    full = [full - rect(env, *notch) if notch else full, full]
    return SheetBuild(
        sheetplex=sp,
        sheet_chosen=pyr.pmap({'s0': body | s[0].make_fingers(c0),
                               's1': body | s[1].make_fingers(c1)}),
        sheet_ok=pyr.pmap({'s0': full[0] - s[0].make_fingers(c1),
                           's1': full[1] - s[1].make_fingers(c0)}),
        interside_chosen=pyr.pmap({IDS[0]: c0, IDS[1]: c1}),
        interside_ok=pyr.pmap({IDS[0]: k0, IDS[1]: k1}))


def strip(x, T=6):
    return lambda env, p: env.AND(0 < p[0], p[0] < T)


def same2(env, a, b, p, label):
    ra, rb = out_rings(a), out_rings(b)
    env.check(env.IMPLIES(env.NOT(on_rings(env, ra + rb, p)),
                          env.IFF(in_rings(env, ra, p),
                                  in_rings(env, rb, p))), label)


def point1(env, geoms, extra):
    """A query coordinate off all range ends."""
    x = env.real('x')
    ivs = [iv for g in geoms for iv in g.intervals] + list(extra)
    return x, not_end(env, ivs, x)


def unchanged(env, old, new, keys, what):
    """The maps new and old are equal except at the given (map, key)s."""
    for m in ('sheet_chosen', 'sheet_ok', 'interside_chosen',
              'interside_ok'):
        a, b = getattr(old, m), getattr(new, m)
        env.check(set(a.keys()) == set(b.keys()), 'no entry is lost or added')
        for k in a.keys():
            if (m, k) in keys:
                continue
            if a[k] is b[k]:
                continue
            if m.startswith('sheet'):
                same2(env, a[k], b[k], (env.real('ux'), env.real('uy')),
                      what + ': everything else stays as it was')
            else:
                x, ne = point1(env, [a[k], b[k]], [])
                env.check(env.IMPLIES(ne, env.IFF(
                    in_ivs(env, a[k].intervals, x),
                    in_ivs(env, b[k].intervals, x))),
                    what + ': everything else stays as it was')
    env.check(new.sheetplex is old.sheetplex, 'the model stays the same')


def snapshot(sb):
    return (sb.sheetplex, {m: dict(getattr(sb, m)) for m in (
        'sheet_chosen', 'sheet_ok', 'interside_chosen', 'interside_ok')},
        {k: [list(i) for i in v.intervals]
         for m in ('interside_chosen', 'interside_ok')
         for k, v in getattr(sb, m).items() for k in [(m, k)]})


def check_snapshot(env, sb, snap):
    env.check(sb.sheetplex is snap[0] and all(
        dict(getattr(sb, m)).keys() == d.keys() and
        all(getattr(sb, m)[k] is v for k, v in d.items())
        for m, d in snap[1].items()),
        'the earlier state is not modified')
    for (m, k), ivs in snap[2].items():
        now = [list(i) for i in getattr(sb, m)[k].intervals]
        env.check(len(now) == len(ivs), 'the earlier state is not modified')
        env.check(env.AND(*[env.AND(a[0] == b[0], a[1] == b[1])
                            for a, b in zip(now, ivs)]),
                  'the earlier state is not modified')


def sub_range(env, lo, hi, w=None, name='v'):
    """An arbitrary range; w: of this length; [x]: ending at x."""
    a = env.real(name + 'a', lo, hi)
    if isinstance(w, list):
        b = env.Q(w[0])
        env.assume(a < b)
    elif w:
        b = a + w
        env.assume(b <= hi)
    else:
        b = env.real(name + 'b', lo, hi)
        env.assume(a < b)
    return a, b


def choose(env, side, ch0, ch1, ok0, ok1, within, tentative=False,
           sym_state=False, w=None, notch=None):
    """Choose an arbitrary range within a given available one."""
    if sym_state:
        # the other side's earlier choice is anywhere above
        m = env.real('m', 10, 12)
        ch1, ok0, ok1 = [(m, 18)], [(0, m), (18, 20)], [(0, 20)]
    sb = state(env, ok0, ok1, ch0, ch1, notch=notch)
    snap = snapshot(sb)
    a, b = sub_range(env, *within, w)
    me, other = IDS[side], IDS[1 - side]
    mid, oid = 's%d' % side, 's%d' % (1 - side)
    if tentative:
        r = sb.choose_interside(me, Geom1D([(a, b)]), tentative=True)
    else:
        r = sb.choose_interside(me, Geom1D([(a, b)]))
    check_snapshot(env, sb, snap)
    keys = [('interside_chosen', me), ('interside_ok', other),
            ('sheet_ok', oid)] + ([] if tentative else
                                  [('sheet_chosen', mid)])
    unchanged(env, sb, r, keys, 'choosing')
    # 1-D
    x, ne = point1(env, [sb.interside_chosen[me], sb.interside_ok[other],
                         r.interside_chosen[me], r.interside_ok[other]],
                   [(a, b)])
    inv = env.AND(a < x, x < b)
    env.check(env.IMPLIES(ne, env.IFF(
        in_ivs(env, r.interside_chosen[me].intervals, x),
        env.OR(inv, in_ivs(env, sb.interside_chosen[me].intervals, x)))),
        'the chosen range is added to the side\'s choices')
    env.check(env.IMPLIES(ne, env.IFF(
        in_ivs(env, r.interside_ok[other].intervals, x),
        env.AND(env.NOT(inv),
                in_ivs(env, sb.interside_ok[other].intervals, x)))),
        'the chosen range is no longer available to the other side')
    # 2-D; both joint strips are 0 < x < 6, along y
    p = (env.real('px'), env.real('py'))
    infing = env.AND(0 < p[0], p[0] < 6, a < p[1], p[1] < b)
    offf = env.AND(p[0] != 0, p[0] != 6, p[1] != a, p[1] != b)
    for key, want in (
            (('sheet_chosen', mid), lambda o, ok: env.OR(
                o, env.AND(infing, ok))),
            (('sheet_ok', oid), lambda o, ok: env.AND(
                o, env.NOT(infing)))):
        if key not in keys:
            continue
        m, k = key
        old, new = out_rings(getattr(sb, m)[k]), out_rings(getattr(r, m)[k])
        okr = out_rings(sb.sheet_ok[mid])
        on = env.OR(on_rings(env, old + new + okr, p), env.NOT(offf))
        env.check(env.IMPLIES(env.NOT(on), env.IFF(
            in_rings(env, new, p),
            want(in_rings(env, old, p), in_rings(env, okr, p)))),
            'the fingers are added to this plate' if m == 'sheet_chosen'
            else 'the other plate cannot have material there any more')
    if not tentative:
        r._check()


def many(env, side, w, tentative=False):
    """Choosing for several joint sides at once is choosing for one after
    the other."""
    sb = state(env, [(0, 20)], [(0, 20)])
    snap = snapshot(sb)
    a, b = sub_range(env, 0, 8, w)
    c, d = env.Q(10), env.Q(14)
    me, other = IDS[side], IDS[1 - side]
    k = dict(tentative=True) if tentative else {}
    r = sb.choose_intersides({me: Geom1D([(a, b)]),
                              other: Geom1D([(c, d)])}, **k)
    check_snapshot(env, sb, snap)
    s = sb.choose_interside(me, Geom1D([(a, b)]), **k)
    s = s.choose_interside(other, Geom1D([(c, d)]), **k)
    unchanged(env, s, r, [], 'choosing several')
    env.check(sb.choose_intersides({}) is sb or
              all(dict(getattr(sb, m)) == dict(getattr(
                  sb.choose_intersides({}), m))
                  for m in ('sheet_chosen', 'sheet_ok')),
              'choosing nothing changes nothing')


def unchoose(env, side, ch0, ch1, ok0, ok1, within, twice=False):
    sb = state(env, ok0, ok1, ch0, ch1)
    snap = snapshot(sb)
    a, b = sub_range(env, *within)
    me = IDS[side]
    rng = [(a, b)]
    if twice:
        r = sb.unchoose_intersides({IDS[0]: Geom1D([(a, b)]),
                                    IDS[1]: Geom1D([(a, b)])})
        ks = IDS
    else:
        r = sb.unchoose_interside(me, Geom1D(rng))
        ks = [me]
    check_snapshot(env, sb, snap)
    unchanged(env, sb, r, [('interside_ok', k) for k in ks], 'excluding')
    for k in ks:
        x, ne = point1(env, [sb.interside_ok[k], r.interside_ok[k]], rng)
        env.check(env.IMPLIES(ne, env.IFF(
            in_ivs(env, r.interside_ok[k].intervals, x),
            env.AND(env.NOT(env.AND(a < x, x < b)),
                    in_ivs(env, sb.interside_ok[k].intervals, x)))),
            'exactly the given range stops being available')


def area(env, vert, w=None):
    """Excluding part of a plate."""
    sb = state(env, [(0, 20)], [(0, 20)])
    snap = snapshot(sb)
    a, b = sub_range(env, 0, 20 if vert else 6, w)
    if vert:
        cut = Geom2D.rectangle(env.Q(1), a, env.Q(6), b)
    else:
        cut = Geom2D.rectangle(a, env.Q(3), b, env.Q(7))
    r = sb.unchoose_sheet_area('s0', cut)
    check_snapshot(env, sb, snap)
    unchanged(env, sb, r, [('sheet_ok', 's0')], 'excluding an area')
    p = (env.real('px'), env.real('py'))
    old, new, c = [out_rings(z) for z in
                   (sb.sheet_ok['s0'], r.sheet_ok['s0'], cut)]
    env.check(env.IMPLIES(env.NOT(on_rings(env, old + new + c, p)),
                          env.IFF(in_rings(env, new, p),
                                  env.AND(in_rings(env, old, p),
                                          env.NOT(in_rings(env, c, p))))),
              'exactly the given area stops being available')


def refuse(env, what, w=None):
    """Choices that contradict earlier ones are refused."""
    # s0 has chosen [0, 8]; s1 has chosen [12, 20]; 8..12 is open
    sb = state(env, [(0, 12)], [(8, 20)], [(0, 8)], [(12, 20)])
    snap = snapshot(sb)
    a, b = sub_range(env, 0, 20, w)
    v = Geom1D([(a, b)])
    done = True
    try:
        if what == 'choose':
            sb.choose_interside(IDS[0], v)
        elif what == 'choose_many':
            sb.choose_intersides({IDS[1]: v})
        elif what == 'unchoose':
            sb.unchoose_interside(IDS[0], v)
        else:
            sb.unchoose_sheet_area('s0', Geom2D.rectangle(
                env.Q(0), a, env.Q(6), b))
    except AssertionError:
        done = False
    # length of the contradiction
    if what == 'choose':
        bad = b - (a if a > 12 else 12)
    else:
        bad = (b if b < 8 else 8) - a
    check_snapshot(env, sb, snap)
    env.observe('done', done)
    slack = env.Q(1, 10000)
    if done:
        env.check(bad <= slack,
                  'a choice that contradicts an earlier one is refused')
    else:
        env.check(bad > 0, 'a possible choice is not refused')


def c(side, within, ch0=(), ch1=(), ok0=((0, 20),), ok1=((0, 20),), **k):
    return dict(side=side, within=list(within), ch0=list(ch0),
                ch1=list(ch1), ok0=list(ok0), ok1=list(ok1), **k)


MIX = dict(ch0=[(0, 4)], ch1=[(10, 14)], ok0=[(0, 10), (14, 20)],
           ok1=[(4, 20)])
HARNESSES = [
    H('choose', choose,
      [c(0, (0, 20), w=5), c(1, (4, 20), w=5, **MIX),
       c(1, (4, 10), w=[10], **MIX),
       c(0, (0, 10), w=2, **MIX), c(1, (0, 20), tentative=True, w=3),
       c(0, (7, 8), sym_state=True, w=[8]),
       c(0, (7, 18), w=2, notch=(0, 9, 3, 11))],
      [c(0, (5, 20), w=3, notch=(0, 9, 3, 11)),
       c(1, (5, 20), w=3, notch=(2, 9, 6, 11)),
       c(0, (0, 10), sym_state=True, w=[8]), c(0, (0, 10), **MIX), c(1, (0, 20)), c(0, (0, 20)), c(0, (14, 20), **MIX),
       c(1, (4, 20), **MIX), c(0, (0, 20), tentative=True),
       c(0, (0, 10), sym_state=True)],
      bounds='an arbitrary range (quick: mostly of one length or with one '
             'end given) chosen in given states of one joint: free; partly '
             'chosen by both sides; the other side\'s choice anywhere',
      path_s=120),
    H('many', many, [dict(side=0, w=3)],
      [dict(side=1, w=3), dict(side=0, w=3, tentative=True)],
      bounds='an arbitrary range of one length for one side and a given one '
             'for the other'),
    H('unchoose', unchoose,
      [c(0, (0, 20)), c(1, (0, 20), twice=True), c(1, (0, 10), **MIX)],
      [c(0, (4, 20), **MIX)],
      bounds='an arbitrary range excluded in given states'),
    H('area', area, [dict(vert=True, w=4), dict(vert=False)],
      [dict(vert=True)],
      bounds='an arbitrary rectangle of the joint strip (quick: of one '
             'length)'),
    H('refuse', refuse, [dict(what=w, w=l) for w, l in (
        ('choose', 3), ('choose_many', 4), ('choose', [13]), ('unchoose', None),
        ('area', 2))],
      [dict(what=w) for w in ('choose', 'choose_many', 'area')],
      bounds='an arbitrary range in a state where both sides have chosen '
             '(quick: of one length or with one end given)'),
]
