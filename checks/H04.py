"""Joint possibilities and plate possibilities are kept consistent."""
from symq.runner import H
import pyrsistent as pyr
from plycutter.geometry.geom1d import Geom1D
from plycutter.sheetbuild import SheetBuild
from plycutter import heuristics as heu
from .common import in_ivs, in_rings, on_rings, check_canonical
from .shapes import out_rings
from .model import corner, rect, sheet, plex, interside
from plycutter.sheetplex import Intersection

PROPERTY = 'H04'
LEVEL = 'model_checking'
ASSUMPTIONS = ['positions within 1/50 of a change are left open (the code '
               'widens what it removes by a few thousandths)']
I = 's0,s1'
IDS = [(I, 's0'), (I, 's1')]


def st(env, sp, ok2, ch2, ok1, ch1=((), ())):
    return SheetBuild(
        sheetplex=sp,
        sheet_chosen=pyr.pmap({'s0': ch2[0], 's1': ch2[1]}),
        sheet_ok=pyr.pmap({'s0': ok2[0], 's1': ok2[1]}),
        interside_chosen=pyr.pmap({k: Geom1D(list(ch1[i]))
                                   for i, k in enumerate(IDS)}),
        interside_ok=pyr.pmap({k: Geom1D(list(ok1[i]))
                               for i, k in enumerate(IDS)}))


def same1(env, a, b, x, ends=()):
    ne = env.AND(*[x != e for g in (a, b) for iv in g.intervals for e in iv],
                 *[x != e for e in ends])
    return env.IMPLIES(ne, env.IFF(in_ivs(env, a.intervals, x),
                                   in_ivs(env, b.intervals, x)))


def rest_same(env, sb, r, but, p, x):
    for m in ('sheet_chosen', 'sheet_ok', 'interside_chosen',
              'interside_ok'):
        a, b = getattr(sb, m), getattr(r, m)
        env.check(set(a.keys()) == set(b.keys()), 'no entry is lost')
        for k in a.keys():
            if (m, k) in but or a[k] is b[k]:
                continue
            if m.startswith('inter'):
                env.check(same1(env, a[k], b[k], x),
                          'everything else stays as it was')
            else:
                ra, rb = out_rings(a[k]), out_rings(b[k])
                env.check(env.IMPLIES(env.NOT(on_rings(env, ra + rb, p)),
                                      env.IFF(in_rings(env, ra, p),
                                              in_rings(env, rb, p))),
                          'everything else stays as it was')


def irrelevant(env, side, lo, hi, w=None, opp=None):
    """Beside the joint the plate has material only along a..b (opp: from
    lo on; the other side is possible up to an arbitrary place in opp)."""
    Q = env.Q
    a = env.real('a', lo, hi) if opp is None else Q(lo)
    c = Q(20) if opp is None else env.real('c', *opp)
    b = a + w if w is not None else env.real('b', lo, hi)
    if w is None:
        env.assume(a < b)
    part = rect(env, 0, 0, 6, 20) | rect(env, 6, a, 30, b)
    whole = rect(env, 0, 0, 30, 20)
    ss = [sheet(env, 's%d' % i, whole, whole, part if i == side else whole)
          for i in range(2)]
    sp = plex(ss, [Intersection(id=I, sides=(
        interside(env, I, 's0', 0, (0, 1)),
        interside(env, I, 's1', 1, (0, 1))))])
    body = rect(env, 6, 0, 30, 20)
    op = [[(Q(0), Q(20))], [(Q(0), c)]]
    sb = st(env, sp, (whole, whole), (body, body), op if side == 0 else
            op[::-1])
    r = heu.choose_obviously_irrelevant(sb)
    x = env.real('x')
    p = (env.real('px'), env.real('py'))
    rest_same(env, sb, r, [('interside_ok', IDS[side])], p, x)
    g = r.interside_ok[IDS[side]]
    check_canonical(env, g)
    e = Q(1, 50)
    got = in_ivs(env, g.intervals, x)
    ne = env.AND(*[x != v for iv in g.intervals for v in iv])
    env.check(env.IMPLIES(env.AND(ne, a < x, x < b, 0 < x, x < 20), got),
              'a side with material beside the joint stays possible')
    if opp is not None:
        env.check(env.IMPLIES(env.AND(ne, c < x, x < 20), got),
                  'what is possible for one side only stays possible')
    env.check(env.IMPLIES(env.AND(ne, x < c, env.OR(x < a - e, x > b + e)),
                          env.NOT(got)),
              'a side with nothing beside the joint is excluded')


def loose(env, lo, hi, kind, swap=False):
    """A block of possible material at an arbitrary place."""
    Q = env.Q
    t = env.real('t', lo, hi)
    sp = corner(env)
    if swap:        # the other face is the smaller one
        sp = sp.set('sheets', sp.sheets.set('s0', sp.sheets['s0'].set(
            'faces', list(reversed(sp.sheets['s0'].faces)))))
    body = rect(env, 6, 0, 30, 20)
    if kind == 'x':      # slides away from the solid part
        blk = rect(env, t, 4, t + 2, 8)
        touch = env.AND(t + 2 > 6, t < 30)
    elif kind in ('y', 'two'):    # a loose block and a fixed bridge to the body
        blk = rect(env, 1, t, 3, t + 3)
        touch = env.AND(t < 12, t + 3 > 10)
    else:                # a corner touch
        blk = rect(env, t, 20, t + 3, 24)
        touch = None
    ok = body | blk
    if kind in ('y', 'two'):
        ok = ok | rect(env, 2, 10, 6, 12)
    other = None
    if kind == 'two':    # another loose block
        other = rect(env, 1, 14, 3, 16)
        ok = ok | other
    if kind == 'many':
        blk = rect(env, t, 4, t + 2, 8)
        ok = body | blk
        other = rect(env, 40, 0, 41, 1)
        for i in range(1, 14):
            other = other | rect(env, 40, 2 * i, 41, 2 * i + 1)
        ok = ok | other
        touch = True
    sb = st(env, sp, (ok, body), (body, body), ([(Q(0), Q(20))],) * 2)
    r = heu.remove_loose(sb)
    x = env.real('x')
    p = (env.real('px'), env.real('py'))
    rest_same(env, sb, r, [('sheet_ok', 's0')], p, x)
    ro, rn, rb = [out_rings(z) for z in (ok, r.sheet_ok['s0'], blk)]
    off = env.NOT(on_rings(env, ro + rn + rb, p))
    was, now = in_rings(env, ro, p), in_rings(env, rn, p)
    inb = in_rings(env, rb, p)
    env.check(env.IMPLIES(off, env.IMPLIES(now, was)),
              'no possibility is added')
    keep = env.NOT(inb)
    if other is not None:
        keep = env.AND(keep, env.NOT(in_rings(env, out_rings(other), p)))
        off = env.AND(off, env.NOT(on_rings(env, out_rings(other), p)))
    env.check(env.IMPLIES(env.AND(off, was, keep), now),
              'what hangs together with the solid part stays')
    if touch is not None:
        if kind in ('x', 'many'):
            # blocks sharing a border hang together
            loose_ = env.OR(t + 2 < 6, t > 30)
            stick = env.AND(t + 2 >= 6, t <= 28)
        else:
            loose_ = env.OR(t + 3 < 10, t > 12)
            stick = touch
            if kind == 'two':
                loose_ = env.AND(loose_, env.OR(t + 3 < 14, t > 16))
                inb_o = in_rings(env, out_rings(other), p)
                env.check(env.IMPLIES(env.AND(off, inb_o, t + 3 < 14),
                                      env.NOT(now)),
                          'every block not connected is removed')
        if kind == 'many':
            inb_o = in_rings(env, out_rings(other), p)
            env.check(env.IMPLIES(env.AND(off, inb_o), env.NOT(now)),
                      'every block not connected is removed')
        env.check(env.IMPLIES(env.AND(off, inb, stick), now),
                  'a block connected to the solid part stays')
        env.check(env.IMPLIES(env.AND(off, inb, loose_), env.NOT(now)),
                  'a block not connected to the solid part is removed')


def joint_ok(env, side, across, lo=1, hi=19, w=None):
    """The plate cannot have material in the strip at a..b (across 0..c)."""
    Q = env.Q
    a = env.real('a', lo, hi)
    if w is None:
        b = env.real('b', lo, hi)
        env.assume(a < b)
    else:
        b = a + w
    sp = corner(env)
    body = rect(env, 6, 0, 30, 20)
    whole = rect(env, 0, 0, 30, 20)
    cut = whole - rect(env, 0, a, across, b)
    ok2 = [whole, whole]
    ok2[side] = cut
    op = [(Q(0), Q(20))]
    sb = st(env, sp, ok2, (body, body), (op, op))
    r = heu.update_intersection_ok(sb)
    x = env.real('x')
    p = (env.real('px'), env.real('py'))
    rest_same(env, sb, r, [('interside_ok', IDS[0]),
                           ('interside_ok', IDS[1])], p, x)
    e = Q(1, 50)
    for i in range(2):
        g = r.interside_ok[IDS[i]]
        check_canonical(env, g)
        got = in_ivs(env, g.intervals, x)
        ne = env.AND(*[x != v for iv in g.intervals for v in iv])
        inner = env.AND(e < x, x < 20 - e)
        if i == side and across >= 6:
            env.check(env.IMPLIES(env.AND(ne, a < x, x < b), env.NOT(got)),
                      'a joint position without possible material is '
                      'excluded')
            env.check(env.IMPLIES(
                env.AND(ne, inner, env.OR(x < a - e, x > b + e)), got),
                'a joint position with possible material stays possible')
        else:
            env.check(env.IMPLIES(env.AND(ne, inner), got),
                      'a joint position with possible material stays '
                      'possible')
        env.check(env.IMPLIES(env.AND(ne, got), env.AND(0 < x, x < 20)),
                  'no joint position becomes possible')


def many_ok(env, n, last=True):
    """n joints of s0; the plates at their other ends cannot have material in
    the strip at a..a+4 (last: only the last of them)."""
    Q = env.Q
    a = env.real('a', 3, 13)
    part = rect(env, 6, 0, 30, 20)
    whole = rect(env, 0, 0, 30, 20)
    names = ['s%d' % i for i in range(n + 1)]
    sp = plex([sheet(env, k, whole, part, whole) for k in names],
              [Intersection(id='s0,' + k, sides=(
                  interside(env, 's0,' + k, 's0', 0, (0, 1)),
                  interside(env, 's0,' + k, k, 1, (0, 1))))
               for k in names[1:]])
    cut = whole - rect(env, 0, a, 6, a + 4)
    hit = names[-1:] if last else names[1:]
    op = Geom1D([(Q(0), Q(20))])
    ids = [s.id for i in sp.intersections.values() for s in i.sides]
    sb = SheetBuild(
        sheetplex=sp, sheet_chosen=pyr.pmap({k: part for k in names}),
        sheet_ok=pyr.pmap({k: cut if k in hit else whole for k in names}),
        interside_chosen=pyr.pmap({k: Geom1D([]) for k in ids}),
        interside_ok=pyr.pmap({k: op for k in ids}))
    r = heu.update_intersection_ok(sb)
    x = env.real('x')
    e = Q(1, 50)
    for k in ids:
        g = r.interside_ok[k]
        ne = env.AND(*[x != v for iv in g.intervals for v in iv])
        got = in_ivs(env, g.intervals, x)
        inner = env.AND(e < x, x < 20 - e)
        if k[1] in hit:
            env.check(env.IMPLIES(env.AND(ne, a < x, x < a + 4),
                                  env.NOT(got)),
                      'a joint position without possible material is '
                      'excluded')
            inner = env.AND(inner, env.OR(x < a - e, x > a + 4 + e))
        env.check(env.IMPLIES(env.AND(ne, inner), got),
                  'a joint position with possible material stays possible')


def sheet_ok(env, side, w=None, lo=1, hi=19, both=False):
    """The side is excluded at a..b (both: the other side as well)."""
    Q = env.Q
    a = env.real('a', lo, hi)
    b = a + w
    sp = corner(env)
    body = rect(env, 6, 0, 30, 20)
    whole = rect(env, 0, 0, 30, 20)
    op = [(Q(0), Q(20))]
    cut = [(Q(0), a), (b, Q(20))]
    ok1 = [op, op]
    ok1[side] = cut
    if both:
        ok1[1 - side] = cut
    sb = st(env, sp, (whole, whole), (body, body), ok1)
    r = heu.update_sheet_ok(sb)
    x = env.real('x')
    p = (env.real('px'), env.real('py'))
    rest_same(env, sb, r, [('sheet_ok', 's0'), ('sheet_ok', 's1')], p, x)
    e = Q(1, 50)
    for i in range(2):
        rn = out_rings(r.sheet_ok['s%d' % i])
        off = env.AND(env.NOT(on_rings(env, rn, p)), p[0] != 6)
        now = in_rings(env, rn, p)
        was = env.AND(0 < p[0], p[0] < 30, 0 < p[1], p[1] < 20)
        env.check(env.IMPLIES(env.AND(off, now), was),
                  'no possibility is added')
        if i == side and not both:
            env.check(env.IMPLIES(env.AND(off, was, p[0] < 6, a < p[1],
                                          p[1] < b), env.NOT(now)),
                      'material is impossible where its side is excluded')
            env.check(env.IMPLIES(env.AND(off, was, env.OR(
                p[0] > 6, p[1] < a - e, p[1] > b + e)), now),
                'other material stays possible')
        else:
            env.check(env.IMPLIES(env.AND(off, was), now),
                      'other material stays possible')


HARNESSES = [
    H('irrelevant', irrelevant,
      [dict(side=0, lo=3, hi=12, w=5), dict(side=1, lo=-1, hi=1, w=3),
       dict(side=0, lo=4, hi=4, w=5, opp=[11, 18])],
      [dict(side=1, lo=-2, hi=22, w=3), dict(side=1, lo=-4, hi=24, w=8),
       dict(side=0, lo=1, hi=19), dict(side=1, lo=2, hi=2, w=9, opp=[1, 19])],
      bounds='material beside the joint along any range (quick: of given '
             'length); the other side possible up to an arbitrary place', path_s=120),
    H('loose', loose,
      [dict(lo=-4, hi=32, kind='x'), dict(lo=-5, hi=22, kind='y'),
       dict(lo=13, hi=20, kind='two'),
       dict(lo=-4, hi=8, kind='x', swap=True),
       dict(lo=2, hi=7, kind='many')],
      [dict(lo=-5, hi=22, kind='two')],
      bounds='a block of possible material at any place along a line, '
             'up to 14 other loose blocks'),
    H('joint_ok', joint_ok,
      [dict(side=0, across=6, w=4, hi=15), dict(side=1, across=6, w=2, hi=17),
       dict(side=0, across=4, w=4, hi=15)],
      [dict(side=0, across=6), dict(side=1, across=7, lo=-3, hi=23, w=3)],
      bounds='impossible material in any range of the strip'),
    H('many_ok', many_ok, [dict(n=8), dict(n=3, last=False)],
      bounds='up to eight joints of one plate, impossible material at any '
             'place of the strips'),
    H('sheet_ok', sheet_ok,
      [dict(side=0, w=4, hi=15), dict(side=1, w=3, hi=16),
       dict(side=0, w=4, hi=15, both=True)],
      [dict(side=1, w=12, lo=1, hi=7)],
      bounds='a side excluded in any range of given length'),
]
