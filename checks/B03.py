"""The self-check refuses contradictory states and accepts sound ones."""
from symq.runner import H
import pyrsistent as pyr
from plycutter.geometry.geom1d import Geom1D
from plycutter import sheetbuild
from plycutter.sheetbuild import SheetBuild
from .model import corner, rect

PROPERTY = 'B03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['one joint between two plates']
I = 's0,s1'
IDS = [(I, 's0'), (I, 's1')]
DEF = dict(c0=8, k0=12, c1=12, k1=8, f0=8, g0=12, f1=12, g1=8)


def g1(lo, hi):
    return Geom1D([(lo, hi)] if lo < hi else [])


def audit(env, sym, lo=1, hi=19, flip=False):
    """Side 0 has chosen 0..c0 and may choose 0..k0, its plate has fingers in
    0..f0 and may have material in 0..g0; side 1 likewise downwards from
    20."""
    v = {k: env.Q(x) for k, x in DEF.items()}
    for k in sym:
        v[k] = env.real(k, lo, hi)
    sp = corner(env)
    body = rect(env, 6, 0, 30, 20)
    Q = env.Q
    z, top = Q(0), Q(20)
    c = [g1(z, v['c0']), g1(v['c1'], top)]
    k = [g1(z, v['k0']), g1(v['k1'], top)]
    f = [g1(z, v['f0']), g1(v['f1'], top)]
    g = [g1(z, v['g0']), g1(v['g1'], top)]
    a, b = (1, 0) if flip else (0, 1)
    s = [sp.interside(i) for i in IDS]
    sb = SheetBuild(
        sheetplex=sp,
        sheet_chosen=pyr.pmap({'s0': body | s[0].make_fingers(f[a]),
                               's1': body | s[1].make_fingers(f[b])}),
        sheet_ok=pyr.pmap({'s0': body | s[0].make_fingers(g[a]),
                           's1': body | s[1].make_fingers(g[b])}),
        interside_chosen=pyr.pmap({IDS[0]: c[a], IDS[1]: c[b]}),
        interside_ok=pyr.pmap({IDS[0]: k[a], IDS[1]: k[b]}))
    # amounts of each contradiction (<= 0: none)
    bad = [v['c0'] - v['k0'], v['k1'] - v['c1'],      # chosen, not possible
           v['c0'] - v['k1'], v['k0'] - v['c1'],      # chosen, other may too
           v['f0'] - v['g0'], v['g1'] - v['f1'],      # material not possible
           v['f0'] - v['k1'], v['k0'] - v['f1']]      # material, other may
    try:
        sb.check(force=True)
        good = True
    except AssertionError:
        good = False
    env.observe('good', good)
    slack = Q(1, 1000)
    if good:
        env.check(env.AND(*[x <= slack for x in bad]),
                  'a contradictory state is refused')
    else:
        env.check(env.OR(*[x > 0 for x in bad]), 'a sound state is accepted')


def regular(env, side):
    """Checks that are not forced are left out sometimes, but not longer than
    the stated interval."""
    v = env.real('over', [1, 2], 6)
    sp = corner(env)
    body = rect(env, 6, 0, 30, 20)
    z, top = env.Q(0), env.Q(20)
    s = [sp.interside(i) for i in IDS]

    def build(c0):
        a, b = (g1(z, c0), g1(z, env.Q(10))), (g1(env.Q(10), top),) * 2
        if side:
            a, b = b, a
        return SheetBuild(
            sheetplex=sp,
            sheet_chosen=pyr.pmap({'s0': body, 's1': body}),
            sheet_ok=pyr.pmap({'s0': body | s[0].make_fingers(a[1]),
                               's1': body | s[1].make_fingers(b[1])}),
            interside_chosen=pyr.pmap({IDS[0]: a[0], IDS[1]: b[0]}),
            interside_ok=pyr.pmap({IDS[0]: a[1], IDS[1]: b[1]}))
    good, bad = build(env.Q(10) - v), build(env.Q(10) + v)
    good.check(force=True)
    for _ in range(env.choice('earlier', 3)):
        good.check()
    done = False
    for _ in range(sheetbuild.check_interval + 1):
        try:
            bad.check()
        except AssertionError:
            done = True
            break
    env.check(done, 'a contradictory state is refused within the interval '
              'of the checks')
    for _ in range(sheetbuild.check_interval + 1):
        good.check()


HARNESSES = [
    H('regular', regular, [dict(side=0)], [dict(side=1)],
      bounds='an arbitrary contradiction, as many unforced checks as the '
             'interval says'),
    H('audit', audit,
      [dict(sym=[k]) for k in DEF] +
      [dict(sym=['c0'], flip=True), dict(sym=['f0'], flip=True),
       dict(sym=['c0', 'k0'])],
      [dict(sym=['k0', 'k1']), dict(sym=['c1', 'c0']),
       dict(sym=['f0', 'g0']), dict(sym=['f0', 'k1'])] +
      [dict(sym=[k], flip=True) for k in DEF],
      bounds='each of the eight range ends of a one-joint state arbitrary, '
             'one (some pairs) at a time; both sides'),
]
