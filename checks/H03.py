"""Positions possible for one plate only are given to that plate."""
from symq.runner import H
import pyrsistent as pyr
from plycutter.geometry.geom1d import Geom1D
from plycutter.sheetbuild import SheetBuild
from plycutter import heuristics as heu
from .common import in_ivs, canon_ivs, check_canonical
from .model import ghost_plex

PROPERTY = 'H03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the joint takes up no area on the plates here: what a choice '
               'means for the plates is B02']


def ivs(env, spec, v):
    """[["a", 4], [6, "b"]] with names taken from v."""
    out = []
    for lo, hi in spec:
        lo, hi = [v[e] if isinstance(e, str) else env.Q(e) for e in (lo, hi)]
        if lo < hi:
            out.append((lo, hi))
    return out


def state(env, sp, per):
    body = sp.sheets['s0'].slices_max
    names = list(sp.sheets.keys())
    return SheetBuild(
        sheetplex=sp,
        sheet_chosen=pyr.pmap({k: body for k in names}),
        sheet_ok=pyr.pmap({k: body for k in names}),
        interside_chosen=pyr.pmap({k: Geom1D(c) for k, (o, c) in
                                   per.items()}),
        interside_ok=pyr.pmap({k: Geom1D(o) for k, (o, c) in per.items()}))


def only(env, sym, ok0, ok1, ch0=(), ch1=(), joints=1, order=()):
    v = {k: env.real(k, 0, 20) for k in sym}
    for a, b in order:
        env.assume(v.get(a, a) <= v.get(b, b))
    sp = ghost_plex(env, tuple((0, n + 1) for n in range(joints)))
    per = {}
    spec = [(ok0, ch0), (ok1, ch1)]
    for n, (i, inter) in enumerate(sorted(sp.intersections.items())):
        for side, (o, c) in zip(inter.sides, spec if n == 0 else
                                [([(0, 10)], []), ([(4, 20)], [])]):
            per[side.id] = (ivs(env, o, v), ivs(env, c, v))
    sb = state(env, sp, per)
    r = heu.choose_the_ok_side(sb, {})
    env.check(r.sheetplex is sp, 'the model stays the same')
    x = env.real('x')
    for inter in sp.intersections.values():
        ids = [s.id for s in inter.sides]
        ends = []
        for k in ids:
            check_canonical(env, r.interside_ok[k])
            check_canonical(env, r.interside_chosen[k])
            for g in (r.interside_ok[k], r.interside_chosen[k],
                      sb.interside_ok[k], sb.interside_chosen[k]):
                ends += [e for iv in g.intervals for e in iv]
        ne = env.AND(*[x != e for e in ends])
        O = [in_ivs(env, sb.interside_ok[k].intervals, x) for k in ids]
        C = [in_ivs(env, sb.interside_chosen[k].intervals, x) for k in ids]
        o = [in_ivs(env, r.interside_ok[k].intervals, x) for k in ids]
        c = [in_ivs(env, r.interside_chosen[k].intervals, x) for k in ids]
        for i in range(2):
            j = 1 - i
            env.check(env.IMPLIES(env.AND(ne, C[i]), c[i]),
                      'earlier choices stay')
            this = env.AND(O[i], env.NOT(C[i]), env.NOT(O[j]),
                           env.NOT(C[j]))
            env.check(env.IMPLIES(env.AND(ne, c[i], env.NOT(C[i])), this),
                      'only what is impossible for the other side is chosen')
            # how long is the one-sided range around x?
            g = (sb.interside_ok[ids[i]] - sb.interside_chosen[ids[i]]
                 - sb.interside_ok[ids[j]] - sb.interside_chosen[ids[j]])
            long_ = env.OR(*[env.AND(a < x, x < b, b - a > env.Q(1, 50))
                             for a, b in g.intervals])
            short = env.OR(*[env.AND(a < x, x < b, b - a <= env.Q(1, 50))
                             for a, b in g.intervals])
            env.check(env.IMPLIES(env.AND(ne, long_), c[i]),
                      'one-sided ranges are given to that side')
            env.check(env.IMPLIES(env.AND(ne, short),
                                  env.AND(env.NOT(c[i]), env.NOT(o[i]))),
                      'tiny one-sided ranges are given up')
            env.check(env.IMPLIES(ne, env.IFF(
                o[i], env.AND(O[i], env.NOT(short)))),
                'possibilities stay as they are otherwise')
        env.check(env.IMPLIES(ne, env.IFF(
            env.AND(o[0], env.NOT(c[0])), env.AND(o[1], env.NOT(c[1])))),
            'what is left open is open to both sides')


HARNESSES = [
    H('only', only,
      [dict(sym=['a', 'b'], ok0=[(0, 'a')], ok1=[('b', 20)]),
       dict(sym=['a', 'b'], ok0=[('a', 'b')], ok1=[(0, 20)]),
       dict(sym=['a', 'b'], ok0=[(0, 'a'), ('b', 20)], ok1=[(5, 15)],
            order=[('a', 'b')]),
       dict(sym=['a', 'b', 'c'], ok0=[(0, 'a')], ch0=[(0, 'b')],
            ok1=[('c', 20)], order=[('b', 'a'), ('b', 'c')]),
       dict(sym=['a', 'b', 'c'], ok0=[(0, 'b')], ch1=[('c', 20)],
            ok1=[('a', 20)], order=[('b', 'c'), ('a', 'c')]),
       dict(sym=['a'], ok0=[(0, 'a')], ok1=[(5, 20)], joints=2),
       dict(sym=['a'], ok0=[(0, 'a')], ok1=[(5, 20)], joints=14)],
      [dict(sym=['a', 'b', 'c', 'd'], ok0=[(0, 'a'), ('b', 20)],
            ok1=[('c', 'd')], order=[('a', 'b'), ('c', 'd')]),
       dict(sym=['a', 'b', 'c', 'd'], ok0=[(0, 'b')], ch0=[(0, 'a')],
            ok1=[('c', 20)], ch1=[('d', 20)],
            order=[('a', 'b'), ('a', 'c'), ('b', 'd'), ('c', 'd')])],
      bounds='one or two ranges per side with arbitrary ends, earlier '
             'choices of either side; one, two or fourteen joints'),
]
