"""Grouping joint positions that depend on each other; thin parts."""
import itertools
from symq.runner import H
import pyrsistent as pyr
from plycutter.geometry.geom1d import Geom1D
from plycutter.sheetbuild import SheetBuild
from plycutter import heuristics as heu
from .common import in_ivs, in_rings, on_rings
from .shapes import out_rings
from .model import corner, rect, ghost_plex, cube_corner, cube_side
from .minkowski import KERNEL_NOTE
from .H04 import rest_same, st

PROPERTY = 'H05'
LEVEL = 'model_checking'
ASSUMPTIONS = [KERNEL_NOTE, 'groups are judged through the two functions '
               'that find them']


def groups(env, links, width=2, spread=9, widths=None, at=None,
           order=None):
    """Pairs of joints that meet somewhere, at arbitrary places: links are
    (joint, joint) numbers; each meets over a range of the given width."""
    Q = env.Q
    find = getattr(heu, '_find_interaction_clusters', None)
    if find is None:
        env.check(True, 'grouping is judged')
        return
    n = 1 + max(max(l) for l in links)
    sp = ghost_plex(env, [(0, i + 1) for i in range(n)])
    ids = ['s0,s%d' % (i + 1) for i in range(n)]
    rng = []
    by = {}
    for k, (a, b) in enumerate(links):
        va = env.real('a%d' % k, 0, spread) if at is None or at[k] is None \
            else Q(at[k])
        vb = env.real('b%d' % k, 0, spread)
        w = widths[k] if widths else width
        ra, rb = (va, va + w), (vb, vb + w)
        rng.append({a: ra, b: rb})
        for x, y, rx, ry in ((a, b, ra, rb), (b, a, rb, ra)):
            by.setdefault(ids[x], []).append(heu._Interaction(
                interside=(ids[x], 's0'), range=Geom1D([rx]),
                other_interside=(ids[y], 's0'), other_range=Geom1D([ry])))
    if order:
        by = {ids[q]: by[ids[q]] for q in order}
    got = find(None_sb(sp), heu._Interactions(sheetplex=sp,
                                              by_intersection=by))
    gs = [dict(g) for g in got.values()]
    env.observe('n', len(gs))
    # which group has which pair (by the middle of its ranges)
    member = []
    for r in rng:
        hits = []
        for gi, g in enumerate(gs):
            ok = True
            for j, (lo, hi) in r.items():
                iv = g.get(ids[j])
                m = (lo + hi) / 2
                if iv is None or not bool(in_ivs(env, iv.intervals, m)):
                    ok = False
            if ok:
                hits.append(gi)
        env.check(len(hits) == 1, 'every meeting is in exactly one group')
        member.append(hits[0])
    # what is connected
    m = len(links)
    con = [[i == j or (False if not set(rng[i]) & set(rng[j]) else env.OR(*[
        env.AND(rng[i][q][0] < rng[j][q][1], rng[j][q][0] < rng[i][q][1])
        for q in set(rng[i]) & set(rng[j])])) for j in range(m)]
        for i in range(m)]
    for k in range(m):
        con = [[env.OR(con[i][j], env.AND(con[i][k], con[k][j]))
                for j in range(m)] for i in range(m)]
    for i in range(m):
        for j in range(i):
            env.check(env.IFF(member[i] == member[j], con[i][j]),
                      'positions are in one group if they depend on each '
                      'other, also through others')
    # a group holds the ranges of its members, no more
    for gi, g in enumerate(gs):
        for q in range(n):
            if ids[q] not in g:
                continue
            x = env.real('x')
            iv = g[ids[q]].intervals
            mem = [r[q] for r, mm in zip(rng, member) if mm == gi and q in r]
            ne = env.AND(*[x != e for i in list(iv) + mem for e in i])
            env.check(env.IMPLIES(ne, env.IFF(in_ivs(env, iv, x),
                                              in_ivs(env, mem, x))),
                      'a group holds exactly the positions of its members')


class None_sb:
    """The state, as far as grouping needs it."""

    def __init__(self, sp):
        self.sheetplex = sp


def meetings(env, var, lo, hi, four=False, **d):
    """Where the joints of a box corner meet."""
    find = getattr(heu, '_find_interactions', None)
    if find is None:
        env.check(True, 'grouping is judged')
        return
    v = env.real('v', lo, hi)
    dd = dict(A=20, B=22, C=24, T=6)
    dd.update(d)
    e = env.Q(0)
    if var == 'open':
        # on s0, positions of its joint with s1 are open from v on
        e = v
    else:
        dd[var] = v
    dd = {k: env.Q(x) if isinstance(x, int) else x for k, x in dd.items()}
    sp = (cube_side if four else cube_corner)(
        env, dd['A'], dd['B'], dd['C'], dd['T'])
    top = {'s0,s1': dd['B'], 's0,s2': dd['A'], 's1,s2': dd['C'],
           's0,s3': dd['B'], 's2,s3': dd['C']}
    oks = {s.id: Geom1D([[e if s.id == ('s0,s1', 's0') else env.Q(0),
                          top[s.id[0]]]]) for s in sp.intersides()}
    sb = SheetBuild(sheetplex=sp, sheet_chosen=pyr.pmap({}),
                    sheet_ok=pyr.pmap({}), interside_chosen=pyr.pmap({}),
                    interside_ok=pyr.pmap(oks))
    r = find(sb)
    T = dd['T']
    seen = {}
    for iid, lst in r.by_intersection.items():
        for it in lst:
            env.check(it.interside[0] == iid and
                      it.interside[1] == it.other_interside[1] and
                      it.interside[0] != it.other_interside[0],
                      'a meeting is of two joints on one plate')
            key = (it.interside, it.other_interside)
            env.check(key not in seen, 'every meeting is listed once')
            seen[key] = it
    want = {}
    for s, (j, k) in {'s0': ('s0,s1', 's0,s2'), 's1': ('s0,s1', 's1,s2'),
                      's2': ('s0,s2', 's1,s2')}.items():
        want[(j, s), (k, s)] = want[(k, s), (j, s)] = s
    if four:
        for s, j, k in (('s0', 's0,s2', 's0,s3'), ('s2', 's0,s2', 's2,s3'),
                        ('s3', 's0,s3', 's2,s3')):
            want[(j, s), (k, s)] = want[(k, s), (j, s)] = s
    if not bool(e < T):
        for k in ((('s0,s1', 's0'), ('s0,s2', 's0')),
                  (('s0,s2', 's0'), ('s0,s1', 's0'))):
            del want[k]
    env.check(set(seen) == set(want), 'two joints of a plate meet where '
              'both are possible')
    x = env.real('x')
    for key, it in seen.items():
        for me, g in ((it.interside, it.range),
                      (it.other_interside, it.other_range)):
            low = e if me == ('s0,s1', 's0') else env.Q(0)
            high = T
            if four and me[0] == 's0,s2' and 's3' in key[0][0] + key[1][0]:
                # the other end
                low, high = dd['A'] - T, dd['A']
            iv = list(g.intervals)
            ne = env.AND(*[x != z for i in iv + [(low, high)] for z in i])
            env.check(env.IMPLIES(ne, env.IFF(
                in_ivs(env, iv, x), env.AND(low < x, x < high))),
                'a meeting is over the positions where both are possible')


def thin(env, kind, lo, hi):
    """A bar of possible material of arbitrary thickness."""
    w = env.real('w', lo, hi)
    sp = corner(env)
    body = rect(env, 6, 0, 30, 20)
    if kind == 'arm':          # grows out of the solid part
        bar = rect(env, 1, 8, 6, 8 + w)
    elif kind == 'gap':        # a wide block with a slot
        bar = rect(env, 1, 4, 6, 12) - rect(env, 1, 7, 4, 7 + w)
    else:                      # an island
        bar = rect(env, 1, 8, 1 + w, 13)
    extra = rect(env, 2, 1, 6, 3) if kind == 'island' else None
    ok = body | bar
    ch = body
    if extra is not None:
        # decided material stays, however thin
        ch = ch | rect(env, 2, 2, 6, 2 + env.Q(1, 4))
        ok = ok | ch
    sb = st(env, sp, (ok, body), (ch, body), ([(env.Q(0), env.Q(20))],) * 2)
    r = heu.clean_up_thin_ok_parts(sb)
    p = (env.real('px'), env.real('py'))
    x = env.real('x')
    rest_same(env, sb, r, [('sheet_ok', 's0'), ('sheet_ok', 's1')], p, x)
    ro, rn, rc, rb = [out_rings(z) for z in (ok, r.sheet_ok['s0'], ch, bar)]
    off = env.NOT(on_rings(env, ro + rn + rc + rb, p))
    was, now = in_rings(env, ro, p), in_rings(env, rn, p)
    e = env.Q(1, 50)
    near = env.OR(*[env.AND(v[0] - e < p[0], p[0] < v[0] + e)
                    for g in ro for v in g],
                  *[env.AND(v[1] - e < p[1], p[1] < v[1] + e)
                    for g in ro for v in g])
    env.check(env.IMPLIES(env.AND(off, in_rings(env, rc, p)), now),
              'decided material stays possible')
    env.check(env.IMPLIES(env.AND(off, env.NOT(near), now), was),
              'no possibility is added')
    # well inside something wide
    half = env.Q(1, 2) + e

    def deep(x0, y0, x1, y1):
        return env.AND(x0 < p[0], p[0] < x1, y0 < p[1], p[1] < y1)
    inb = in_rings(env, rb, p)
    if kind == 'arm':
        wide = env.AND(w > 1 + e, deep(1 + half, 8, 6, 8 + w))
        thin_ = env.AND(w < 1 - e, deep(1, 8, 6 - half, 8 + w))
    elif kind == 'island':
        wide = env.AND(w > 1 + e, deep(1, 8 + half, 1 + w, 13 - half))
        thin_ = env.AND(w < 1 - e, inb)
    else:
        wide = env.OR(deep(1 + half, 4, 6, 7), deep(1 + half, 7 + w, 6, 12)
                      if bool(w < 4 - e) else False)
        thin_ = env.AND(w > 4 + e, deep(1, 7 + w, 4 - half, 12))
    env.check(env.IMPLIES(env.AND(off, wide, inb), now),
              'a part wide enough stays possible')
    env.check(env.IMPLIES(env.AND(off, thin_), env.NOT(now)),
              'a part too thin to hold is removed')
    rb_ = out_rings(body)
    env.check(env.IMPLIES(env.AND(off, in_rings(env, rb_, p)), now),
              'decided material stays possible')


HARNESSES = [
    H('groups', groups,
      [dict(links=[(0, 1), (1, 2)]), dict(links=[(0, 1), (2, 3), (1, 2)]),
       dict(links=[(0, 1), (0, 1)]), dict(links=[(0, 1), (0, 2), (0, 3)]),
       dict(links=[(0, 1), (0, 2), (0, 3), (0, 4), (0, 5)],
            widths=[1, 1, 1, 1, 6], at=[0, 2, 4, 6, None], spread=[6, 5],
            order=[1, 2, 3, 4, 0, 5])],
      [dict(links=[(0, 1), (1, 2), (2, 0)]),
       dict(links=[(0, 1), (0, 2), (0, 3), (0, 4)], widths=[1, 1, 1, 6]),
       dict(links=[(0, 1), (2, 3), (4, 5), (1, 2), (3, 4)], spread=3)],
      bounds='two to five meetings of two to six joints, '
             'each over a range of length 2 at any place in 0 .. 9',
      path_s=120),
    H('meetings', meetings,
      [dict(var='open', lo=1, hi=9), dict(var='T', lo=3, hi=8),
       dict(var='A', lo=13, hi=20, four=True)],
      [dict(var='A', lo=8, hi=40)],
      bounds='the corner of a box: its thickness or the open range of a '
             'joint symbolic', path_s=120),
    H('thin', thin, [dict(kind='arm', lo=[97, 100], hi=[103, 100]),
                     dict(kind='island', lo=[1, 4], hi=2)],
      [dict(kind='arm', lo=[1, 4], hi=2), dict(kind='gap', lo=[3, 2], hi=[9, 2])],
      bounds='a bar of any thickness 0.25 .. 2, free or attached; a slot of '
             'any width', path_s=200),
]
