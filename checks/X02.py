"""Looking up sheets, joints and sides; restricting a model to some sheets."""
from symq.runner import H
import pyrsistent as pyr
from plycutter.sheetplex import SheetPlex, Sheet, Intersection
from .model import interside, plex

PROPERTY = 'X02'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def build(env, n, always=(), free=True):
    """n sheets; any pairs of them meet."""
    # one name is part of another
    ids = ['s1', 's11', 's2', 's111', 's21', 's12', 's3', 's110'][:n]
    sheets = [Sheet(id=i) for i in ids]
    inters = []
    pairs = []
    for i in range(n):
        for j in range(i + 1, n):
            if not free:
                if (i + 2 * j) % 3 == 0:
                    continue
            elif (i, j) not in always and not env.boolean(
                    'm%d%d' % (i, j)):
                continue
            a, b = ids[i], ids[j]
            if env.boolean('o%d%d' % (i, j)) if free else (i + j) % 2:
                a, b = b, a
            k = ','.join(sorted((a, b)))
            pairs.append((k, (a, b)))
            inters.append(Intersection(id=k, sides=(
                interside(env, k, a, 0, (1, 0)),
                interside(env, k, b, 1, (0, 1)))))
    return ids, sheets, pairs, plex(sheets, inters)


def consistent(env, sp, ids, pairs, what):
    env.check(set(sp.sheets.keys()) == set(ids), what + ': the sheets')
    env.check(set(sp.intersections.keys()) == {k for k, s in pairs},
              what + ': the joints')
    for k, (a, b) in pairs:
        inter = sp.intersections[k]
        env.check(list(inter.sheets()) == [a, b],
                  what + ': a joint names its two sheets')
        for idx, s in enumerate((a, b)):
            side = sp.interside((k, s))
            env.check(side.sheet == s and side.intersection == k and
                      side.idx == idx and side.id == (k, s),
                      what + ': a side is found by its id')
            env.check(inter.side_by_sheet(s) is side or
                      inter.side_by_sheet(s) == side,
                      what + ': a side is found by its sheet')
            o = side.opposite(sp)
            env.check(o.sheet == (b, a)[idx] and o.intersection == k,
                      what + ': the opposite is the other side')
            env.check(o.opposite(sp).id == side.id,
                      what + ': the opposite of the opposite is itself')
        for s in ids:
            if s not in (a, b):
                env.check(inter.side_by_sheet(s) is None,
                          what + ': no side for other sheets')
    want = sorted((k, s) for k, ab in pairs for s in ab)
    env.check(sorted(x.id for x in sp.intersides()) == want,
              what + ': every side is listed once')
    for s in ids:
        env.check(sorted(x.id for x in sp.intersides(s)) ==
                  [w for w in want if w[1] == s],
                  what + ': the sides of a sheet are listed once')


def lookup(env, n, always=()):
    ids, sheets, pairs, sp = build(env, n, [tuple(a) for a in always])
    consistent(env, sp, ids, pairs, 'model')
    env.observe('n', len(pairs))


def limit(env, n, always=(), kind='list', free=True):
    ids, sheets, pairs, sp = build(env, n, [tuple(a) for a in always], free)
    keep = [s for i, s in enumerate(ids) if env.boolean('k%d' % i)]
    arg = {'list': lambda: list(keep), 'iter': lambda: iter(keep),
           'set': lambda: set(keep)}[kind]()
    sub = sp.limit(arg)
    env.check(isinstance(sub, SheetPlex), 'the restriction is a model')
    consistent(env, sub, keep,
               [(k, ab) for k, ab in pairs
                if ab[0] in keep and ab[1] in keep], 'restriction')
    consistent(env, sp, ids, pairs, 'original')
    for s in keep:
        env.check(sub.sheets[s] is sp.sheets[s] or
                  sub.sheets[s] == sp.sheets[s], 'sheets are kept as is')


HARNESSES = [
    H('lookup', lookup, [dict(n=3), dict(n=4, always=[(0, 1), (1, 2),
                                                      (2, 3)])],
      [dict(n=4)],
      bounds='3-4 sheets, any pairs of them joined, sides in any order'),
    H('limit', limit, [dict(n=3, kind='list'), dict(n=3, kind='iter'),
                      dict(n=6, kind='set', free=False)],
      [dict(n=4, always=[(0, 1)], kind='set'),
       dict(n=8, kind='list', free=False)],
      bounds='3-4 sheets, any pairs of them joined, any subset kept; 6 (8) '
             'sheets with given joints, any subset'),
]
