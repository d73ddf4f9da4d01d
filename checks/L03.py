"""The same model, options and seed give the same plates.

Python enumerates sets and maps of names in an order that changes from run to
run (string hashes are random).  The order is a choice here: the names are
strings with a hash that is chosen.  The real code runs twice on the same
symbolic model with the same draws, once with the names in one order and once
in another, and the results are compared."""
import itertools
import numpy as np
import pyrsistent as pyr
from symq.runner import H
from symq.arrays import linalg
from plycutter.geometry.geom1d import Geom1D
from plycutter.sheetbuild import SheetBuild, create_sheetbuild
from plycutter.sheetplex import SheetPlex
from plycutter import heuristics as heu, canned, writer
from plycutter import create_sheetplex as cs
from .common import in_ivs, in_rings, on_rings
from .shapes import out_rings, geom
from .model import ghost_plex, cube_corner, corner_on
from .rng import use_rng
from .C02 import mk, rot
from .L01 import fake
from .W01 import Rec
from .P02 import par

PROPERTY = 'L03'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the order in which maps and sets of plate and joint names are '
               'enumerated is a choice among the stated orders; the mesh '
               'library is taken to be deterministic',
               'draw number i of the generator is the same function of the '
               'requested range in both runs']


class Name(str):
    """A name with a given hash."""

    def __new__(cls, s, rank):
        r = str.__new__(cls, s)
        r.rank = rank
        return r

    def __hash__(self):
        return self.rank


def named(sp, table):
    """The model with its names replaced."""
    ss = {table[k]: s.set('id', table[k]) for k, s in sp.sheets.items()}
    ii = {}
    for k, i in sp.intersections.items():
        n = table[k]
        ii[n] = i.set('id', n).set('sides', tuple(
            s.set('id', (n, table[s.sheet])).set('intersection', n)
            .set('sheet', table[s.sheet]) for s in i.sides))
    return SheetPlex(sheets=pyr.pmap(ss), intersections=pyr.pmap(ii))


def table(names, order):
    """names with hashes so that they come in the given order."""
    return {n: Name(n, order.index(k)) for k, n in enumerate(names)}


def orders(n, few):
    p = list(itertools.permutations(range(n)))
    return p[1:] if not few else [p[-1], p[len(p) // 2], p[1]][:few]


class Stream:
    """Draw number i is the same function of the range in every run.

    salt: another one gives other draws"""

    def __init__(self, env, sym, salt=0, want=None):
        self.env, self.k, self.want = env, salt, want
        self.base, self.sym = sym, sym + salt

    def n(self):
        self.k += 1
        return self.k

    def shuffle(self, a):
        k = self.n() % len(a)
        v = list(a)
        a[:] = v[k:] + v[:k]

    def uniform(self, low=0.0, high=1.0):
        k, env = self.n(), self.env
        if k <= self.sym:
            r = low + env.real('d%d' % k, 0, 2)
            r = r if bool(r < high) else high
        else:
            r = low + (high - low) * env.Q(7 * k % 11 + 1, 13)
        return r if env.symbolic else float(r)

    def permutation(self, n):
        a = np.arange(n) if not hasattr(n, '__len__') else np.array(n)
        self.shuffle(a)
        return a

    def randint(self, low, high=None):
        if high is None:
            low, high = 0, low
        return int(low) + self.n() % (int(high) - int(low))

    integers = randint

    def random(self, size=None):
        return self.uniform()

    random_sample = rand = random

    def seed(self, s=None):
        if s is not None and s == self.want:
            self.k, self.sym = 0, self.base


class seeded(use_rng):
    """The generators of one run: draws that do not come from the seed (5)
    are other ones in every run."""
    runs = 0

    def __init__(self, env, sym, seed=5):
        self.env, self.sym, self.seed = env, sym, seed
        super().__init__(None)

    def __enter__(self):
        seeded.runs += 1
        self.run = seeded.runs
        return super().__enter__()

    def make(self, s=None):
        if s is not None and s == self.seed:
            return Stream(self.env, self.sym, want=self.seed)
        return Stream(self.env, self.sym, 3 * self.run % 7 + 1, self.seed)


def same_state(env, a, b, plates):
    def get(s, f):
        return {tuple(map(str, k)) if isinstance(k, tuple) else str(k): v
                for k, v in getattr(s, f).items()}
    x = env.real('x')
    for f in ('interside_ok', 'interside_chosen'):
        u, w = get(a, f), get(b, f)
        for k in u:
            g, h = list(u[k].intervals), list(w[k].intervals)
            ne = env.AND(*[x != e for iv in g + h for e in iv])
            env.check(env.IMPLIES(ne, env.IFF(in_ivs(env, g, x),
                                              in_ivs(env, h, x))),
                      'the same positions go to the same plates')
    if not plates:
        return
    p = (env.real('px'), env.real('py'))
    for f in ('sheet_ok', 'sheet_chosen'):
        u, w = get(a, f), get(b, f)
        for k in u:
            g, h = out_rings(u[k]), out_rings(w[k])
            env.check(env.IMPLIES(env.NOT(on_rings(env, g + h, p)), env.IFF(
                in_rings(env, g, p), in_rings(env, h, p))),
                'the plates come out the same')


def twice(env, names, few, run):
    """run(table) for the names in their own order and another one."""
    os_ = orders(len(names), few)
    o = os_[env.choice('order', len(os_))]
    a = run(table(names, list(range(len(names)))))
    b = run(table(names, list(o)))
    return a, b


def draws(env, pairs, lo, hi, sym=4, few=0, taken=(), seed=5):
    """The fingers of several joints."""
    L = env.real('L', lo, hi)
    sp0 = ghost_plex(env, [tuple(p) for p in pairs])
    names = sorted(sp0.intersections) + sorted(sp0.sheets)
    n = len(sp0.intersections)
    os_ = orders(n, few)
    o = list(os_[env.choice('order', len(os_))])
    body = sp0.sheets['s0'].slices_max
    out = []
    for q in (list(range(n)), o):
        t = table(names, q + list(range(n, len(names))))
        sp = named(sp0, t)
        ch = {}
        for i in sp.intersections.values():
            for k, s in enumerate(i.sides):
                ch[s.id] = [(env.Q(-9), env.Q(0))] if [str(i.id), k] in [
                    list(z) for z in taken] else []
        sb = SheetBuild(
            sheetplex=sp, sheet_chosen=pyr.pmap({k: body for k in sp.sheets}),
            sheet_ok=pyr.pmap({k: body for k in sp.sheets}),
            interside_chosen=pyr.pmap({k: Geom1D(c) for k, c in ch.items()}),
            interside_ok=pyr.pmap({k: Geom1D(c + [(env.Q(0), L)])
                                   for k, c in ch.items()}))
        with seeded(env, sym, seed):
            out.append(heu.single_fingers_random(
                sb, dict(par(env), random_seed=seed)))
    same_state(env, out[0], out[1], False)


def clusters(env, var, lo, hi, on=False, few=2, steps=None, r=12, T=6,
             A=20, B=20, C=20):
    """The corner of three plates."""
    d = dict(A=A, B=B, C=C, T=T)
    v = env.real('v', lo, hi)
    for k in var.split(','):
        d[k] = v
    d = {k: env.Q(x) if isinstance(x, int) else x for k, x in d.items()}
    sp0 = (corner_on if on else cube_corner)(
        env, d['A'], d['B'], d['C'], d['T'])
    p = par(env, r=r)

    def run(t):
        sp = named(sp0, t)
        if steps == 'all':
            with seeded(env, 0):
                z = canned.canned_1(sp, p)
            env.check(z.ok, 'the process succeeds')
            return z.sheetbuild
        sb = create_sheetbuild(sp, p)
        sb = heu.heuristic_multi_inter_single_decisions(sb, p)
        return heu.choose_the_ok_side(sb, p)
    a, b = twice(env, sorted(sp0.intersections) + sorted(sp0.sheets), few,
                 run)
    same_state(env, a, b, True)


def joints(env, qs, few=0):
    """Where plates meet."""
    T = env.real('T', 1, 12)
    ss = [mk(env, 's%d' % i, rot(env, q), env.real('o%d' % i, -100, 100), T)[0]
          for i, q in enumerate(qs)]

    def run(t):
        sp = SheetPlex(sheets=pyr.pmap({t[s.id]: s.set('id', t[s.id])
                                        for s in ss}),
                       intersections=pyr.m())
        with linalg(env):
            return cs.create_intersections(sp)
    a, b = twice(env, [s.id for s in ss], few, run)
    env.check(set(map(str, a.intersections)) == set(map(str,
                                                        b.intersections)),
              'the same joints are found')
    for k in a.intersections:
        u, w = a.intersections[k].sides, b.intersections[k].sides
        env.check([str(s.sheet) for s in u] == [str(s.sheet) for s in w],
                  'a joint has its plates in the same order')
        for s, z in zip(u, w):
            env.check(env.AND(s.origin_offset == z.origin_offset,
                              s.min_normal_offset == z.min_normal_offset,
                              s.max_normal_offset == z.max_normal_offset,
                              *[e == f for e, f in zip(s.direction,
                                                       z.direction)]),
                      'the coordinates of a joint are the same')


def drawing(env, shapes, few=0):
    """What is drawn where."""
    d = env.real('d', [1, 20], [1, 10])
    names = ['s%d' % i for i in range(len(shapes))]
    gs = [geom(env, s) for s in shapes]

    def run(t):
        log, err = fake(env, ['in.stl', '--final_dilation', env.text(d)],
                        pyr.pmap({t[n]: g for n, g in zip(names, gs)}),
                        sheets=tuple(t.values()))
        if err is not None:
            raise err
        rec = Rec()
        keep = writer.ezdxf.new
        writer.ezdxf.new = lambda *a, **k: rec
        try:
            writer.write_dxf('none.dxf', [e[2] for e in log
                                          if e[0] == 'write'][0])
        finally:
            writer.ezdxf.new = keep
        return rec.lines
    a, b = twice(env, names, few, run)
    env.check(len(a) == len(b), 'the same lines are drawn')

    def same(p, q):
        """The same closed line, starting anywhere?"""
        if len(p[0]) != len(q[0]) or p[1] != q[1]:
            return False
        u, v = p[0][:-1], q[0][:-1]
        return env.OR(*[env.AND(*[
            e == f for x, y in zip(u, v[k:] + v[:k]) for e, f in zip(x, y)])
            for k in range(len(v))])
    for p in a:
        env.check(env.OR(*[same(p, q) for q in b]),
                  'everything is drawn at the same place')


ALL3 = [[0, 1], [0, 2], [1, 2]]
HARNESSES = [
    H('draws', draws,
      [dict(pairs=ALL3, lo=9, hi=14), dict(pairs=ALL3, lo=4, hi=14, sym=0,
                                           taken=[['s0,s1', 1]], seed=0)],
      [dict(pairs=ALL3 + [[0, 3]], lo=9, hi=14, sym=6, few=3),
       dict(pairs=ALL3, lo=4, hi=30, sym=2)],
      bounds='three joints (thorough four) with an open range of arbitrary '
             'length up to 14 (30), in every order of the names'),
    H('clusters', clusters,
      [dict(var='A,B,C', lo=20, hi=[41, 2]),
       dict(var='A', lo=20, hi=[41, 2], on=True, few=1)],
      [dict(var='A,B,C', lo=19, hi=22), dict(var='A', lo=19, hi=21, on=True),
       dict(var='T', lo=4, hi=8, few=3), dict(var='B', lo=18, hi=23, few=3),
       dict(var='A,B,C', lo=20, hi=[41, 2], steps='all', few=3)],
      bounds='the corner of three plates (a box corner, or on a bigger '
             'plate), the decisions there and of what is left for one plate '
             '(thorough: the whole process), a few orders of the names', path_s=300),
    H('joints', joints,
      [dict(qs=[[1, 0, 0, 0], [1, 1, 0, 0], [1, 0, 1, 0]])],
      [dict(qs=[[1, 0, 0, 0], [1, 2, 3, 4], [2, -1, 0, 1], [1, 1, 0, 0]],
            few=3)],
      bounds='three plates (thorough four) at arbitrary places in given '
             'orientations, in every order (thorough: three) of the names'),
    H('drawing', drawing,
      [dict(shapes=['sq', 'tri', 'diamond'])],
      [dict(shapes=['sq', 'frame', 'L', 'tri'], few=3)],
      bounds='three plates, every order of the names, any kerf 0.01 .. 1'),
]
