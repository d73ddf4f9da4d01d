"""Shapes, ranges and states are values: nothing that is done with them, or
with anything else, changes them, the lists they were made from or the
answer to the same question asked again."""
import operator
import numpy as np
import pyrsistent as pyr
from symq.runner import H
from plycutter import canned, writer
from plycutter import heuristics as heu
from plycutter.geometry.aabb import AABB
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D
from plycutter.geometry.impl2d import geom2d_simple_holes as G2
from plycutter.geometry.impl2d import primitive2d, scan2d
from plycutter.geometry.impl2d.arrangement2d import SegmentArrangement
from plycutter.geometry.impl2d.cell_merger import CellMergerSlow
from plycutter.geometry.impl2d.pmr_quadtree import SegmentPMRQuadTree
from plycutter.geometry.impl2d.segment_tree import SegmentTree1D
from plycutter.sheetbuild import create_sheetbuild
from .common import in_ivs, in_rings, on_rings
from .shapes import S, geom, out_rings
from .model import corner, cube_corner, plex, rect, sheet
from .rng import use_rng
from .L03 import Stream
from .P02 import par
from .W01 import Rec

PROPERTY = 'I01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['shapes are looked at through their public interface']


def freeze(o):
    """What can be seen of o, as nested lists of values."""
    if isinstance(o, Geom1D):
        return ['g1', freeze(o.get_intervals())]
    if hasattr(o, 'polygons') and hasattr(o, 'locate'):
        return ['g2'] + [[freeze(list(p.exterior())),
                          [freeze(list(h)) for h in p.holes()]]
                         for p in o.polygons()]
    if isinstance(o, np.ndarray):
        return ['arr'] + [freeze(v) for v in o]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [freeze(v) for v in o]
    if isinstance(o, (pyr.PRecord, pyr.PClass)):
        o = {k: getattr(o, k) for k in sorted(type(o)._pclass_fields
                                              if isinstance(o, pyr.PClass)
                                              else o)
             if hasattr(o, k)}
    if isinstance(o, (dict, pyr.PMap)):
        return ['map'] + [[str(k), freeze(o[k])]
                          for k in sorted(o, key=str)]
    if callable(o):
        return 'fn'
    return o


def same(env, a, b):
    """Is it what it was?"""
    out = []

    def walk(x, y):
        if isinstance(x, list) or isinstance(y, list):
            if not isinstance(x, list) or not isinstance(y, list) or \
                    len(x) != len(y):
                return False
            return all(walk(u, v) for u, v in zip(x, y))
        if x is not y:
            r = x == y
            if r is False or r is NotImplemented:
                return False
            out.append(r)
        return True
    if not walk(a, b):
        return False
    return env.AND(*out)


def augmented(f):
    """The operation as an augmented assignment to another name."""
    def run(a, b, m):
        return f(a, b)
    return run


class Keep:
    """Things that have to stay as they are."""

    def __init__(self, env, **things):
        self.env, self.things = env, things
        self.old = {k: freeze(v) for k, v in things.items()}

    def check(self, what):
        for k, v in self.things.items():
            self.env.check(same(self.env, self.old[k], freeze(v)),
                           what + ' changes nothing that it was given')


OPS1 = {
    'or=': augmented(operator.ior),
    'and=': augmented(operator.iand),
    'sub=': augmented(operator.isub),
    'xor=': augmented(operator.ixor),
    'or': lambda a, b, m: a | b,
    'and': lambda a, b, m: a & b,
    'sub': lambda a, b, m: a - b,
    'xor': lambda a, b, m: a ^ b,
    'not': lambda a, b, m: ~a,
    'grow': lambda a, b, m: a.buffer(m),
    'shrink': lambda a, b, m: a.buffer(-m),
    'filter': lambda a, b, m: a.filter(lambda u, v: v - u > m),
    'pieces': lambda a, b, m: (a.disjoint_pieces() + [Geom1D.empty()])[0],
    'ask': lambda a, b, m: (a.locate(m), a.measure1d(), a.is_empty(),
                            a.is_bounded(), repr(a), a)[-1],
}


def ranges(env, n=2, ops=None):
    """Ranges of a line."""
    iv = []
    for i in range(n):
        a, b = env.real('a%d' % i), env.real('b%d' % i)
        env.assume(a <= b)
        iv.append([a, b])
    if env.boolean('tuples'):
        iv = [tuple(v) for v in iv]
    kv = [type(iv[0])([env.real('c'), env.Q(3)])]
    env.assume(kv[0][0] <= 3)
    m = env.real('m', 0, 5)
    given = Keep(env, iv=iv, kv=kv)
    A, B = Geom1D(iv), Geom1D(kv)
    given.check('making a range')
    k = Keep(env, iv=iv, kv=kv, A=A, B=B)
    ops = ops or sorted(OPS1)
    op = ops[env.choice('op', len(ops))]
    r = OPS1[op](A, B, m)
    k.check(op)
    k = Keep(env, iv=iv, kv=kv, A=A, B=B, r=r)
    OPS1[op](B, A, m + 1)
    k.check(op)
    s = OPS1[op](A, B, m)
    k.check(op)
    p = env.real('p')
    ne = env.AND(*[p != e for g in (r, s) for v in g.intervals for e in v])
    env.check(env.IMPLIES(ne, env.IFF(in_ivs(env, r.intervals, p),
                                      in_ivs(env, s.intervals, p))),
              'the same question has the same answer')


def turn(p):
    return [(-y, x) for x, y in p]


def flip(p):
    return [(-x, y) for x, y in p]


def ask(g, m):
    """All that a shape can be asked."""
    return [g.area(), g.is_empty(), freeze(list(g.all_segments())),
            [g.locate(p) for p in ((m, m), (m, -m), (-m, m), (m, 2 * m))],
            [freeze(g.project_to_1d(np.array(v, object), o))
             for v, o in (((1, 2), m), ((1, 0), m), ((1, 2), 2 * m),
                          ((2, 1), m))],
            [freeze(q) for q in g.polygons()]]


OPS2 = {
    'or=': augmented(operator.ior),
    'and=': augmented(operator.iand),
    'sub=': augmented(operator.isub),
    'or': lambda a, b, m: a | b,
    'and': lambda a, b, m: a & b,
    'sub': lambda a, b, m: a - b,
    'grow': lambda a, b, m: a.buffer(m),
    'shrink': lambda a, b, m: a.buffer(-m / 4),
    'turn': lambda a, b, m: a.transformed_with(turn),
    'flip': lambda a, b, m: a.transformed_with(flip),
    'ask': lambda a, b, m: (ask(a, m), a)[-1],
}


def shapes(env, a, b, op, lo, hi, amount=1):
    """Shapes of the plane."""
    t = env.real('t', lo, hi)
    Q = env.Q
    m = env.Q(amount) if isinstance(amount, int) else \
        env.real('m', *amount)
    A, B = geom(env, a, (t, env.Q(1))), geom(env, b)
    f = OPS2[op]
    k = Keep(env, A=A, B=B)
    r = f(A, B, m)
    k.check(op)
    k = Keep(env, A=A, B=B, r=r)
    f(B, A, m)
    k.check(op)
    if op in ('grow', 'shrink'):
        for d in (Q(1, 2), Q(1, 10 ** 8)):
            u = f(A, B, m + d).area()
            env.check(u > r.area() if op == 'grow' else u < r.area(),
                      'another amount has another result')
    if op == 'ask':
        A2 = geom(env, a, (t, Q(1)))
        for v in (m + 1, m / 2):
            env.check(same(env, ask(A, v), ask(A2, v)), 'the answer does '
                      'not depend on what was asked before')
    s = f(A, B, m)
    k.check(op)
    p = (env.real('px', -20, 20), env.real('py', -20, 20))
    u, v = out_rings(r), out_rings(s)
    env.check(env.IMPLIES(env.NOT(on_rings(env, u + v, p)), env.IFF(
        in_rings(env, u, p), in_rings(env, v, p))),
        'the same question has the same answer')


def lists(env, what, n=5, free=False):
    """Lists that are handed over."""
    Q = env.Q
    t = env.real('t', 1, 3)
    if what == 'union':
        L = [geom(env, 'sq2', (Q(5 * i) if i else t, Q(0)))
             for i in range(n)]
        k = Keep(env, L=L)
        r = Geom2D.union(L)
        k.check('a union')
        env.check(len(L) == n, 'the list of shapes is as before')
        k = Keep(env, L=L, r=r)
        Geom2D.union(L[:2])
        k.check('a union')
    elif what == 'polygon':
        for ring in (S['skew'][0][0], S['skew'][0][0][::-1]):
            L = [(Q(x) + (t if not i else 0), Q(y))
                 for i, (x, y) in enumerate(ring)]
            k = Keep(env, L=L)
            g = Geom2D.polygon(L, reorient=True)
            k.check('making a polygon')
            k = Keep(env, L=L, g=g)
            Geom2D.polygon(L[:3], reorient=True)
            k.check('making a polygon')
    elif what == 'holes':
        # no hole unless one is given
        a = G2.Simple_Polygon_With_Holes(
            [(Q(0), Q(0)), (Q(0), t), (Q(9), t), (Q(9), Q(0))])
        k = Keep(env, g=Geom2D([a]))
        hole = [(Q(1), t / 4), (Q(1), t / 2), (Q(2), t / 2), (Q(2), t / 4)]
        hs = [hole]
        G2.Simple_Polygon_With_Holes(
            [(Q(0), Q(0)), (Q(0), t), (Q(9), t), (Q(9), Q(0))], hs)
        b = G2.Simple_Polygon_With_Holes(
            [(Q(0), Q(0)), (Q(0), t), (Q(9), t), (Q(9), Q(0))])
        k.check('making a polygon')
        env.check(not list(Geom2D([b]).holes()), 'no hole unless given one')
    elif what == 'scan':
        L = [((Q(0), Q(0)), (Q(4), Q(4))), ((Q(0), t), (Q(5), Q(1))),
             ((t, Q(5)), (Q(2), Q(-1))), ((Q(-1), Q(2)), (Q(6), Q(2)))]
        k = Keep(env, L=L)
        list(scan2d.all_segment_intersections(L))
        k.check('finding intersections')
    elif what == 'arrange':
        a, b = S['sq'][0][0], S['tri'][0][0]
        L = {(i, p): ((Q(p[0]) + (t if i else 0), Q(p[1])),
                      (Q(q[0]) + (t if i else 0), Q(q[1])))
             for i, r in enumerate((a, b))
             for p, q in zip(r, r[1:] + r[:1])}
        k = Keep(env, L=L)
        SegmentArrangement(L)
        k.check('arranging segments')
    elif what == 'stab':
        L = [(t, Q(4), 'a'), (Q(0), t, 'b'), (Q(2), Q(7), 'c')]
        k = Keep(env, L=L)
        s = SegmentTree1D(L)
        r = list(s.stab(t))
        k.check('looking up a value')
        k = Keep(env, L=L, r=r)
        list(s.stab(t + 1))
        env.check(sorted(x[2] for x in s.stab(t)) == sorted(
            x[2] for x in r), 'the same question has the same answer')
        k.check('looking up a value')
    elif what == 'tree':
        L = [((Q(0), t), (Q(4), Q(5))), ((t, Q(0)), (t, Q(6))),
             ((Q(1), Q(1)), (Q(5), Q(2))), ((Q(2), Q(5)), (Q(5), t))]
        box = AABB()
        for s in L:
            for p in s:
                box.include_point(p)
        k = Keep(env, L=L, lo=box.lower, hi=box.upper)
        tr = SegmentPMRQuadTree(box, L, threshold=1)
        q = ((t, t), (Q(3), Q(4)))
        r = list(tr.find(q))
        k.check('looking up segments')
        list(tr.find(L[1]))
        env.check(sorted(map(id, tr.find(q))) == sorted(map(id, r)),
                  'the same question has the same answer')
        k.check('looking up segments')
    elif what == 'merge':
        cs = [((Q(0), Q(0)), (Q(0), t), (t, t), (t, Q(0))),
              ((t, Q(0)), (t, t), (Q(5), t), (Q(5), Q(0))),
              ((Q(0), t), (Q(0), Q(9)), (t, Q(9)), (t, t))]
        k = Keep(env, cs=cs)
        m = CellMergerSlow()
        for c in cs:
            m.add_cell(c)
        k.check('merging cells')
        r = [list(c) for c in m.get_cells()]
        m.get_cells_originals()
        k.check('merging cells')
        env.check(len(r) == len(list(m.get_cells())),
                  'the same question has the same answer')
    elif what == 'basic':
        L = [(Q(x) + (t if not i else 0), Q(y))
             for i, (x, y) in enumerate(S['L'][0][0])]
        k = Keep(env, L=L)
        primitive2d.simple_polygon_area(L)
        primitive2d.locate_point_polygon_winding_number(L, (t, t))
        list(primitive2d.edges_iter(L))
        k.check('asking for an area, a place or the edges')
        a, b = AABB(), AABB()
        p, q = [t, Q(2)], [Q(3), -t]
        k = Keep(env, p=p, q=q)
        a.include_point(p)
        a.include_point(q)
        k.check('extending a box')
        env.check(not (b.lower is a.lower), 'boxes are independent')
        b.include_point((t, t))
        env.check(env.AND(b.lower[0] == t, b.upper[0] == t, a.upper[0] == 3,
                          a.lower[1] == -t), 'boxes are independent')
    elif what == 'write':
        gs = {'a': geom(env, 'frame', (t, Q(0))), 'b': geom(env, 'tri')}
        k = Keep(env, gs=gs)
        keep = writer.ezdxf.new
        rec = Rec()
        writer.ezdxf.new = lambda *a, **k: rec
        try:
            writer.write_dxf('none.dxf', gs)
        finally:
            writer.ezdxf.new = keep
        k.check('drawing')


def models(env, lo, hi):
    """Two models whose plates and joints have the same names."""
    T = env.real('T', lo, hi)
    Q = env.Q
    sps = [(corner(env, l, 30, t), l, t) for l, t in ((20, T), (22, T + 1))]
    p = par(env)
    w = Geom1D([(Q(2), Q(5))])
    what = 'a model is not mixed up with another one'
    for k in (0, 1, 0):
        sp, l, t = sps[k]
        for i in ('s0', 's1'):
            s = sp.interside(('s0,s1', i))
            for q in (s, s.opposite(sp), list(sp.intersides(i))[0]):
                env.check(q.max_normal_offset == t, what)
            env.check(s.sheet == i and s.opposite(sp).sheet != i, what)
            env.check(s.make_fingers(w).area() == 3 * t, what)
            r = s.project_to_1d(sp.sheets[i].slices_max).intervals
            env.check(len(r) == 1 and env.AND(r[0][0] == 0, r[0][1] == l),
                      what)
        sb = create_sheetbuild(sp, p)
        for i in ('s0', 's1'):
            env.check(sb.sheet_ok[i].area() == 30 * l, what)
            r = sb.interside_ok['s0,s1', i].intervals
            env.check(len(r) == 1 and env.AND(r[0][0] == 0, r[0][1] == l),
                      what)
        sb2 = sb.choose_interside(('s0,s1', 's0'), w)
        env.check(sb2.sheet_chosen['s0'].area() ==
                  sb.sheet_chosen['s0'].area() + 3 * t, what)
        env.check(sb2.sheet_ok['s1'].area() ==
                  sb.sheet_ok['s1'].area() - 3 * t, what)


def process(env, lo, hi, kind='corner'):
    """The joint process and its steps."""
    T = env.real('T', lo, hi)
    sp = corner(env, 20, 30, T) if kind == 'corner' else cube_corner(
        env, 20, 20, 20, T)
    p = par(env)
    k0 = Keep(env, plex=sp, params=p)
    sb = create_sheetbuild(sp, p)
    k0.check('starting')
    done = []
    for f in (heu.choose_obviously_irrelevant, heu.remove_loose,
              heu.update_intersection_ok, heu.update_sheet_ok,
              heu.heuristic_multi_inter_single_decisions,
              heu.choose_the_ok_side, heu.single_fingers_random,
              heu.clean_up_thin_ok_parts):
        done.append(Keep(env, state=sb))
        with use_rng(Stream(env, 0)):
            sb = f(sb, p)
        k0.check('a step')
        done[-1].check('a step')
    for d in done:
        d.check('a later step')


def history(env, lo, hi, joint=False):
    """One run after the other."""
    T = env.real('T', lo, hi)
    p, q = par(env), par(env, mn=2)

    def model(L):
        if joint:
            return corner(env, 20, 30, L)
        f = rect(env, 0, 0, 30, L)
        return plex([sheet(env, 's0', f, f, f)], [])
    with use_rng(Stream(env, 0)):
        a = canned.canned_1(model(T), p)
        k = Keep(env, history=list(a.history), cuts=a.sheet_cuts, params=a.params)
        old = list(a.history)
        canned.canned_1(model(5), q)
    env.check(len(a.history) == len(old) and
              all(x is y for x, y in zip(a.history, old)), 'a later run leaves the result of an '
              'earlier one alone')
    k.check('a later run')
    env.check(a.params is p, 'a later run leaves the result of an earlier '
              'one alone')


def c(a, b, op, lo, hi, **k):
    return dict(a=a, b=b, op=op, lo=lo, hi=hi, **k)


LISTS = ('union', 'polygon', 'holes', 'scan', 'arrange', 'stab', 'tree',
         'merge', 'basic', 'write')
HARNESSES = [
    H('ranges', ranges, [dict(n=2)], [dict(n=3)],
      bounds='a range of up to 2 (thorough 3) arbitrary intervals in any '
             'order, one more, every operation'),
    H('shapes', shapes,
      [c('sq', 'tri', 'or', -3, 3), c('frame', 'sq', 'and', 0, 2),
       c('U', 'wide', 'sub', 0, 2), c('island', 'sq1', 'turn', -3, 3),
       c('frame', 'tri', 'flip', -3, 3), c('sq', 'tri', 'grow', 0, 3),
       c('frame', 'sq', 'shrink', 0, 3), c('hole2', 'U', 'ask', -3, 3),
       c('sq', 'tri', 'or=', 1, 2), c('sq', 'tri', 'and=', 1, 2),
       c('sq', 'tri', 'sub=', 1, 2)],
      [c('island', 'frame', o, -2, 4) for o in ('or', 'and', 'sub',
                                                     'or=', 'and=', 'sub=')] +
      [c('L', 'two', 'grow', 0, 3, amount=[1, 3]),
       c('dhole', 'frame', 'shrink', 0, 3, amount=[1, 2])],
      bounds='shapes that slide along a line, every operation', path_s=200),
    H('lists', lists, [dict(what=w) for w in LISTS] +
      [dict(what='union', n=66)],
      [dict(what='union', n=130)],
      bounds='the lists given to each of the tools of the plane, one value '
             'symbolic'),
    H('models', models, [dict(lo=6, hi=[13, 2])], [dict(lo=1, hi=10)],
      bounds='two models of two plates with equal names, any thickness in '
             'the range', path_s=300),
    H('process', process, [dict(lo=6, hi=[61, 10])],
      [dict(lo=5, hi=8), dict(lo=6, hi=[61, 10], kind='cube')],
      bounds='the steps on two plates (thorough: three) at a right angle, '
             'any thickness in the range', path_s=300),
    H('history', history, [dict(lo=20, hi=21)], [dict(lo=6, hi=7, joint=True)],
      bounds='one run of the process after another, on a plate of any '
             'length (thorough: two plates of any thickness) in the range', path_s=300),
]
