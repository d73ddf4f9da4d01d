"""The pictures of shapes and of plates show what is there."""
import contextlib
import sys
import pyrsistent as pyr
import matplotlib
import matplotlib.path
import matplotlib.patches
import matplotlib.colors
from matplotlib.figure import Figure
from symq.runner import H
from plycutter import sheetbuild
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D
from plycutter.sheetplex import Intersection
from .common import in_rings, on_rings, ring_edges, shoelace2, in_ivs, not_end
from .shapes import geom, qrings
from .model import rect, sheet, plex, interside

PROPERTY = 'W02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['symbolic runs replace matplotlib\'s Path, PathPatch and Axes '
               'by recorders (replays and validation use the real ones); '
               'filling is by non-zero winding, as matplotlib fills paths',
               'floats are modelled as exact reals']
MOVE, LINE, CLOSE = 1, 2, 79


class RecPath:
    MOVETO, LINETO, CLOSEPOLY = MOVE, LINE, CLOSE
    code_type = int

    def __init__(self, vertices, codes=None, closed=False, **k):
        self.vertices = [tuple(v)[:2] for v in vertices]
        n = len(self.vertices)
        if codes is None:
            codes = [MOVE] + [LINE] * (n - 1)
            if closed and n:
                codes[-1] = CLOSE
        self.codes = [int(c) for c in codes]
        assert len(self.codes) == n, 'vertices and codes differ in length'

    @classmethod
    def make_compound_path(cls, *paths):
        return cls([v for p in paths for v in p.vertices],
                   [c for p in paths for c in p.codes])


class RecPatch:
    def __init__(self, path, **k):
        self.path = path
        self.face = k.get('facecolor', k.get('fc', k.get('color')))
        self.fill = k.get('fill', True)
        self.alpha = k.get('alpha')


class RecAxes:
    def __init__(self):
        self.got = []

    def add_patch(self, p):
        if not isinstance(p, RecPatch):
            raise TypeError('not a patch')
        self.got.append(p)
        return p

    add_artist = add_patch

    def set_aspect(self, *a, **k):
        pass

    autoscale_view = set_aspect
    autoscale = set_aspect
    relim = set_aspect


@contextlib.contextmanager
def recording(env):
    if not env.symbolic:
        yield Figure().add_subplot()
        return
    P, Q = matplotlib.path.Path, matplotlib.patches.PathPatch
    undo = []
    for m in [matplotlib.path, matplotlib.patches] + \
            [m for n, m in list(sys.modules.items())
             if n.startswith('plycutter')]:
        for k, v in list(vars(m).items()):
            if v is P or v is Q:
                undo.append((m, k, v))
                setattr(m, k, RecPath if v is P else RecPatch)
    try:
        yield RecAxes()
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


def patches(env, ax):
    return list(ax.got) if env.symbolic else list(ax.patches)


def rgb(env, p):
    f = p.face if env.symbolic else p.get_facecolor()
    return tuple(round(float(x), 6) for x in matplotlib.colors.to_rgba(f)[:3])


def loops(env, p):
    """The closed loops of the path of a patch."""
    path = p.path if env.symbolic else p.get_path()
    fill = p.fill if env.symbolic else p.get_fill()
    env.check(bool(fill), 'pictures are filled')
    out, cur = [], None
    codes = path.codes
    vs = [tuple(v) for v in path.vertices]
    if codes is None:
        codes = [MOVE] + [LINE] * (len(vs) - 1)
    for v, c in zip(vs, codes):
        c = int(c)
        if c == MOVE:
            if cur:
                out.append(cur)
            cur = [v]
        elif c == LINE:
            env.check(cur is not None, 'a path starts with a move')
            cur.append(v)
        elif c == CLOSE:
            out.append(cur + [cur[0]])
            cur = None
        else:
            env.fail('only straight lines are drawn')
    if cur:
        out.append(cur)
    res = []
    for r in out:
        env.check(env.AND(r[0][0] == r[-1][0], r[0][1] == r[-1][1]),
                  'every outline is closed')
        res.append(r[:-1])
    return res


def filled(env, rings, p):
    """Non-zero winding membership."""
    pos, neg = [], []
    for r in rings:
        s = shoelace2(r)
        if bool(s == 0):
            continue
        (pos if bool(s > 0) else neg).append(in_rings(env, [r], p))
    # the difference of the counts, by cases
    states = {0: True}
    for k, f in [(1, f) for f in pos] + [(-1, f) for f in neg]:
        new = {}
        for n, g in states.items():
            for m, h in ((n + k, f), (n, env.NOT(f))):
                new.setdefault(m, []).append(env.AND(g, h))
        states = {n: env.OR(*g) for n, g in new.items()}
    return env.NOT(states.get(0, False))


def moved(env, o, d):
    t = env.real('t', -8, 8)
    return o[0] + d[0] * t, o[1] + d[1] * t


def shape(env, name, via, two=False):
    off = (env.real('x0', -20, 20), env.real('y0', -20, 20))
    g = geom(env, name, off)
    with recording(env) as ax:
        if via == 'show':
            g.show2d(ax, 'green', alpha=0.5)
            ps = patches(env, ax)
        elif via == 'ax':
            r = g.to_mpatch(color='green', alpha=0.5, ax=ax)
            ps = patches(env, ax)
            env.check(len(ps) == 1 and r is ps[0], 'the picture is added')
        else:
            ps = [g.to_mpatch(color='green', alpha=0.5)]
        env.check(len(ps) > 0, 'a shape has a picture')
        rings = [r for p in ps for r in loops(env, p)]
        for p in ps:
            env.check(rgb(env, p) == rgb_of('green'), 'the colour is the one '
                      'asked for')
            env.check(abs((p.alpha if env.symbolic else p.get_alpha()) - .5)
                      < 1e-9, 'the opacity is the one asked for')
        judge(env, rings, qrings(env, name, off), 'a shape')
    env.observe('n', sum(len(r) for r in rings))


def rgb_of(name):
    return tuple(round(float(x), 6)
                 for x in matplotlib.colors.to_rgba(name)[:3])


def judge(env, rings, want, what):
    p = (env.real('px'), env.real('py'))
    if not env.symbolic:
        # matplotlib keeps floats: stay away from the borders
        e = env.Q(1, 10 ** 6)
        for dx in (-e, e):
            for dy in (-e, e):
                q = (p[0] + dx, p[1] + dy)
                if in_rings(env, want, q) != in_rings(env, want, p):
                    return
    off = env.NOT(on_rings(env, rings + want, p))
    env.check(env.IMPLIES(off, env.IFF(filled(env, rings, p),
                                       in_rings(env, want, p))),
              'the picture of %s covers exactly it' % what)


def nothing(env, via):
    """An empty shape has no picture, and that is no failure."""
    env.real('t', 0, 1)
    g = Geom2D.empty()
    with recording(env) as ax:
        try:
            if via == 'show':
                g.show2d(ax, 'green')
            else:
                g.to_mpatch(ax=ax)
        except Exception:
            env.fail('an empty shape can be shown')
        rings = [r for p in patches(env, ax) for r in loops(env, p)]
        env.check(all(len(r) == 0 for r in rings),
                  'an empty shape has no picture')


def ranges(env, name, n, lo, hi):
    out, last = [], None
    for i in range(n):
        a, b = env.real('%s%da' % (name, i), lo, hi), \
            env.real('%s%db' % (name, i), lo, hi)
        env.assume(a < b)
        if last is not None:
            env.assume(last < a)
        out.append((a, b))
        last = b
    return out


def plate(env, which, okn, chn):
    """A plate of a model with three plates: what it may have, what it has,
    and its own joints' positions across the joint strips."""
    Q = env.Q
    r = [rect(env, 0, 0, 30, 20), rect(env, 0, 0, 40, 20),
         rect(env, 0, 0, 50, 20)]
    sp = plex(
        [sheet(env, 's%d' % i, g, g, g) for i, g in enumerate(r)],
        [Intersection(id='s0,s1', sides=(
            interside(env, 's0,s1', 's0', 0, (0, 1), 0, 0, 6),
            interside(env, 's0,s1', 's1', 1, (0, 1), 0, 10, 15))),
         Intersection(id='s1,s2', sides=(
             interside(env, 's1,s2', 's1', 0, (0, 1), 0, 20, 26),
             interside(env, 's1,s2', 's2', 1, (0, 1), 0, 30, 38)))])
    var = {k: [(Q(1 + j), Q(2 + j))] for j, k in enumerate(
        (a, i.id) for i in sp.intersides() for a in ('ok', 'ch'))}
    mine = [s for s in sp.intersides('s%d' % which)]
    side = mine[0].id
    var['ok', side] = ranges(env, 'o', okn, 0, 20)
    var['ch', side] = ranges(env, 'c', chn, 0, 20)
    kept = {'s%d' % i: rect(env, 8, 3 + i, 9, 10) for i in range(3)}
    may = {'s%d' % i: rect(env, 7, 2 + i, 28, 18) for i in range(3)}
    sb = sheetbuild.SheetBuild(
        sheetplex=sp, sheet_chosen=pyr.pmap(kept), sheet_ok=pyr.pmap(may),
        interside_chosen=pyr.pmap({k[1]: Geom1D(v) for k, v in var.items()
                                   if k[0] == 'ch'}),
        interside_ok=pyr.pmap({k[1]: Geom1D(v) for k, v in var.items()
                               if k[0] == 'ok'}))
    with recording(env) as ax:
        sheetbuild.show_sheet(ax, sp, sb, 's%d' % which)
        by = {}
        for p in patches(env, ax):
            by.setdefault(rgb(env, p), []).append(loops(env, p))
    env.check(set(by) <= {rgb_of(c) for c in
                          ('green', 'cyan', 'red', 'blue')},
              'nothing else is drawn')
    p = (env.real('px'), env.real('py'))
    E = Q(1, 10 ** 6)

    def expect(col, f, what):
        got = by.get(rgb_of(col), [])
        if not env.symbolic:
            if len({bool(f((p[0] + x, p[1] + y))) for x in (-E, 0, E)
                    for y in (-E, 0, E)}) > 1:
                return
        edge = env.NOT(on_rings(env, [r for g in got for r in g], p)) \
            if got else True
        env.check(env.IMPLIES(
            env.AND(edge, off(col)),
            env.IFF(env.OR(*[filled(env, g, p) for g in got]), f(p))), what)

    def box(x0, x1, y0, y1, q):
        return env.AND(x0 < q[0], q[0] < x1, y0 < q[1], q[1] < y1)

    def strip(s, a, b):
        w = s.max_normal_offset - s.min_normal_offset
        return s.min_normal_offset + w * Q(a, 10), \
            s.min_normal_offset + w * Q(b, 10)

    def off(col):
        if col in ('green', 'cyan'):
            return True
        f = []
        for s in mine:
            f += [p[0] != x for x in strip(s, *((4, 6) if col == 'red'
                                                else (3, 7)))]
            f += [p[1] != y for iv in var['ch' if col == 'red' else 'ok',
                                          s.id] for y in iv]
        return env.AND(*f)
    i = which
    expect('green', lambda q: box(7, 28, 2 + i, 18, q),
           'the picture shows what the plate may have')
    expect('cyan', lambda q: box(8, 9, 3 + i, 10, q),
           'the picture shows what the plate has')
    for col, a, k in (('red', (4, 6), 'ch'), ('blue', (3, 7), 'ok')):
        expect(col, lambda q: env.OR(*[env.AND(
            strip(s, *a)[0] < q[0], q[0] < strip(s, *a)[1],
            in_ivs(env, var[k, s.id], q[1])) for s in mine]),
            'the picture shows the %s positions of its own joints, in the '
            'middle of the joint' % ('chosen' if k == 'ch' else 'possible'))
    env.observe('n', [len(by[c]) for c in sorted(by)])


HARNESSES = [
    H('shape', shape,
      [dict(name=n, via=v) for n, v in (('L', 'show'), ('frame', 'show'),
                                        ('hole2', 'ax'), ('island', 'patch'),
                                        ('checker', 'show'),
                                        ('holes3', 'show'))],
      [dict(name=n, via=v) for n in ('nest', 'dhole', 'trihole', 'comb',
                                     'two') for v in ('show', 'ax')],
      bounds='shapes with holes, islands and several pieces at every '
             'position; every point of the picture'),
    H('nothing', nothing, [dict(via='show'), dict(via='ax')],
      bounds='the empty shape'),
    H('plate', plate,
      [dict(which=0, okn=1, chn=1), dict(which=1, okn=0, chn=1),
       dict(which=2, okn=1, chn=0)],
      [dict(which=1, okn=2, chn=0), dict(which=0, okn=0, chn=2)],
      bounds='a plate of three, with one or two joints; one or two '
             'arbitrary ranges chosen and possible; every point of the '
             'picture'),
]
