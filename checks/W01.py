"""The drawing shows every plate's outlines, side by side."""
import os
import shutil
import tempfile
from fractions import Fraction
from symq.runner import H
from plycutter import writer
from plycutter.geometry.geom2d import Geom2D
from plycutter.geometry.impl2d import geom2d_simple_holes as G2

PROPERTY = 'W01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['symbolic runs replace ezdxf by a recorder of the polylines '
               '(replays write and re-read a real file); '
               'floats are modelled as exact reals']

# rings, clockwise; every ring of a drawing has its own number of vertices,
# so that it can be recognised
RINGS = {
    3: [(0, 0), (1, 3), (4, 1)],
    4: [(0, 0), (0, 9), (9, 9), (9, 0)],
    5: [(0, 0), (0, 2), (1, 3), (2, 2), (2, 0)],
    6: [(0, 0), (0, 5), (2, 5), (2, 2), (6, 2), (6, 0)],
    7: [(0, 0), (0, 4), (2, 4), (3, 3), (3, 2), (2, 1), (1, 0)],
    8: [(0, 0), (0, 6), (2, 6), (2, 2), (4, 2), (4, 6), (6, 6), (6, 0)],
}


for _n in range(9, 21):     # steps down to the right
    RINGS[_n] = [(0, 0), (0, 20)] + \
        [(k, 20 - Fraction(k * k, 32))
         for k in range(1, _n - 2)] + [(20, 0)]


class Rec:
    """Stands for an ezdxf document."""

    def __init__(self):
        self.lines = []
        self.saved = []

    def modelspace(self):
        return self

    def add_lwpolyline(self, points, *a, **k):
        pts = [tuple(p)[:2] for p in points]
        close = bool(k.get('close', False)) or \
            bool((k.get('dxfattribs') or {}).get('closed', False))
        self.lines.append((pts, close))

    def saveas(self, name, *a, **k):
        self.saved.append(str(name))


def run(env, sheets):
    """The polylines drawn, and the names written to."""
    d = tempfile.mkdtemp(prefix='w01')
    try:
        name = os.path.join(d, 'out.dxf')
        if env.symbolic:
            real = writer.ezdxf.new
            rec = Rec()
            writer.ezdxf.new = lambda *a, **k: rec
            try:
                writer.write_dxf(name, sheets)
            finally:
                writer.ezdxf.new = real
            env.check(rec.saved == [name], 'the drawing is written to the '
                      'given file')
            for _ in rec.lines:
                env.check(True, 'only outlines are drawn')
            return rec.lines
        import ezdxf
        writer.write_dxf(name, sheets)
        env.check(os.listdir(d) == ['out.dxf'], 'the drawing is written to '
                  'the given file')
        out = []
        for e in ezdxf.readfile(name).modelspace():
            env.check(e.dxftype() == 'LWPOLYLINE', 'only outlines are drawn')
            out.append(([tuple(p)[:2] for p in e.get_points('xy')],
                        bool(e.closed)))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def close_to(env, a, b):
    e = env.Q(1, 10 ** 6)
    d = a - b
    return env.AND(-e < d, d < e)


def shift_of(env, ring, pts):
    """The translation from ring to pts (any start, either direction)."""
    n = len(ring)
    for rev in (False, True):
        q = pts[::-1] if rev else pts
        for k in range(n):
            c = q[k:] + q[:k]
            dx, dy = c[0][0] - ring[0][0], c[0][1] - ring[0][1]
            ok = env.AND(*[env.AND(close_to(env, c[i][0] - ring[i][0], dx),
                                   close_to(env, c[i][1] - ring[i][1], dy))
                           for i in range(n)])
            if bool(ok):
                return dx, dy
    return None


def draw(env, plan, sym=(), scale=None):
    """plan: sheets -> pieces -> (outer, [holes]) as (ring, x, y)."""
    Q = env.Q
    vals = {}
    for i, (lo, hi) in enumerate(sym):
        vals['v%d' % i] = env.real('v%d' % i, lo, hi)
    s = env.real('scale', *scale) if scale else Q(1)

    def num(v):
        return vals[v] if isinstance(v, str) else Q(v)

    def mk(spec):
        n, x, y = spec
        return [((Q(a) + num(x)) * s, (Q(b) + num(y)) * s)
                for a, b in RINGS[n]]
    sheets, want = {}, []
    for i, pieces in enumerate(plan):
        polys, rings = [], []
        for outer, holes in pieces:
            o, hs = mk(outer), [mk(h) for h in holes]
            polys.append(G2.Simple_Polygon_With_Holes(o, hs))
            rings += [o] + hs
        sheets['s%d' % i] = Geom2D(polys)
        want.append(rings)
    lines = run(env, sheets)
    env.observe('n', sorted(len(l) for l, c in lines))
    by = {}
    for pts, closed in lines:
        if not closed:
            env.check(env.AND(close_to(env, pts[0][0], pts[-1][0]),
                              close_to(env, pts[0][1], pts[-1][1])),
                      'every outline is closed')
            pts = pts[:-1]
        by.setdefault(len(pts), []).append(pts)
    n = sum(len(r) for r in want)
    env.check(len(lines) == n and
              all(len(v) == 1 for v in by.values()) and
              set(by) == {len(r) for rs in want for r in rs},
              'every outline and every hole is drawn exactly once')
    boxes = []
    for rings in want:
        sh = None
        xs, ys = [], []
        for ring in rings:
            d = shift_of(env, ring, by[len(ring)][0])
            env.check(d is not None, 'the shape of an outline is kept')
            if sh is None:
                sh = d
            env.check(env.AND(close_to(env, d[0], sh[0]),
                              close_to(env, d[1], sh[1])),
                      'the outlines of a plate stay in place to each other')
            xs += [p[0] for p in by[len(ring)][0]]
            ys += [p[1] for p in by[len(ring)][0]]
        if xs:
            boxes.append((xs, ys))
    e = Q(1, 10 ** 6)
    for xs, ys in boxes:
        env.check(env.AND(env.AND(*[y > -e for y in ys]),
                          env.OR(*[y < e for y in ys])),
                  'all plates stand on the same line')
    for i, (xi, yi) in enumerate(boxes):
        for xj, yj in boxes[:i]:
            def before(a, b):
                return env.AND(*[p < q for p in a for q in b])
            env.check(env.OR(before(xi, xj), before(xj, xi), before(yi, yj),
                             before(yj, yi)),
                      'the drawings of different plates do not overlap')


def one(n, x=0, y=0):
    return [((n, x, y), [])]


V = 'v0'
HARNESSES = [
    H('draw', draw,
      [dict(plan=[one(6, V), one(3)], sym=[[-50, 50]]),
       dict(plan=[one(6), one(3, 0, V), one(5)], sym=[[-50, 50]]),
       dict(plan=[one(6), one(3), one(5)], scale=[[1, 100], 10 ** 5]),
       dict(plan=[[((4, 0, 0), [(3, 1, 1), (5, 6, 3)])], one(6, V)],
            sym=[[-50, 50]]),
       dict(plan=[one(6, V, 'v1') + one(3), one(5)],
            sym=[[7, 60], [-50, 50]]),
       dict(plan=[one(6), one(3, V), []], sym=[[-50, 50]]),
       dict(plan=[one(6), [], one(3, V)], sym=[[-50, 50]]),
       dict(plan=[[], one(6, V), one(3)], sym=[[-50, 50]]),
       dict(plan=[one(6), one(3), one(5), one(7, V), one(8)],
            sym=[[-50, 50]]),
       dict(plan=[one(n, V if n == 16 else 0) for n in range(3, 19)],
            sym=[[-50, 50]]),
       dict(plan=[[((4, 0, 0), [(3, 1, 1), (5, 6, 1), (7, 5, 4)]),
                   ((8, 12, 'v0'), [])], one(6)], sym=[[-50, 50]])],
      [dict(plan=[one(6, V) + one(3, -20, 'v1'), one(5, 'v2') +
                  one(8, 'v3', 20), one(7, 'v0', 'v1')],
            sym=[[-15, 60], [-50, 50], [-50, 50], [-60, 60]]),
       dict(plan=[[((4, V, 'v1'), []), ((8, 0, 20), [])],
                  one(3, 'v2', 'v3')],
            sym=[[-50, 50], [-50, 0], [-50, 50], [-50, 50]])],
      bounds='up to sixteen plates of one to two pieces (up to three holes, empty '
             'plates), '
             'positions or size symbolic'),
]
