"""Merging cells cancels exactly the shared borders."""
from symq.runner import H
from plycutter.geometry.impl2d.cell_merger import CellMergerSlow
from plycutter.geometry.impl2d.primitive2d import simple_polygon_area
from .common import ring_edges, shoelace2

PROPERTY = 'M01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['cells are faces of one planar arrangement: borders are '
               'shared whole or not at all (as all callers guarantee)',
               'one set-iteration order is explored symbolically (constant '
               'hash); the concrete validation runs use the real hashes']


def count(xs):
    """Multiset over keys compared by ==."""
    out = []
    for x in xs:
        for o in out:
            if o[0] == x:
                o[1] += 1
                break
        else:
            out.append([x, 1])
    return out


def judge(env, cells, m, neg=()):
    loops = m.get_cells()
    origs = m.get_cells_originals()
    want = count(e for c in cells for e in ring_edges(c))
    left = []
    for (a, b), k in want:
        back = [n for e, n in want if e == (b, a)]
        if not back:
            left.append([(a, b), k])
    got = count(e for c in loops for e in ring_edges(c))
    env.check(len(got) == len(left) and all(g in left for g in got),
              'the border of the result is the unshared borders')
    env.check(sum((shoelace2(c) for c in loops), env.Q(0)) ==
              sum((shoelace2(c) for c in cells), env.Q(0)),
              'the signed area is kept')
    env.check(len(origs) == len(loops) and
              all(any(k == c for c in loops) for k in origs),
              'the originals are given for every result cell')
    # originals: groups
    for k, v in origs.items():
        env.check(all(any(o is c or o == c for c in cells) for o in v),
                  'only given cells are originals')
    if not neg:
        # without outer faces: every given cell is in one positive result,
        # and cells that share a border are in the same one
        pos = [(k, v) for k, v in origs.items()
               if shoelace2(k) < 0]
        home = []
        for c in cells:
            h = [i for i, (k, v) in enumerate(pos) if any(o == c for o in v)]
            env.check(len(h) == 1, 'every cell is in exactly one outer '
                      'result cell')
            home.append(h[0])
        for i in range(len(cells)):
            for j in range(i):
                sh = any((b, a) in ring_edges(cells[j])
                         for a, b in ring_edges(cells[i]))
                if sh:
                    env.check(home[i] == home[j],
                              'cells that share a border are merged')
    env.observe('n', [len(loops), sum(len(v) for v in origs.values())])


def grid(env, w, h, order, keep=None):
    """Cells of a w x h grid with arbitrary line positions; an arbitrary
    subset of them, added in the given order."""
    xs = [env.real('x0')]
    for i in range(w):
        xs.append(env.real('x%d' % (i + 1)))
        env.assume(xs[-1] > xs[-2])
    ys = [env.real('y0')]
    for i in range(h):
        ys.append(env.real('y%d' % (i + 1)))
        env.assume(ys[-1] > ys[-2])
    m = CellMergerSlow()
    cells = []
    for k in order:
        i, j = k % w, k // w
        if keep is None or k not in keep:
            if not env.boolean('c%d' % k):
                continue
        c = ((xs[i], ys[j]), (xs[i], ys[j + 1]), (xs[i + 1], ys[j + 1]),
             (xs[i + 1], ys[j]))
        cells.append(c)
        m.add_cell(c)
    judge(env, cells, m)


def slide(env, n, fixed):
    """Unit squares dropped at arbitrary positions along a row above fixed
    ones (borders then coincide wholly or not at all)."""
    Q = env.Q

    def sq(x, y):
        return ((x, y), (x, y + 1), (x + 1, y + 1), (x + 1, y))
    cells = [sq(Q(x), Q(y)) for x, y in fixed]
    m = CellMergerSlow()
    for c in cells:
        m.add_cell(c)
    last = None
    for i in range(n):
        t = env.real('t%d' % i, -3, 6)
        if last is not None:
            env.assume(t >= last + 1)
        last = t
        c = sq(t, Q(1))
        cells.append(c)
        m.add_cell(c)
    judge(env, cells, m)


def outer(env, order):
    """A ring of cells, its inside, and the outer face: everything cancels
    when all are there."""
    xs = [env.real('x0')]
    ys = [env.real('y0')]
    for i in range(2):
        xs.append(env.real('x%d' % (i + 1)))
        env.assume(xs[-1] > xs[-2])
        ys.append(env.real('y%d' % (i + 1)))
        env.assume(ys[-1] > ys[-2])

    def box(i, j):
        return ((xs[i], ys[j]), (xs[i], ys[j + 1]), (xs[i + 1], ys[j + 1]),
                (xs[i + 1], ys[j]))
    faces = [box(0, 0), box(1, 0), box(0, 1), box(1, 1),
             ((xs[0], ys[0]), (xs[1], ys[0]), (xs[2], ys[0]),
              (xs[2], ys[1]), (xs[2], ys[2]), (xs[1], ys[2]),
              (xs[0], ys[2]), (xs[0], ys[1]))]
    m = CellMergerSlow()
    cells = []
    for k in order:
        if env.boolean('c%d' % k):
            cells.append(faces[k])
            m.add_cell(faces[k])
    judge(env, cells, m, neg=(4,))


def windows(env, n, order):
    """A sheet with n windows at arbitrary places, cut in two through all of
    them, and the face outside: its outline cancels, the windows stay, and
    each of them knows all it came from."""
    Q = env.Q
    xs = [Q(0)]
    for i in range(2 * n + 1):
        xs.append(env.real('x%d' % i))
        env.assume(xs[-1] > xs[-2])
    b = env.real('b')
    h = env.real('h')
    t = env.real('t')
    T = env.real('T')
    env.assume(env.AND(b > 0, h > b, t > h, T > t))
    low = [(xs[0], Q(0)), (xs[0], h)]
    up = [(xs[-1], T), (xs[-1], h)]
    outer = [(xs[0], Q(0)), (xs[-1], Q(0)), (xs[-1], h), (xs[-1], T),
             (xs[0], T), (xs[0], h)]
    for k in range(n):
        x0, x1 = xs[2 * k + 1], xs[2 * k + 2]
        low += [(x0, h), (x0, b), (x1, b), (x1, h)]
    low += [(xs[-1], h), (xs[-1], Q(0))]
    for k in reversed(range(n)):
        x0, x1 = xs[2 * k + 1], xs[2 * k + 2]
        up += [(x1, h), (x1, t), (x0, t), (x0, h)]
    up += [(xs[0], h), (xs[0], T)]
    parts = [tuple(low), tuple(up), tuple(outer)]
    m = CellMergerSlow()
    cells = []
    for k in order:
        if k == 2 and not env.boolean('outer'):
            continue
        cells.append(parts[k])
        m.add_cell(parts[k])
    judge(env, cells, m, neg=(2,))
    for k, v in m.get_cells_originals().items():
        env.check(len(v) == len(cells) and
                  all(any(o == c for o in v) for c in cells),
                  'every ring knows all the cells it was merged from')


ORD9 = [(0, 1, 2, 3, 4, 5, 6, 7, 8), (0, 1, 2, 5, 8, 7, 6, 3, 4),
        (4, 0, 8, 2, 6, 1, 7, 3, 5), (8, 3, 1, 4, 6, 0, 2, 7, 5)]
HARNESSES = [
    H('grid', grid,
      [dict(w=2, h=2, order=[3, 0, 1, 2]),
       dict(w=3, h=3, order=ORD9[1], keep=[0, 1, 2, 8]),
       dict(w=3, h=3, order=ORD9[2], keep=[1, 3, 5, 7, 6]),
       dict(w=4, h=2, order=[0, 7, 2, 5, 1, 4, 6, 3], keep=[0, 7])],
      [dict(w=3, h=3, order=o) for o in ORD9] +
      [dict(w=4, h=3, order=list(range(11, -1, -1)), keep=[0, 3, 8, 11]),
       dict(w=5, h=2, order=[9, 0, 8, 1, 7, 2, 6, 3, 5, 4])],
      bounds='grids up to 3x3, 4x2 (4x3, 5x2) with arbitrary line '
             'positions; arbitrary subsets of cells; several insertion '
             'orders'),
    H('slide', slide,
      [dict(n=1, fixed=[(0, 0), (1, 0)]), dict(n=2, fixed=[(0, 0), (2, 0)]),
       dict(n=2, fixed=[(0, 0), (1, 0), (2, 0), (0, 2), (1, 2), (2, 2)])],
      [dict(n=3, fixed=[(0, 0), (1, 0), (2, 0), (0, 2), (1, 2), (2, 2)])],
      bounds='1-3 squares sliding along a row between fixed rows'),
    H('outer', outer, [dict(order=[0, 1, 2, 3, 4])],
      [dict(order=[4, 0, 1, 2, 3]), dict(order=[0, 3, 4, 1, 2])],
      bounds='2x2 cells with arbitrary line positions and the outer face; '
             'arbitrary subsets'),
    H('windows', windows,
      [dict(n=n, order=o) for n in (2, 3)
       for o in ([0, 1, 2], [2, 0, 1], [1, 2, 0])],
      [dict(n=n, order=o) for n in (1, 2, 3, 4)
       for o in ([0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1],
                 [2, 1, 0])],
      bounds='a sheet with 2-3 (1-4) windows of arbitrary position cut in '
             'two through them, with and without the face outside; several '
             'orders'),
]
