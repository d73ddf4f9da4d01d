"""The plates of a mesh are found, with their outlines."""
import numpy as np
from symq.runner import H
from symq.arrays import arr, linalg
from plycutter import create_sheetplex as cs
from .common import in_rings
from .shapes import out_rings
from .C02 import rot, dot
from .D08 import FakePoly, FakeMulti, fake_orient

PROPERTY = 'C01'
LEVEL = 'model_checking'
ASSUMPTIONS = ['symbolic runs replace the mesh library by the facets and the '
               'cross-sections of a known solid (replays use trimesh); '
               'floats are modelled as exact reals',
               'the solids are extruded profiles']


def profile(kind, W, Hh, T):
    """Rings (x, z; counter-clockwise outside, clockwise holes), a
    triangulation, and the plates as (axis, low, high side)."""
    if kind == 'L':
        v = [(0, 0), (W, 0), (W, T), (T, T), (T, Hh), (0, Hh)]
        return [v], [(3, 4, 5), (3, 5, 0), (3, 0, 1), (3, 1, 2)], \
            [(0, 0, T), (2, 0, T)]
    if kind == 'U':
        v = [(0, 0), (W, 0), (W, Hh), (W - T, Hh), (W - T, T), (T, T),
             (T, Hh), (0, Hh)]
        return [v], [(5, 6, 7), (5, 7, 0), (5, 0, 4), (0, 1, 4), (4, 1, 2),
                     (4, 2, 3)], [(0, 0, T), (2, 0, T), (0, W - T, W)]
    if kind == 'T':
        m = W / 3
        v = [(0, 0), (W, 0), (W, T), (m + T, T), (m + T, Hh), (m, Hh),
             (m, T), (0, T)]
        return [v], [(0, 6, 7), (0, 3, 6), (0, 1, 3), (1, 2, 3), (6, 3, 4),
                     (6, 4, 5)], [(2, 0, T), (0, m, m + T)]
    if kind == 'cross':
        m, a = W / 3, Hh / 3
        v = [(0, a), (m, a), (m, 0), (m + T, 0), (m + T, a), (W, a),
             (W, a + T), (m + T, a + T), (m + T, Hh), (m, Hh), (m, a + T),
             (0, a + T)]
        return [v], [(1, 4, 7), (1, 7, 10), (0, 1, 10), (0, 10, 11),
                     (1, 2, 3), (1, 3, 4), (4, 5, 6), (4, 6, 7),
                     (10, 7, 8), (10, 8, 9)], \
            [(2, a, a + T), (0, m, m + T)]
    if kind == 'groove':     # a plate with a groove (Hh: its floor), a leg
        a, b = W / 3, W / 2
        v = [(0, -30), (T, -30), (T, 0), (W, 0), (W, T), (b, T), (b, Hh),
             (a, Hh), (a, T), (0, T)]
        return [v], [(0, 1, 2), (0, 2, 9), (2, 7, 8), (2, 8, 9), (2, 6, 7),
                     (2, 3, 6), (3, 5, 6), (3, 4, 5)], \
            [(2, 0, T), (0, 0, T)]
    if kind in ('rebate', 'rebate2'):    # a plate with a stepped edge
        e = W - (4 if kind == 'rebate' else 9)
        v = [(0, -30), (T, -30), (T, 0), (W, 0), (W, Hh), (e, Hh), (e, T),
             (0, T)]
        return [v], [(0, 1, 2), (0, 2, 7), (2, 3, 5), (3, 4, 5), (2, 5, 6),
                     (2, 6, 7)], [(2, 0, T), (0, 0, T)]
    if kind == 'tube':
        o = [(0, 0), (W, 0), (W, Hh), (0, Hh)]
        i = [(T, T), (T, Hh - T), (W - T, Hh - T), (W - T, T)]
        # corners: outer 0..3, inner 4 (TT), 5 (T,H-T), 6, 7 (W-T,T)
        return [o, i], [(0, 1, 7), (0, 7, 4), (1, 2, 6), (1, 6, 7),
                        (2, 3, 5), (2, 5, 6), (3, 0, 4), (3, 4, 5)], \
            [(0, 0, T), (2, 0, T), (0, W - T, W), (2, Hh - T, Hh)]
    if kind == 'block':
        v = [(0, 0), (W, 0), (W, Hh), (0, Hh)]
        return [v], [(0, 1, 2), (0, 2, 3)], []
    if kind == 'tongue':     # a plate with a tongue (T wide)
        a = W / 3
        b = a + T
        v = [(0, 0), (W, 0), (W, Hh), (b, Hh), (b, Hh + 10), (a, Hh + 10),
             (a, Hh), (0, Hh)]
        return [v], [(0, 1, 6), (0, 6, 7), (1, 2, 3), (1, 3, 6), (3, 4, 5),
                     (3, 5, 6)], []
    if kind == 'tri':      # a right-angled triangle with legs 4:3
        v = [(0, 0), (W * 4, 0), (0, W * 3)]
        return [v], [(0, 1, 2)], []
    raise KeyError(kind)


def vecsum(*vs):
    return [sum(c[1:], c[0]) for c in zip(*vs)]


class Solid:
    """An extruded profile, turned and moved."""

    def __init__(self, env, kind, W, Hh, D, T, R, shift, hole=None):
        Q = env.Q
        self.env, self.D, self.R, self.shift = env, D, R, shift
        rings, tris, plates = profile(kind, W, Hh, T)
        z = Q(0)
        self.rings = [[(a + z, b + z) for a, b in r] for r in rings]
        self.plates = [(k, a + z, b + z) for k, a, b in plates]
        pts = [p for r in self.rings for p in r]
        n = len(pts)
        self.local = [(x, z, y_) for x, y_ in pts] + \
                     [(x, D, y_) for x, y_ in pts]
        self.world = [self.to_world(p) for p in self.local]
        # facets: name -> (local normal, triangles)
        fs = [((Q(0), Q(-1), Q(0)), [t for t in tris]),
              ((Q(0), Q(1), Q(0)), [(a + n, c + n, b + n)
                                    for a, b, c in tris])]
        base = 0
        for r in self.rings:
            m = len(r)
            for i in range(m):
                a, b = base + i, base + (i + 1) % m
                dx = r[(i + 1) % m][0] - r[i][0]
                dz = r[(i + 1) % m][1] - r[i][1]
                if kind == 'tri' and i == 1:
                    nn = (Q(3, 5), Q(0), Q(4, 5))
                else:
                    s = [1 if bool(v > 0) else -1 if bool(v < 0) else 0
                         for v in (dx, dz)]
                    nn = (Q(s[1]), Q(0), Q(-s[0]))
                fs.append((nn, [(a, b + n, b), (a, a + n, b + n)]))
            base += m
        self.facet_list = fs

    def to_world(self, p):
        return [dot(self.R[i], p) + self.shift[i] for i in range(3)]

    def inside(self, p):
        """Local point in the solid?"""
        env = self.env
        return env.AND(0 < p[1], p[1] < self.D,
                       in_rings(env, self.rings, (p[0], p[2])))

    def mesh(self):
        faces = [t for nn, ts in self.facet_list for t in ts]
        if not self.env.symbolic:
            import trimesh
            # outward: counter-clockwise from outside
            v = arr(self.env, self.world)
            return trimesh.Trimesh(vertices=v, faces=np.array(faces),
                                   process=False)
        return FakeMesh(self, faces)


class FakeSection:
    def __init__(self, polys, to_3D):
        self.polygons_full = polys
        self.metadata = {'to_3D': to_3D}


class FakeMesh:
    """What the mesh library tells about the solid."""

    def __init__(self, solid, faces):
        env = solid.env
        self.solid = solid
        self.faces = np.array(faces)
        self.vertices = arr(env, solid.world)
        t = np.empty((len(faces), 3, 3), dtype=object)
        for i, f in enumerate(faces):
            for j, v in enumerate(f):
                for k in range(3):
                    t[i, j, k] = self.vertices[v][k]
        self.triangles = t.view(type(self.vertices))
        R = solid.R
        self.facets, self.facets_normal, self.facets_origin = [], [], []
        self.facets_area, self.facets_boundary = [], []
        self.face_normals, self.area_faces = [], []
        i = 0
        self.local_normals = []
        for nn, ts in solid.facet_list:
            w = arr(env, [dot(R[k], nn) for k in range(3)])
            ids = list(range(i, i + len(ts)))
            i += len(ts)
            area = []
            for f in ts:
                a, b, c = [solid.local[v] for v in f]
                u = [b[k] - a[k] for k in range(3)]
                v = [c[k] - a[k] for k in range(3)]
                cr = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
                      u[0] * v[1] - u[1] * v[0]]
                ar = dot(cr, nn) / 2
                area.append(arr(env, [ar])[0])
                self.face_normals.append(w)
                self.area_faces.append(area[-1])
            self.local_normals.append((w, nn))
            if len(ts) < 2:
                continue     # the library reports no such facets
            self.facets.append(ids)
            self.facets_normal.append(w)
            self.facets_origin.append(self.vertices[ts[0][0]])
            self.facets_area.append(sum(area[1:], area[0]))
            es = {}
            for f in ts:
                for k in range(3):
                    e = (f[k], f[(k + 1) % 3])
                    es[tuple(sorted(e))] = es.get(tuple(sorted(e)), 0) + 1
            self.facets_boundary.append([e for e, c in es.items() if c == 1])
        if not self.facets:
            self.facets_origin = None

    def section_multiplane(self, plane_origin, plane_normal, heights):
        import trimesh.geometry
        s = self.solid
        env = s.env
        nn = None
        for w, l in self.local_normals:
            for sign in (1, -1):
                if all(bool(a == sign * b) for a, b in zip(plane_normal, w)):
                    nn = [sign * v for v in l]
        assert nn is not None
        fl = [float(v.c) if hasattr(v, 'c') else float(v)
              for v in plane_normal]
        base = np.linalg.inv(trimesh.geometry.plane_transform(
            origin=[0., 0., 0.], normal=fl))
        n3 = [dot(s.R[k], nn) for k in range(3)]
        out = []
        for h in heights:
            # the local plane nn . p = c
            c = h - dot(n3, s.shift)
            polys = []
            if bool(nn[1] != 0):
                y = c * nn[1]
                if bool(0 < y) and bool(y < s.D):
                    polys.append([[(x, y, z) for x, z in r]
                                  for r in s.rings])
            else:
                # cut the profile by the line nn . (x, z) = c
                d = (-nn[2], nn[0])
                cr = []
                for r in s.rings:
                    for a, b in zip(r, r[1:] + r[:1]):
                        fa = a[0] * nn[0] + a[1] * nn[2] - c
                        fb = b[0] * nn[0] + b[1] * nn[2] - c
                        if bool(fa < 0) != bool(fb < 0):
                            t = fa / (fa - fb)
                            q = (a[0] + (b[0] - a[0]) * t,
                                 a[1] + (b[1] - a[1]) * t)
                            cr.append((q[0] * d[0] + q[1] * d[1], q))
                # sort
                srt = []
                for e in cr:
                    i = len(srt)
                    while i and bool(e[0] < srt[i - 1][0]):
                        i -= 1
                    srt.insert(i, e)
                z = env.Q(0)
                for a, b in zip(srt[::2], srt[1::2]):
                    a, b = a[1], b[1]
                    polys.append([[(a[0], z, a[1]), (b[0], z, b[1]),
                                   (b[0], s.D, b[1]), (a[0], s.D, a[1])]])
            if not polys:
                out.append(None)
                continue
            T3 = arr(env, [[env.Q(float(v)) for v in row] for row in base])

            def flat(p):
                w = s.to_world(p)
                q = [dot([base_q[i][k] for i in range(3)], w)
                     for k in range(2)]
                return tuple(arr(env, q))
            base_q = [[env.Q(float(v)) for v in row] for row in base]
            fps = []
            for rings in polys:
                rs = [[flat(p) for p in r] for r in rings]
                rs = [r + r[:1] for r in rs]
                fps.append(FakePoly(rs[0], rs[1:]))
            out.append(FakeSection(fps, T3))
        return out


def fake_union(polys):
    polys = list(polys)
    if len(polys) == 1:
        return polys[0]
    return FakeMulti('MultiPolygon', polys)


def run(env, mesh, params):
    if not env.symbolic:
        return cs.create_sheetplex(mesh, params)
    import shapely
    import shapely.ops
    import shapely.geometry
    keep = shapely.ops.unary_union, shapely.geometry.polygon.orient
    shapely.ops.unary_union = fake_union
    shapely.geometry.polygon.orient = fake_orient
    try:
        with linalg(env):
            return cs.create_sheetplex(mesh, params)
    finally:
        shapely.ops.unary_union, shapely.geometry.polygon.orient = keep


ROT = {'id': (1, 0, 0, 0), 'x': (1, 1, 0, 0), 'flip': (0, 1, 0, 0),
       'skew': (1, 2, 0, 1)}


def find(env, kind, sym, rotation='id', W=40, Hh=31, D=53, T=6, given=None):
    """The plates of a solid."""
    Q = env.Q
    d = dict(W=Q(W), Hh=Q(Hh), D=Q(D), T=Q(T))
    sh = [Q(0)] * 3
    for name, (lo, hi) in sym.items():
        v = env.real(name, lo, hi)
        if name == 'shift':
            sh = [v, Q(2) * v, Q(1) - v]
        elif name != 'given':
            d[name] = v
        else:
            given = v
    R = rot(env, ROT[rotation])
    solid = Solid(env, kind, d['W'], d['Hh'], d['D'], d['T'], R, sh)
    plates = list(solid.plates)
    if kind in ('block', 'tri', 'tongue'):
        plates.append((1, Q(0), d['D']))
        thick = d['D']
    else:
        thick = d['T']
    g = thick if given is None else given
    if given is not None:
        env.assume(env.OR(g - thick < Q(9, 100), g - thick > Q(11, 100)))
        env.assume(env.OR(thick - g < Q(9, 100), thick - g > Q(11, 100)))
    err = None
    try:
        sp = run(env, solid.mesh(), dict(thickness=g, only_sheets=None))
    except AssertionError as e:
        if given is None or 'thickness' not in str(e):
            raise
        err = e
    if given is not None:
        near = env.AND(g - thick < Q(1, 10), thick - g < Q(1, 10))
        n = 0 if err is not None else len(sp.sheets)
        env.observe('n', n)
        env.check(env.IFF(near, n == len(plates)),
                  'plates of the given thickness are found')
        env.check(env.OR(near, n == 0),
                  'nothing of another thickness is taken for a plate')
        if not n:
            return
    env.check(len(sp.sheets) == len(plates), 'every plate is found, once')
    env.check(all(s.id == k for k, s in sp.sheets.items()),
              'a plate knows its name')
    p = (env.real('u', -9, 260), env.real('w', -9, 260))
    m = Q(1, 10 ** 5)
    todo = list(plates)
    for s in sp.sheets.values():
        nw = [to_q(env, v) for v in s.sides[0][:3]]
        off = to_q(env, s.sides[0][3])
        # the plate meant
        hit = None
        for pl in todo:
            k, lo, hi = pl
            for sign in (1, -1):
                ln = [Q(0)] * 3
                ln[k] = Q(sign)
                w = [dot(R[i], ln) for i in range(3)]
                o = (hi if sign == 1 else -lo) + dot(w, sh)
                if bool(env.AND(*[near_(env, a, b) for a, b in zip(nw, w)],
                                near_(env, off, o))):
                    hit = (pl, sign)
        env.check(hit is not None, 'a plate lies where the model has one')
        (k, lo, hi), sign = hit
        todo.remove(hit[0])
        no = [to_q(env, v) for v in s.sides[1][:3]]
        oo = to_q(env, s.sides[1][3])
        env.check(env.AND(*[near_(env, a, -b) for a, b in zip(no, nw)],
                          near_(env, oo, -(off - g))),
                  'the other side is a thickness away')
        # a place on the plate: local coordinates besides k
        a, b = [i for i in range(3) if i != k]
        X = [None] * 3
        X[a], X[b] = p
        top = hi if sign == 1 else lo
        bot = lo if sign == 1 else hi

        def at(v):
            Y = list(X)
            Y[k] = v
            return Y
        mid = solid.to_world(at((lo + hi) / 2))
        inv = [[to_q(env, v) for v in row]
               for row in s.inverse_slice_rotation]
        q = (dot(inv[0][:3], mid), dot(inv[1][:3], mid))
        # off the edges of everything
        far = []
        for x, z in [v for r in solid.rings for v in r]:
            for c, e in ((0, x), (2, z)):
                if c != k:
                    far += [env.OR(X[c] < e - m, X[c] > e + m)]
        if k != 1:
            far += [env.OR(X[1] < -m, X[1] > m),
                    env.OR(X[1] < d['D'] - m, X[1] > d['D'] + m)]
        if kind == 'tri':
            e = 3 * X[0] + 4 * X[2] - 12 * d['W'] if k == 1 else Q(1)
            far += [env.OR(e < -m, e > m)]
        far = env.AND(*far)
        step = Q(1, 10) * sign

        def same(geom, want, label):
            env.check(env.IMPLIES(far, env.IFF(
                in_rings(env, out_rings(geom), q), want)), label)
        body = solid.inside(at((lo + hi) / 2))
        if kind in ('groove', 'rebate', 'rebate2') and k == 2:
            same(s.slices_max, solid.inside(at(env.Q(1, 4))),
                 'the outline of a plate has all of its material')
            same(s.slices_min, solid.inside(at(hi - env.Q(1, 4))),
                 'the inner outline of a plate has what is everywhere')
        else:
            same(s.slices_max, body,
                 'the outline of a plate has all of its material')
            same(s.slices_min, body,
                 'the inner outline of a plate has what is everywhere')
        f = []
        for i, (t, dirn) in enumerate(((top, 1), (bot, -1))):
            out = solid.inside(at(t + step * dirn))
            just = solid.inside(at(t - step * dirn / 10))
            beyond = solid.inside(at(t + step * dirn / 10))
            f.append(env.AND(just, env.NOT(beyond)))
            same(s.faces[i], f[-1], 'a face of a plate is where its surface '
                 'is')
            same(s.outside_slices[i], out, 'what lies on a plate is found')
        same(s.both_faces, env.AND(*f), 'both faces are where both surfaces '
             'are')
    env.check(not todo, 'every plate is found, once')


def only(env, kind, sym, rotation='id', W=40, Hh=31, D=53, T=6):
    """Only the plates asked for."""
    d = dict(W=env.Q(W), Hh=env.Q(Hh), D=env.Q(D), T=env.Q(T))
    for name, (lo, hi) in sym.items():
        d[name] = env.real(name, lo, hi)
    solid = Solid(env, kind, d['W'], d['Hh'], d['D'], d['T'],
                  rot(env, ROT[rotation]), [env.Q(0)] * 3)
    sp = run(env, solid.mesh(), dict(thickness=d['T'], only_sheets=None))
    names = sorted(sp.sheets)
    want = [n for n in names if env.boolean('want_' + n)]
    few = run(env, solid.mesh(), dict(thickness=d['T'], only_sheets=want))
    env.check(sorted(few.sheets) == want, 'the plates asked for are made')
    env.observe('joints', sorted(few.intersections))
    env.check(all(sorted(set(s.sheet for s in i.sides)) in
                  [[a, b] for a in want for b in want]
                  for i in few.intersections.values()),
              'joints are between plates that are made')
    env.check(sorted(few.intersections) == sorted(
        k for k, i in sp.intersections.items()
        if all(s.sheet in want for s in i.sides)),
        'the joints between the plates asked for are there')
    for n in want:
        a, b = sp.sheets[n], few.sheets[n]
        env.check(env.AND(*[near_(env, to_q(env, u), to_q(env, v))
                            for x, y in zip(a.sides, b.sides)
                            for u, v in zip(x, y)]),
                  'a plate has the same name whatever is asked for')


def to_q(env, v):
    if env.symbolic:
        return v if hasattr(v, 'c') else env.Q(float(v))
    return env.Q(float(v))


def near_(env, a, b):
    e = env.Q(1, 10 ** 6)
    return env.AND(a - b < e, b - a < e)


def c(kind, rotation='id', **sym):
    k = {x: sym.pop(x) for x in list(sym) if not isinstance(sym[x], list)}
    return dict(kind=kind, rotation=rotation, sym=sym, **k)


PARTS = [[[0, 1], [2, 3]], [[1, 2], [3, 4]], [[0, 4]], [],
         [[0, 2, 4], [1, 3]]]


class AnyMesh:
    pass


def facets(env):
    """Faces of several triangles and of a single one: five triangles of
    any size and place."""
    f = getattr(cs, 'find_all_facets', None)
    if f is None:
        env.check(True, 'faces are judged')
        return
    Q = env.Q
    part = PARTS[env.choice('part', len(PARTS))]
    m = AnyMesh()
    tri = [(3 * i, 3 * i + 1, 3 * i + 2) for i in range(5)]
    # triangles 0 and 2, 1 and 3 share an edge
    tri[2] = (1, 0, 8)
    tri[3] = (4, 3, 11)
    m.faces = np.array(tri)
    v = [[env.real('v%d%d' % (i, k), -50, 50) if k == i % 3 else
          Q((7 * i + 5 * k) % 13) for k in range(3)] for i in range(15)]
    m.vertices = arr(env, v)
    t = np.empty((5, 3, 3), dtype=object)
    for i in range(5):
        for j in range(3):
            for k in range(3):
                t[i, j, k] = m.vertices[tri[i][j]][k]
    m.triangles = t.view(type(m.vertices))
    area = [env.real('area%d' % i, 1, 100) for i in range(5)]
    m.area_faces = arr(env, area)
    nrm = [[env.real('n%d%d' % (i, k), -1, 1) for k in range(3)]
           for i in range(5)]
    m.face_normals = arr(env, nrm)
    m.facets = [np.array(p) for p in part]
    m.facets_normal = [m.face_normals[p[0]] for p in part]
    m.facets_origin = [m.triangles[p[0]][1] for p in part] or None
    m.facets_area = [sum(area[q] for q in p) for p in part]
    m.facets_boundary = []

    def edges(p):
        es = {}
        for q in p:
            for k in range(3):
                e = tuple(sorted((tri[q][k], tri[q][(k + 1) % 3])))
                es[e] = es.get(e, 0) + 1
        return sorted(e for e, n in es.items() if n == 1)
    m.facets_boundary = [np.array(edges(p)) for p in part]
    r = f(m)
    got = [sorted(int(q) for q in x) for x in r.facets]
    want = [sorted(p) for p in part]
    want += [[q] for q in range(5) if not any(q in p for p in part)]
    env.check(sorted(got) == sorted(want),
              'every triangle of the model is on exactly one face')
    n = len(got)
    env.check(all(len(x) == n for x in (r.normals, r.origins, r.areas,
                                        r.boundaries)),
              'everything is known of every face')

    def same(a, b):
        return env.AND(*[near_(env, to_q(env, x), y)
                         for x, y in zip(a, b)])
    for i, p in enumerate(got):
        env.check(near_(env, to_q(env, r.areas[i]),
                        sum(area[q] for q in p)),
                  'the size of a face is that of its triangles')
        env.check(env.OR(*[same(r.normals[i], nrm[q]) for q in p]),
                  'a face looks the way of its triangles')
        env.check(env.OR(*[same(r.origins[i], v[c]) for q in p
                           for c in tri[q]]), 'the point of a face is on it')
        env.check(sorted(tuple(sorted(int(c) for c in e))
                         for e in r.boundaries[i]) == edges(p),
                  'the border of a face is its own')


HARNESSES = [
    H('facets', facets, [dict()], bounds='five triangles of symbolic size, '
      'place and direction, on faces of one to three triangles in five '
      'arrangements'),
    H('find', find,
      [c('L', W=[25, 60]), c('T', W=[35, 60]),
       c('cross', W=[60, 80], Hh=50), c('groove', Hh=[1, 5]),
       c('rebate', Hh=[1, 5]), c('rebate2', Hh=[1, 5]),
       c('L', 'x', T=[2, 9]), c('U', D=[20, 60]),
       c('tube', Hh=[25, 50]), c('U', 'flip', shift=[-50, 50]),
       c('block', D=[2, 9]), c('tri', D=[2, 9], W=5), c('L', given=[4, 8]),
       c('tri', 'x', W=[3, 9], D=6), c('tongue', T=[4, 8], D=6)],
      [c('L', W=[25, 60], Hh=[25, 60]), c('L', 'skew', W=[25, 60]),
       c('tube', T=[2, 8]), c('tube', 'flip', shift=[-50, 50]),
       c('U', 'x', Hh=[20, 60]), c('block', 'skew', D=[2, 9]),
       c('tri', 'skew', D=[2, 9], W=5), c('tube', given=[4, 8]),
       c('block', D=6, given=[4, 8])],
      bounds='L, U, T, cross, grooved, stepped and box profiles, a block and '
             'a triangle; one or two '
             'sizes, the place or the given thickness symbolic; four '
             'orientations', path_s=200),
    H('only', only, [c('U', Hh=[36, 60])], [c('tube', 'x', W=[25, 60])],
      bounds='any selection of the plates of a U (thorough: box) profile of '
             'symbolic size', path_s=200),
]
