"""Small models built from the real record classes: plates meeting in joints,
described in sheet coordinates (no mesh)."""
import numpy as np
import pyrsistent as pyr
from plycutter.geometry.geom2d import Geom2D
from plycutter.sheetplex import SheetPlex, Sheet, Intersection, InterSide


def vec(env, *v):
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = env.Q(x)
    return a


def interside(env, inter, sheet, idx, d, origin=0, lo=0, hi=6):
    """As the model reader makes them: normal = direction turned right."""
    Q = env.Q
    return InterSide(
        id=(inter, sheet), intersection=inter, idx=idx, sheet=sheet,
        direction=vec(env, *d), normal=vec(env, d[1], -Q(d[0])),
        origin_offset=Q(origin), min_normal_offset=Q(lo),
        max_normal_offset=Q(hi))


def rect(env, x0, y0, x1, y1):
    return Geom2D.rectangle(env.Q(x0), env.Q(y0), env.Q(x1), env.Q(y1))


def sheet(env, id, face0, face1, full):
    return Sheet(id=id, faces=[face0, face1], both_faces=face0 & face1,
                 slices_max=full, slices_min=full)


def plex(sheets, inters):
    return SheetPlex(
        sheets=pyr.pmap({s.id: s for s in sheets}),
        intersections=pyr.pmap({i.id: i for i in inters}))


def corner(env, L=20, W=30, T=6, L1=None):
    """Two plates W deep and L long that meet at a right-angled edge: the
    joint runs along y, over x in [0, T] on both."""
    L1 = L if L1 is None else L1
    s0 = sheet(env, 's0', rect(env, 0, 0, W, L), rect(env, T, 0, W, L),
               rect(env, 0, 0, W, L))
    s1 = sheet(env, 's1', rect(env, 0, 0, W, L1), rect(env, T, 0, W, L1),
               rect(env, 0, 0, W, L1))
    i = Intersection(id='s0,s1', sides=(
        interside(env, 's0,s1', 's0', 0, (0, 1), 0, 0, T),
        interside(env, 's0,s1', 's1', 1, (0, 1), 0, 0, T)))
    return plex([s0, s1], [i])


class GhostInterSide(InterSide):
    """A joint side without any area on its sheet: the state's 1-D part
    evolves as usual, the 2-D part stays as it is (the 2-D consequences of a
    choice are a property of their own)."""

    def make_fingers(self, where, fract0=0, fract1=1):
        return Geom2D.empty()


def ghost_plex(env, pairs=((0, 1),)):
    n = 1 + max(max(p) for p in pairs)
    body = rect(env, 6, 0, 30, 20)
    sheets = [sheet(env, 's%d' % i, body, body, body) for i in range(n)]
    inters = []
    for a, b in pairs:
        iid = 's%d,s%d' % (a, b)
        sides = []
        for k, x in enumerate((a, b)):
            s = interside(env, iid, 's%d' % x, k, (0, 1))
            sides.append(GhostInterSide(**{f: s[f] for f in s.keys()}))
        inters.append(Intersection(id=iid, sides=tuple(sides)))
    return plex(sheets, inters)


def cube_corner(env, A=20, B=20, C=20, T=6):
    """Three plates meeting in the corner of a box, at the origin: s0 lies in
    z (coordinates x, y), s1 in x (y, z), s2 in y (x, z); the box measures A,
    B, C along x, y, z."""
    Q = env.Q

    def sh(i, w, h):
        return sheet(env, i, rect(env, 0, 0, w, h), rect(env, T, T, w, h),
                     rect(env, 0, 0, w, h))
    ss = [sh('s0', A, B), sh('s1', B, C), sh('s2', A, C)]
    nT = -T if not isinstance(T, int) else Q(-T)
    # (joint, (sheet, direction, min, max) * 2): normal = direction turned
    # right, so a direction along x has its strip at negative offsets
    ii = []
    for iid, sides in (
            ('s0,s1', (('s0', (0, 1), 0, T), ('s1', (1, 0), nT, 0))),
            ('s0,s2', (('s0', (1, 0), nT, 0), ('s2', (1, 0), nT, 0))),
            ('s1,s2', (('s1', (0, 1), 0, T), ('s2', (0, 1), 0, T)))):
        ii.append(Intersection(id=iid, sides=tuple(
            interside(env, iid, s, k, d, 0, lo, hi)
            for k, (s, d, lo, hi) in enumerate(sides))))
    return plex(ss, ii)


def cube_side(env, A=20, B=20, C=20, T=6):
    """As cube_corner, with a fourth plate s3 (y, z) at the other end: two
    corners with three plates each."""
    Q = env.Q

    def sh(i, w, h, w0, w1):
        return sheet(env, i, rect(env, 0, 0, w, h), rect(env, w0, T, w1, h),
                     rect(env, 0, 0, w, h))
    ss = [sh('s0', A, B, T, A - T), sh('s1', B, C, T, B),
          sh('s2', A, C, T, A - T), sh('s3', B, C, T, B)]
    nT = -T if not isinstance(T, int) else Q(-T)
    A = Q(A) if isinstance(A, int) else A
    ii = []
    for iid, sides in (
            ('s0,s1', (('s0', (0, 1), 0, T), ('s1', (1, 0), nT, 0))),
            ('s0,s2', (('s0', (1, 0), nT, 0), ('s2', (1, 0), nT, 0))),
            ('s0,s3', (('s0', (0, 1), A - T, A), ('s3', (1, 0), nT, 0))),
            ('s1,s2', (('s1', (0, 1), 0, T), ('s2', (0, 1), 0, T))),
            ('s2,s3', (('s2', (0, 1), A - T, A), ('s3', (0, 1), 0, T)))):
        ii.append(Intersection(id=iid, sides=tuple(
            interside(env, iid, s, k, d, 0, lo, hi)
            for k, (s, d, lo, hi) in enumerate(sides))))
    return plex(ss, ii)


def corner_on(env, A=20, B=20, C=20, T=6, X=10,
              names=('s0', 's1', 's2')):
    """As cube_corner, on a plate s0 that extends X beyond the walls: the
    corner is at x, y in X .. X + T, the walls are A, B long and C high."""
    Q = env.Q
    n0, n1, n2 = names
    s0f = rect(env, 0, 0, X + A, X + B)
    foot = rect(env, X, X, X + T, X + B) | rect(env, X, X, X + A, X + T)
    s0 = sheet(env, n0, s0f, s0f - foot, s0f)

    def wall(i, w):
        return sheet(env, i, rect(env, 0, 0, w, C), rect(env, T, T, w, C),
                     rect(env, 0, 0, w, C))
    ss = [s0, wall(n1, B), wall(n2, A)]
    nT = -T if not isinstance(T, int) else Q(-T)
    nX = -X if not isinstance(X, int) else Q(-X)
    # s0 (x, y); s1 (y - X, z); s2 (x - X, z)
    ii = []
    for iid, sides in (
            (n0 + ',' + n1, ((n0, (0, 1), X, X + T, 0),
                       (n1, (1, 0), nT, 0, nX))),
            (n0 + ',' + n2, ((n0, (1, 0), nX + nT, nX, 0),
                       (n2, (1, 0), nT, 0, nX))),
            (n1 + ',' + n2, ((n1, (0, 1), 0, T, 0), (n2, (0, 1), 0, T, 0)))):
        ii.append(Intersection(id=iid, sides=tuple(
            interside(env, iid, s, k, d, o, lo, hi)
            for k, (s, d, lo, hi, o) in enumerate(sides))))
    return plex(ss, ii)
