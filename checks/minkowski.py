"""Oracle for growing / shrinking: exact, independent of the code.

The documented kernel is a regular octagon of the given radius with vertices
along the axes and the diagonals; along the axes the distance is exact, along
the diagonals it is rational and therefore within EPS of the radius.
"""
from symq.poly import mpq

EPS = mpq(1, 256)
KERNEL_NOTE = ('the grown distance is exact along the axes and within 1/256 '
               '(relative) of the radius along the diagonals: the kernel is '
               'a rational octagon')


def cr(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def slabs(rings):
    """Trapezoids (vertical slabs) covering the even-odd inside of concrete
    rings; each a list of vertices, counter-clockwise."""
    rings = [[(mpq(x), mpq(y)) for x, y in r] for r in rings]
    edges = []
    for r in rings:
        for i in range(len(r)):
            a, b = r[i], r[(i + 1) % len(r)]
            if a[0] != b[0]:
                edges.append((a, b) if a < b else (b, a))
    xs = sorted({v[0] for r in rings for v in r})
    out = []

    def y(e, x):
        (x0, y0), (x1, y1) = e
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    for x0, x1 in zip(xs, xs[1:]):
        m = (x0 + x1) / 2
        act = sorted((e for e in edges if e[0][0] <= x0 and e[1][0] >= x1),
                     key=lambda e: y(e, m))
        assert len(act) % 2 == 0
        for lo, hi in zip(act[::2], act[1::2]):
            t = [(x0, y(lo, x0)), (x1, y(lo, x1)), (x1, y(hi, x1)),
                 (x0, y(hi, x0))]
            t = [v for i, v in enumerate(t) if v != t[i - 1]]
            out.append(t)
    return out


def merge(parts):
    """Greedily merge convex parts that share a whole border and whose union
    is convex (fewer parts: smaller formulas)."""
    parts = [clean(p) for p in parts]
    again = True
    while again:
        again = False
        for i in range(len(parts)):
            for j in range(i):
                m = joined(parts[i], parts[j])
                if m:
                    parts = [p for k, p in enumerate(parts)
                             if k not in (i, j)] + [m]
                    again = True
                    break
            if again:
                break
    return parts


def clean(p):
    n = len(p)
    return [p[i] for i in range(n)
            if cr(p[i - 1], p[i], p[(i + 1) % n]) != 0]


def hull(pts):
    pts = sorted(set(pts))

    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and cr(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def area2(p):
    return sum(p[i - 1][0] * p[i][1] - p[i - 1][1] * p[i][0]
               for i in range(len(p)))


def joined(a, b):
    h = hull(a + b)
    if area2(h) == area2(a) + area2(b):
        return h
    return None


def convex_parts(rings):
    return merge(slabs(rings))


def kernel(sign):
    """Octagon of radius 1; diagonal vertices at 1 + sign * EPS."""
    # 0.70710678..: any rational this close is far inside EPS
    d = mpq(70710678, 100000000) * (1 + sign * EPS)
    return [(1, 0), (d, d), (0, 1), (-d, d), (-1, 0), (-d, -d), (0, -1),
            (d, -d)]


def inside_sum(env, part, p, r, sign):
    """p is inside part (+) r * kernel(sign) (linear formula in p and r; part
    is concrete and convex); strictly for sign -1, loosely for sign 1."""
    k = kernel(sign)
    normals = []
    for poly in (part, k):
        n = len(poly)
        for i in range(n):
            a, b = poly[i], poly[(i + 1) % n]
            normals.append((b[1] - a[1], a[0] - b[0]))
    out = []
    seen = []
    for nx, ny in normals:
        s = abs(nx) + abs(ny)
        nn = (nx / s, ny / s)
        if nn in seen:
            continue
        seen.append(nn)
        h = max(nn[0] * x + nn[1] * y for x, y in part)
        hk = max(nn[0] * x + nn[1] * y for x, y in k)
        a = env.Q(nn[0]) * p[0] + env.Q(nn[1]) * p[1]
        b = env.Q(h) + env.Q(hk) * r
        out.append(a < b if sign < 0 else a <= b)
    return env.AND(*out)
