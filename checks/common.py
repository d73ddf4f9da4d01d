"""Oracles shared by the checks (independent of the code under test)."""
import math

INF = math.inf


def frac_class():
    from plycutter import plytypes
    return plytypes.FractionClass


def exact(env, v, label='coordinates are exact rationals (or infinities)'):
    """v must be an exact rational; a float (or anything else) is a loss."""
    if type(v).__name__ in ('float', 'mpfr') and abs(v) == INF:
        return
    if isinstance(v, int) or type(v).__name__ == 'mpz':
        return
    if type(v) is not frac_class() and type(v) is not env.Q:
        env.fail(label)


def canon_ivs(env, name, n, lo_inf=False, hi_inf=False, gap=True):
    """n disjoint, sorted, non-touching open intervals with symbolic ends."""
    ivs = []
    prev = None
    for i in range(n):
        if i == 0 and lo_inf:
            lo = -INF
        else:
            lo = env.real('%s%dl' % (name, i))
            if prev is not None:
                env.assume(lo > prev)
        if i == n - 1 and hi_inf:
            hi = INF
        else:
            hi = env.real('%s%dh' % (name, i))
            if lo != -INF or True:
                env.assume(hi > lo)
        ivs.append((lo, hi))
        prev = hi
    return ivs


MANY = [(-9, -8), (-7, -5), (0, 1), (2, 5), (6, 8), (9, 11), (12, 19),
        (20, 21), (25, 35)]


def some_ivs(env, name, n, inf=0, many=False):
    """n arbitrary ranges, or many given ones."""
    if many:
        return [(env.Q(a), env.Q(b)) for a, b in MANY]
    return canon_ivs(env, name, n, bool(inf & 1), bool(inf & 2))


def raw_ivs(env, name, n):
    """n arbitrary intervals lo <= hi in any order (touching, overlapping,
    empty ...)."""
    ivs = []
    for i in range(n):
        lo = env.real('%s%dl' % (name, i))
        hi = env.real('%s%dh' % (name, i))
        env.assume(lo <= hi)
        ivs.append((lo, hi))
    return ivs


def in_ivs(env, ivs, p):
    return env.OR(*[env.AND(a < p, p < b) for a, b in ivs])


def not_end(env, ivs, p):
    return env.AND(*[env.AND(a != p, p != b) for a, b in ivs])


def check_canonical(env, g, label='result intervals sorted, disjoint, '
                                  'non-empty and merged'):
    prev = None
    for iv in g.intervals:
        if len(iv) != 2:
            env.fail(label)
        a, b = iv
        exact(env, a)
        exact(env, b)
        env.check(a < b, label)
        if prev is not None:
            env.check(prev < a, label)
        prev = b


# ------------------------------------------------------------------ 2-D
def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def ring_edges(ring):
    n = len(ring)
    return [(ring[i], ring[(i + 1) % n]) for i in range(n)]


def on_edge(env, a, b, p):
    """p on the closed segment a b (formula)."""
    return env.AND(
        cross(a, b, p) == 0,
        env.OR(env.AND(a[0] <= p[0], p[0] <= b[0]),
               env.AND(b[0] <= p[0], p[0] <= a[0])),
        env.OR(env.AND(a[1] <= p[1], p[1] <= b[1]),
               env.AND(b[1] <= p[1], p[1] <= a[1])))


def on_rings(env, rings, p):
    return env.OR(*[on_edge(env, a, b, p)
                    for r in rings for a, b in ring_edges(r)])


def crossings(env, a, b, p):
    """Edge a b crosses the ray from p towards +x (half-open rule)."""
    up = env.AND(a[1] <= p[1], p[1] < b[1])
    dn = env.AND(b[1] <= p[1], p[1] < a[1])
    c = cross(a, b, p)
    return env.OR(env.AND(up, c > 0), env.AND(dn, c < 0))


def in_rings(env, rings, p):
    """Even-odd membership of p in the region bounded by the rings (valid
    off the rings)."""
    return env.XOR(*[crossings(env, a, b, p)
                     for r in rings for a, b in ring_edges(r)])


def shoelace2(ring):
    """Twice the signed area (counter-clockwise positive, y up)."""
    s = 0
    for a, b in ring_edges(ring):
        s = s + (a[0] * b[1] - a[1] * b[0])
    return s
