"""Exact multivariate polynomials / rational functions over Q.

A polynomial is a dict {monomial: mpq}; a monomial is a sorted tuple of
variable indices with repetition (() is the constant monomial, (0, 0, 1) is
x0^2*x1).  The zero polynomial is {}.

A *key* is the canonical form of a non-constant polynomial up to a positive
or negative rational factor: a sorted tuple of (monomial, int) with coprime
coefficients and positive leading coefficient.
"""
import math
from gmpy2 import mpq, mpz  # the real ones: this module is imported first

NVARS = 48
_MPQ = type(mpq(1, 2))


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def p_sub(a, b):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = -c
        else:
            v = v - c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            elif m1[-1] <= m2[0]:
                m = m1 + m2
            elif m2[-1] <= m1[0]:
                m = m2 + m1
            else:
                m = tuple(sorted(m1 + m2))
            c = c1 * c2
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    return r


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_deg(a):
    return max((len(m) for m in a), default=0)


def p_eval(a, sample):
    """Value at sample (list of mpq indexed by variable)."""
    t = mpq(0)
    for m, c in a.items():
        for v in m:
            c = c * sample[v]
        t = t + c
    return t


def p_key(a):
    """(key, sign): a == sign * (positive rational) * key."""
    den = 1
    for c in a.values():
        d = int(c.denominator)
        if d != 1:
            den = den * d // math.gcd(den, d)
    items = []
    g = 0
    for m, c in a.items():
        n = int(c.numerator) * (den // int(c.denominator))
        g = math.gcd(g, n)
        items.append((m, n))
    items.sort(key=_mkey)
    s = 1 if items[-1][1] > 0 else -1
    g = g * s
    if g != 1:
        items = [(m, n // g) for m, n in items]
    return tuple(items), s


def _mkey(it):
    return (len(it[0]), it[0])


def key_eval(key, sample):
    t = 0
    for m, c in key:
        v = c
        for x in m:
            v = v * sample[x]
        t = t + v
    return t


def key_deg(key):
    return len(key[-1][0])


def key_vars(key):
    s = set()
    for m, _ in key:
        s.update(m)
    return s


def key_poly(key):
    return {m: mpq(c) for m, c in key}


# ---------------------------------------------------------------- sympy side
_ring = None


def _get_ring():
    global _ring
    if _ring is None:
        from sympy import QQ
        from sympy.polys.rings import ring
        _ring = ring(['x%d' % i for i in range(NVARS)], QQ)[0]
    return _ring


def _to_sym(a, varlist):
    """dict poly -> PolyElement in the ring on len(varlist) generators"""
    R = _small_ring(len(varlist))
    pos = {v: i for i, v in enumerate(varlist)}
    n = len(varlist)
    d = {}
    dom = R.domain
    for m, c in a.items():
        e = [0] * n
        for v in m:
            e[pos[v]] += 1
        d[tuple(e)] = dom(int(c.numerator), int(c.denominator))
    return R.from_dict(d)


def _from_sym(p, varlist):
    r = {}
    for e, c in p.terms():
        m = []
        for i, k in enumerate(e):
            m.extend([varlist[i]] * k)
        r[tuple(m)] = mpq(int(c.numerator), int(c.denominator))
    return r


_rings = {}


def _small_ring(n):
    r = _rings.get(n)
    if r is None:
        from sympy import QQ
        from sympy.polys.rings import ring
        r = ring(['y%d' % i for i in range(n)], QQ)[0]
        _rings[n] = r
    return r


_factor_cache = {}


def key_factors(key):
    """Irreducible factorisation over Q: (unit_sign, [(key, exp), ...])."""
    r = _factor_cache.get(key)
    if r is not None:
        return r
    if key_deg(key) <= 1:
        r = (1, ((key, 1),))
    else:
        vs = sorted(key_vars(key))
        p = _to_sym(key_poly(key), vs)
        unit, facs = p.factor_list()
        sgn = 1 if unit > 0 else -1
        out = []
        for f, e in facs:
            k, s = p_key(_from_sym(f, vs))
            if s < 0 and e % 2:
                sgn = -sgn
            out.append((k, int(e)))
        r = (sgn, tuple(out))
    _factor_cache[key] = r
    return r


_ratio_cache = {}


def p_ratio(n, d):
    """Normalise n/d -> (n', d') with d' None when it is 1 (or constant)."""
    if p_is_const(d):
        return p_scale(n, 1 / d[()]), None
    if not n:
        return {}, None
    if len(n) == len(d):
        # proportional?
        it = iter(d.items())
        m, c = next(it)
        q = n.get(m)
        if q is not None:
            k = q / c
            ok = True
            for m, c in it:
                if n.get(m) != c * k:
                    ok = False
                    break
            if ok:
                return {(): k}, None
    if p_is_const(n):
        return n, d
    vn = set()
    for m in n:
        vn.update(m)
    vd = set()
    for m in d:
        vd.update(m)
    if not (vn & vd):
        return n, d
    if p_deg(n) <= 1 and p_deg(d) <= 1:
        return n, d  # not proportional, both irreducible
    kn, sn = p_key(n)
    kd, sd = p_key(d)
    ck = (kn, kd)
    r = _ratio_cache.get(ck)
    if r is None:
        vs = sorted(vn | vd)
        pn = _to_sym(key_poly(kn), vs)
        pd = _to_sym(key_poly(kd), vs)
        g, cn, cd = pn.cofactors(pd)
        r = (_from_sym(cn, vs), _from_sym(cd, vs))
        _ratio_cache[ck] = r
    cn, cd = r
    # scale factors: n = fn * key(n); any monomial gives the ratio
    m0 = kn[0][0]
    fn = n[m0] / kn[0][1]
    m1 = kd[0][0]
    fd = d[m1] / kd[0][1]
    cn = p_scale(cn, fn)
    cd = p_scale(cd, fd)
    if p_is_const(cd):
        return p_scale(cn, 1 / cd[()]), None
    # make the denominator canonical (primitive, positive leading coeff)
    k, s = p_key(cd)
    f = cd[k[0][0]] / k[0][1]
    return p_scale(cn, 1 / f), key_poly(k)
