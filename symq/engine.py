"""Symbolic execution of the real Python code over exact rationals.

The code under test is executed unmodified by CPython; its rational number
class (gmpy2.mpq) is replaced by SymQ, whose values are rational functions in
symbolic variables.  Every truth value the code asks for becomes a sign
condition on an irreducible polynomial.  The executor keeps the path condition
as a *region* (a conjunction of sign conditions), follows one concrete rational
sample of the region, and asks z3 whether the opposite outcome is also
possible; if so that part of the region is pushed for later.  The regions
explored partition the input space, so when the work list is empty every value
within the stated bounds has been covered.  Assertions are discharged by z3
(path condition and negated assertion unsatisfiable).
"""
import gmpy2
import itertools
import math
import numbers
import time
import fractions as _fractions

from gmpy2 import mpq as MPQ, mpz as MPZ  # the real ones

import z3

from . import poly as P

_MPQT = type(MPQ(1, 2))
_MPZT = type(MPZ(1))
INF = math.inf


# ------------------------------------------------------------- control flow
class EngineSignal(BaseException):
    """Never caught by `except Exception` in the code under test."""


class PathAbort(EngineSignal):
    """The rest of this path is infeasible (assumption unsatisfiable)."""


class Inconclusive(EngineSignal):
    """Cannot go on soundly (solver unknown, unsupported operation)."""


class PathTimeout(EngineSignal):
    pass


class Violation(EngineSignal):
    def __init__(self, label, sample):
        self.label = label
        self.sample = sample


CTX = None  # the current Ctx


# ------------------------------------------------------------- z3 expressions
_zvars = []
_zexpr = {}


def zvar(i):
    while len(_zvars) <= i:
        _zvars.append(z3.Real('v%d' % len(_zvars)))
    return _zvars[i]


def zkey(key):
    e = _zexpr.get(key)
    if e is None:
        terms = []
        for m, c in key:
            t = None
            for v in m:
                t = zvar(v) if t is None else t * zvar(v)
            if t is None:
                t = z3.RealVal(c)
            elif c != 1:
                t = z3.RealVal(c) * t
            terms.append(t)
        e = terms[0] if len(terms) == 1 else z3.Sum(terms)
        _zexpr[key] = e
    return e


_zatoms = {}


def zatom(key, mask):
    r = _zatoms.get((key, mask))
    if r is None:
        e = zkey(key)
        if mask == 1:
            r = e < 0
        elif mask == 2:
            r = e == 0
        elif mask == 4:
            r = e > 0
        elif mask == 3:
            r = e <= 0
        elif mask == 6:
            r = e >= 0
        elif mask == 5:
            r = e != 0
        else:
            r = z3.BoolVal(mask == 7)
        _zatoms[(key, mask)] = r
    return r


FLIP = [0, 4, 2, 6, 1, 5, 3, 7]


def sgnbit(v):
    return 4 if v > 0 else (1 if v < 0 else 2)


def _zfrac(v):
    """z3 value -> MPQ or None (irrational)."""
    if z3.is_rational_value(v):
        return MPQ(v.numerator_as_long(), v.denominator_as_long())
    return None


# ------------------------------------------------------------------- regions
class Region:
    __slots__ = ('signs', 'splits', 'sample', 'depth', 'names')

    def __init__(self, signs, splits, sample, depth, names):
        self.names = names
        self.signs = signs
        self.splits = splits
        self.sample = sample
        self.depth = depth

    def pack(self):
        s = None
        if self.sample is not None:
            s = {k: (int(v.numerator), int(v.denominator))
                 for k, v in self.sample.items()}
        return (self.signs, self.splits, s, self.depth, self.names)

    @staticmethod
    def unpack(t):
        s = t[2]
        if s is not None:
            s = {k: MPQ(*v) for k, v in s.items()}
        return Region(t[0], t[1], s, t[3], t[4])


class Stats:
    FIELDS = ('paths', 'aborted', 'queries', 'sat', 'unsat', 'unknown',
              'solver_s', 'decisions', 'implied', 'checks', 'checks_solver',
              'inconclusive', 'irrational_dropped')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Ctx:
    """One worker's execution context."""

    def __init__(self, seed=1, nl_timeout_ms=8000, lin_timeout_ms=20000):
        self.stats = Stats()
        self.seed = seed
        self.lin = z3.SolverFor('QF_LRA')
        self.lin.set('timeout', lin_timeout_ms)
        self.lin_stack = []
        self.nl_timeout_ms = nl_timeout_ms
        self.pending = []
        self.probes = 0

    # -- start a path
    def begin(self, region):
        self.signs = region.signs
        self.splits = list(region.splits)
        self.sample = dict(region.sample) if region.sample else {}
        self.have_sample = region.sample is not None
        self.depth = region.depth
        self.names = {}
        self.allnames = dict(region.names)
        self.elim = {}
        self.labels = {}
        self.obs = []
        self.assumed = []
        self.notes = {}
        self._nl = [s for s in self.splits if P.key_deg(s[0]) > 1]
        self._sync()
        for k, m in self.splits:
            if m == 2:
                self._add_elim(k)
        if not self.have_sample:
            r, s = self._solve([])
            if r == 'unsat':
                raise PathAbort()
            if s is None:
                raise Inconclusive('no rational sample for region')
            self.sample = s
            self.have_sample = True

    # -- solver plumbing
    def _sync(self):
        lin = [s for s in self.splits if P.key_deg(s[0]) <= 1]
        st = self.lin_stack
        n = 0
        while n < len(lin) and n < len(st) and lin[n] == st[n]:
            n += 1
        if len(st) > n:
            self.lin.pop(len(st) - n)
            del st[n:]
        for s in lin[n:]:
            self.lin.push()
            self.lin.add(zatom(*s))
            st.append(s)

    def _assert(self, key, mask):
        self.splits.append((key, mask))
        if P.key_deg(key) <= 1:
            self.lin.push()
            self.lin.add(zatom(key, mask))
            self.lin_stack.append((key, mask))
        else:
            self._nl.append((key, mask))
        if mask == 2:
            self._add_elim(key)

    def _add_elim(self, key):
        """Use a linear equality to eliminate a variable."""
        p = P.key_poly(key)
        if self.elim:
            p = self._subst(p)
        if P.p_is_const(p) or P.p_deg(p) != 1:
            return
        m = max(m for m in p if m)
        v = m[0]
        c = p[m]
        sol = {k: -x / c for k, x in p.items() if k != m}
        for w in list(self.elim):
            self.elim[w] = self._subst1(self.elim[w], v, sol)
        self.elim[v] = sol

    def _subst1(self, p, v, sol):
        r = {}
        hit = {}
        for m, c in p.items():
            if v in m:
                hit[m] = c
            else:
                r[m] = c
        if not hit:
            return p
        for m, c in hit.items():
            t = {tuple(x for x in m if x != v): c}
            for _ in range(m.count(v)):
                t = P.p_mul(t, sol)
            r = P.p_add(r, t)
        return r

    def _subst(self, p):
        for v, sol in self.elim.items():
            p = self._subst1(p, v, sol)
        return p

    def _model(self, m):
        """z3 model -> (sample, irrational variables or None, model).

        Variables the model does not mention keep their current value."""
        s = dict(self.sample)
        bad = []
        for d in m.decls():
            nm = d.name()
            if not (nm[0] == 'v' and nm[1:].isdigit()):
                continue
            i = int(nm[1:])
            v = m[d]
            if z3.is_rational_value(v):
                s[i] = _zfrac(v)
            elif z3.is_algebraic_value(v):
                bad.append(i)
        return s, (sorted(bad) or None), m

    def _holds(self, s, extra):
        for k, mask in self.splits:
            try:
                if not (sgnbit(P.key_eval(k, s)) & mask):
                    return False
            except KeyError:
                return False
        for k, mask in extra:
            if isinstance(k, tuple):
                try:
                    if not (sgnbit(P.key_eval(k, s)) & mask):
                        return False
                except KeyError:
                    return False
        return True

    def _solve(self, extra, formula=None):
        """Is PC and extra (atoms) and formula satisfiable?

        Returns (verdict, sample or None)."""
        st = self.stats
        st.queries += 1
        t0 = time.perf_counter()
        try:
            nl_extra = [e for e in extra if P.key_deg(e[0]) > 1]
            f_nl = formula is not None and formula.nonlinear()
            if not self._nl and not nl_extra and not f_nl:
                self.lin.push()
                for e in extra:
                    self.lin.add(zatom(*e))
                if formula is not None:
                    self.lin.add(formula.to_z3(self))
                r = self.lin.check()
                if r == z3.sat:
                    s, bad, _ = self._model(self.lin.model())
                    self.lin.pop()
                    st.sat += 1
                    return 'sat', s
                self.lin.pop()
                if r == z3.unsat:
                    st.unsat += 1
                    return 'unsat', None
                st.unknown += 1
                return 'unknown', None
            # nonlinear: first the linear part alone
            self.lin.push()
            for e in extra:
                if P.key_deg(e[0]) <= 1:
                    self.lin.add(zatom(*e))
            r = self.lin.check()
            if r == z3.sat and formula is None:
                s, bad, _ = self._model(self.lin.model())
                if not bad and self._holds(s, extra):
                    self.lin.pop()
                    st.sat += 1
                    return 'sat', s
            self.lin.pop()
            if r == z3.unsat:
                st.unsat += 1
                return 'unsat', None
            return self._solve_nl(extra, formula)
        finally:
            st.solver_s += time.perf_counter() - t0

    def _solve_nl(self, extra, formula):
        st = self.stats
        cons = [zatom(*s) for s in self.splits]
        cons += [zatom(*e) for e in extra]
        if formula is not None:
            cons.append(formula.to_z3(self))
        # eliminate by equalities: helps nlsat
        for attempt in range(2):
            if attempt == 0:
                s = z3.Then('simplify', 'propagate-values', 'solve-eqs',
                            'qfnra-nlsat').solver()
            else:
                s = z3.SolverFor('QF_NRA')
            s.set('timeout', self.nl_timeout_ms)
            s.add(*cons)
            r = s.check()
            if r != z3.unknown:
                break
        if r == z3.unsat:
            st.unsat += 1
            return 'unsat', None
        if r == z3.unknown:
            st.unknown += 1
            return 'unknown', None
        st.sat += 1
        sm, bad, m = self._model(s.model())
        if not bad and (formula is not None or self._holds(sm, extra)):
            return 'sat', sm
        # algebraic model: look for a rational one
        sm = self._rationalise(s, m, sm, bad or [], extra, formula)
        return 'sat', sm

    def _rationalise(self, s, m, sm, bad, extra, formula):
        # 1. plain rational approximations (works if only inequalities are
        #    involved)
        s2 = dict(sm)
        for digits in (4, 8, 16, 30):
            for i in bad:
                v = m.eval(zvar(i))
                a = v.approx(digits)
                s2[i] = _zfrac(a)
            if formula is None and self._holds(s2, extra):
                return s2
            if formula is not None and self._holds(s2, extra) and \
                    formula.value(s2):
                return s2
        # 2. fix the variables one by one to rational values near the model
        for order in (bad, list(reversed(bad))):
            s.push()
            ok = True
            cur = m
            for i in order:
                v = cur.eval(zvar(i))
                q = _zfrac(v)
                if q is None:
                    q = _zfrac(v.approx(3))
                s.push()
                s.add(zvar(i) == z3.RealVal('%d/%d' % (q.numerator,
                                                       q.denominator)))
                r = s.check()
                if r == z3.sat:
                    cur = s.model()
                else:
                    s.pop()
                    s.push()
            allv = sorted(self.sample)
            res = dict(sm)
            for i in allv:
                v = cur.eval(zvar(i))
                if z3.is_rational_value(v):
                    res[i] = _zfrac(v)
                elif z3.is_algebraic_value(v):
                    ok = False
            for _ in range(s.num_scopes()):
                s.pop()
            if ok and self._holds(res, extra) and (
                    formula is None or formula.value(res)):
                return res
        return None

    # -- sign decisions
    def decide_atom(self, key, mask):
        signs = self.signs
        known = signs.get(key, 7)
        if not (known & mask):
            return False
        if not (known & ~mask & 7):
            return True
        if self.elim:
            p = self._subst(P.key_poly(key))
            if P.p_is_const(p):
                b = sgnbit(p.get((), 0))
                signs[key] = b
                return bool(b & mask)
            k2, s2 = P.p_key(p)
            if k2 != key:
                return self.decide_prod(((k2, 1),) if P.key_deg(k2) <= 1
                                        else P.key_factors(k2)[1],
                                        s2 * (1 if P.key_deg(k2) <= 1
                                              else P.key_factors(k2)[0]),
                                        mask)
        b = sgnbit(P.key_eval(key, self.sample))
        if not (b & known):
            raise Inconclusive('sample outside region')
        side = bool(b & mask)
        main = known & (mask if side else ~mask)
        alt = known & ~main
        self.stats.decisions += 1
        if alt == 2 and P.key_deg(key) >= 2 and len(P.key_vars(key)) == 1:
            # an irreducible univariate polynomial of degree >= 2 has no
            # rational root: the code can never see this equality
            signs[key] = main
            self.stats.irrational_dropped += 1
            return side
        r, s = self._solve([(key, alt)])
        if r == 'unsat':
            signs[key] = main
            self.stats.implied += 1
            return side
        # both sides possible (or unknown): push the alternative
        sg = dict(signs)
        sg[key] = alt
        if r == 'unknown':
            self.notes['unknown'] = self.notes.get('unknown', 0) + 1
        self.pending.append(Region(sg, self.splits + [(key, alt)], s,
                                   self.depth + 1, dict(self.allnames)))
        signs[key] = main
        self._assert(key, main)
        return side

    def decide_prod(self, factors, unit, mask):
        """sign(unit * prod key^e) in mask?"""
        sgn = unit
        if len(factors) == 1:
            k, e = factors[0]
            if e % 2:
                m = mask if sgn > 0 else FLIP[mask]
                kn = self.signs.get(k, 7)
                if not kn & m:
                    return False
                if not kn & ~m:
                    return True
                return self.decide_atom(k, m)
        unk = []
        for k, e in factors:
            kn = self.signs.get(k, 7)
            if kn == 2:
                return bool(2 & mask)
            if e % 2 == 0:
                if kn & 2:
                    unk.append((k, e))
            elif kn == 1:
                sgn = -sgn
            elif kn == 4:
                pass
            else:
                unk.append((k, e))
        if not unk:
            return bool((4 if sgn > 0 else 1) & mask)
        if len(unk) == 1 and unk[0][1] % 2:
            k = unk[0][0]
            m = mask if sgn > 0 else FLIP[mask]
            return self.decide_atom(k, m)
        # general case: settle each factor in turn
        for k, e in unk:
            if self.decide_atom(k, 2):
                return bool(2 & mask)
            if e % 2:
                if not self.decide_atom(k, 4):
                    sgn = -sgn
        return bool((4 if sgn > 0 else 1) & mask)

    # -- assumptions
    def assume_atom(self, key, mask):
        known = self.signs.get(key, 7)
        if not (known & ~mask & 7):
            return
        if not (known & mask):
            raise PathAbort()
        new = known & mask
        if key_missing(key, self.sample) or \
                not (sgnbit(P.key_eval(key, self.sample)) & new):
            r, s = self._solve([(key, new)])
            if r == 'unsat':
                raise PathAbort()
            if s is None:
                raise Inconclusive('assumption: no sample')
            self.sample = s
        self.signs[key] = new
        self._assert(key, new)

    def declare(self, name, default):
        i = self.allnames.get(name)
        if i is None:
            i = len(self.allnames)
            self.allnames[name] = i
        if i not in self.sample:
            self.sample[i] = default
        self.names[name] = i
        return _mk(SymQ, {(i,): _ONE}, None)

    # -- path end
    def assignment(self, sample=None):
        s = self.sample if sample is None else sample
        return {n: s.get(i, MPQ(0)) for n, i in self.names.items()}


def key_missing(key, sample):
    for m, _ in key:
        for v in m:
            if v not in sample:
                return True
    return False


# ------------------------------------------------------------------ booleans
class SymBool:
    """A formula over sign atoms; bool() forks."""
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __bool__(self):
        op = self.op
        if op == 'sgn':
            unit, factors, mask = self.args
            return CTX.decide_prod(factors, unit, mask)
        if op == 'not':
            return not bool(self.args)
        if op == 'and':
            for a in self.args:
                if not a:
                    return False
            return True
        if op == 'or':
            for a in self.args:
                if a:
                    return True
            return False
        if op == 'xor':
            r = False
            for a in self.args:
                if a:
                    r = not r
            return r
        raise AssertionError(op)

    def __and__(self, o):
        return AND(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return OR(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return XOR(self, o)
    __rxor__ = __xor__

    def __invert__(self):
        return NOT(self)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return NOT(XOR(self, o))
        return bool(self) == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return XOR(self, o)
        return bool(self) != o

    __hash__ = None

    # numeric use of a truth value
    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % self.op

    # -- evaluation / encoding
    def value(self, sample):
        op = self.op
        if op == 'sgn':
            unit, factors, mask = self.args
            s = unit
            for k, e in factors:
                b = P.key_eval(k, sample)
                if b == 0:
                    return bool(mask & 2)
                if b < 0 and e % 2:
                    s = -s
            return bool((4 if s > 0 else 1) & mask)
        if op == 'not':
            return not bval(self.args, sample)
        if op == 'and':
            return all(bval(a, sample) for a in self.args)
        if op == 'or':
            return any(bval(a, sample) for a in self.args)
        r = False
        for a in self.args:
            r ^= bval(a, sample)
        return r

    def nonlinear(self):
        if self.op == 'sgn':
            for k, e in self.args[1]:
                if P.key_deg(k) > 1:
                    if CTX.signs.get(k, 7) in (1, 2, 4):
                        continue
                    if CTX.elim:
                        p = CTX._subst(P.key_poly(k))
                        if P.p_deg(p) <= 1:
                            continue
                    return True
            return False
        if self.op == 'not':
            a = self.args
            return isinstance(a, SymBool) and a.nonlinear()
        return any(isinstance(a, SymBool) and a.nonlinear()
                   for a in self.args)

    def to_z3(self, ctx):
        op = self.op
        if op == 'sgn':
            unit, factors, mask = self.args
            s = unit
            unk = []
            for k, e in factors:
                kn = ctx.signs.get(k, 7)
                if kn not in (1, 2, 4) and ctx.elim:
                    p = ctx._subst(P.key_poly(k))
                    if P.p_is_const(p):
                        kn = sgnbit(p.get((), 0))
                    else:
                        k2, s2 = P.p_key(p)
                        if s2 < 0 and e % 2:
                            s = -s
                        k = k2
                        kn = ctx.signs.get(k, 7)
                if kn == 2:
                    return z3.BoolVal(bool(mask & 2))
                if kn == 1:
                    if e % 2:
                        s = -s
                elif kn == 4:
                    pass
                else:
                    unk.append((k, e))
            if not unk:
                return z3.BoolVal(bool((4 if s > 0 else 1) & mask))
            m = mask if s > 0 else FLIP[mask]
            if len(unk) == 1 and unk[0][1] % 2:
                return zatom(unk[0][0], m)
            zero = z3.Or(*[zatom(k, 2) for k, e in unk])
            odd = [zatom(k, 1) for k, e in unk if e % 2]
            if not odd:
                neg = z3.BoolVal(False)
            else:
                neg = odd[0]
                for x in odd[1:]:
                    neg = z3.Xor(neg, x)
            parts = []
            if m & 2:
                parts.append(zero)
            if m & 1:
                parts.append(z3.And(z3.Not(zero), neg))
            if m & 4:
                parts.append(z3.And(z3.Not(zero), z3.Not(neg)))
            return z3.Or(*parts)
        if op == 'not':
            return z3.Not(bz3(self.args, ctx))
        a = [bz3(x, ctx) for x in self.args]
        if op == 'and':
            return z3.And(*a)
        if op == 'or':
            return z3.Or(*a)
        r = a[0]
        for x in a[1:]:
            r = z3.Xor(r, x)
        return r


def bval(a, sample):
    return a.value(sample) if isinstance(a, SymBool) else bool(a)


def bz3(a, ctx):
    return a.to_z3(ctx) if isinstance(a, SymBool) else z3.BoolVal(bool(a))


def _isb(a):
    return isinstance(a, SymBool)


def NOT(a):
    if not _isb(a):
        return not a
    if a.op == 'not':
        return a.args
    if a.op == 'sgn':
        u, f, m = a.args
        return SymBool('sgn', (u, f, ~m & 7))
    return SymBool('not', a)


def AND(*xs):
    out = []
    for x in xs:
        if _isb(x):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool('and', tuple(out))


def OR(*xs):
    out = []
    for x in xs:
        if _isb(x):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool('or', tuple(out))


def XOR(*xs):
    out = []
    par = False
    for x in xs:
        if _isb(x):
            out.append(x)
        elif x:
            par = not par
    if not out:
        return par
    r = out[0] if len(out) == 1 else SymBool('xor', tuple(out))
    return NOT(r) if par else r


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return NOT(XOR(a, b))


# ------------------------------------------------------------------- numbers
def _mk(cls, n, d):
    """Build from a polynomial numerator / denominator."""
    o = object.__new__(cls)
    if d is None:
        if not n:
            o.c = _ZERO
            o.n = None
            o.d = None
            return o
        if len(n) == 1 and () in n:
            o.c = n[()]
            o.n = None
            o.d = None
            return o
        o.c = None
        o.n = n
        o.d = None
        return o
    if not n:
        o.c = _ZERO
        o.n = None
        o.d = None
        return o
    o.c = None
    o.n = n
    o.d = d
    return o


def _mkc(cls, c):
    o = object.__new__(cls)
    o.c = c
    o.n = None
    o.d = None
    return o


_ZERO = MPQ(0)
_ONE = MPQ(1)


def _polyof(x):
    if x.c is not None:
        return {(): x.c} if x.c != 0 else {}
    return x.n


def _coerce(o):
    """Other operand -> _Num, float special, or NotImplemented."""
    if isinstance(o, _Num):
        return o
    t = type(o)
    if t is int or t is bool:
        return _mkc(SymQ, MPQ(o))
    if t is float:
        if o != o or o in (INF, -INF):
            return o
        return _mkc(SymF, MPQ(o))
    if isinstance(o, (_MPQT, _MPZT)):
        return _mkc(SymQ, MPQ(o))
    if isinstance(o, _fractions.Fraction):
        return _mkc(SymQ, MPQ(o.numerator, o.denominator))
    if isinstance(o, SymBool):
        return _mkc(SymQ, MPQ(int(bool(o))))
    if isinstance(o, numbers.Integral):
        return _mkc(SymQ, MPQ(int(o)))
    tn = t.__name__
    if tn.startswith('float') or tn == 'mpfr':
        o = float(o)
        if o != o or o in (INF, -INF):
            return o
        return _mkc(SymF, MPQ(o))
    return NotImplemented


_intern = {}
_rel_cache = {}


def intern_id(x):
    """Small integer identifying the value's normal form."""
    if x.c is not None:
        k = x.c
    elif x.d is None:
        k = frozenset(x.n.items())
    else:
        k = (frozenset(x.n.items()), frozenset(x.d.items()))
    i = _intern.get(k)
    if i is None:
        i = len(_intern)
        _intern[k] = i
    x.i = i
    return i


_arith_cache = {}


def _memo_arith(op, a, b, slow):
    try:
        ia = a.i
    except AttributeError:
        ia = intern_id(a)
    try:
        ib = b.i
    except AttributeError:
        ib = intern_id(b)
    if op == '/' and b.c is None and b == 0:
        raise ZeroDivisionError('division by zero')
    r = _arith_cache.get((op, ia, ib))
    if r is None:
        if len(_arith_cache) > 1000000:
            _arith_cache.clear()
        r = slow(a, b)
        _arith_cache[op, ia, ib] = r
    return r


class _Num:
    __slots__ = ('c', 'n', 'd', 'i')

    def _cls(self, o):
        if type(self) is SymF or type(o) is SymF:
            return SymF
        return SymQ

    # ---- arithmetic
    def __add__(self, o):
        if type(o) is SymQ and type(self) is SymQ:
            if self.c is None or o.c is None:
                return _memo_arith('+', self, o, _Num._add_slow)
        return self._add_slow(o)

    def _add_slow(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return o
        cls = self._cls(o)
        a, b = self.c, o.c
        if a is not None:
            if b is not None:
                return _mkc(cls, a + b)
            if a == 0:
                return _mk(cls, o.n, o.d)
        elif b is not None and b == 0:
            return _mk(cls, self.n, self.d)
        return _addsub(cls, self, o, P.p_add)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is SymQ and type(self) is SymQ:
            if self.c is None or o.c is None:
                return _memo_arith('-', self, o, _Num._sub_slow)
        return self._sub_slow(o)

    def _sub_slow(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return -o
        cls = self._cls(o)
        if self.c is not None and o.c is not None:
            return _mkc(cls, self.c - o.c)
        return _addsub(cls, self, o, P.p_sub)

    def __rsub__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            return o
        return o.__sub__(self)

    def __mul__(self, o):
        if type(o) is SymQ and type(self) is SymQ:
            if self.c is None or o.c is None:
                return _memo_arith('*', self, o, _Num._mul_slow)
        return self._mul_slow(o)

    def _mul_slow(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:  # inf / nan
            if o != o:
                return o
            if self == 0:
                return math.nan
            return o if self > 0 else -o
        cls = self._cls(o)
        a, b = self.c, o.c
        if a is not None:
            if b is not None:
                return _mkc(cls, a * b)
            if a == 0:
                return _mkc(cls, _ZERO)
            return _mk(cls, P.p_scale(o.n, a), o.d)
        if b is not None:
            if b == 0:
                return _mkc(cls, _ZERO)
            return _mk(cls, P.p_scale(self.n, b), self.d)
        n = P.p_mul(self.n, o.n)
        if self.d is None and o.d is None:
            return _mk(cls, n, None)
        d = self.d if o.d is None else (
            o.d if self.d is None else P.p_mul(self.d, o.d))
        return _mk(cls, *P.p_ratio(n, d))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is SymQ and type(self) is SymQ:
            if self.c is None or o.c is None:
                return _memo_arith('/', self, o, _Num._truediv_slow)
        return self._truediv_slow(o)

    def _truediv_slow(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            if o != o:
                return o
            return _mkc(SymF, _ZERO)
        cls = self._cls(o)
        b = o.c
        if b is not None:
            if b == 0:
                raise ZeroDivisionError('division by zero')
            if self.c is not None:
                return _mkc(cls, self.c / b)
            return _mk(cls, P.p_scale(self.n, 1 / b), self.d)
        if o == 0:
            raise ZeroDivisionError('division by zero')
        a = self.c
        if a is not None and a == 0:
            return _mkc(cls, _ZERO)
        n = _polyof(self)
        d = o.n
        if o.d is not None:
            n = P.p_mul(n, o.d)
        if self.d is not None:
            d = P.p_mul(d, self.d)
        return _mk(cls, *P.p_ratio(n, d))

    def __rtruediv__(self, o):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        if type(o) is float:
            if o != o:
                return o
            return o if self > 0 else -o
        return o.__truediv__(self)

    def __neg__(self):
        if self.c is not None:
            return _mkc(type(self), -self.c)
        return _mk(type(self), P.p_neg(self.n), self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return _mkc(type(self), abs(self.c))
        if self >= 0:
            return self
        return -self

    def __pow__(self, k, mod=None):
        k = _coerce(k)
        if k is NotImplemented or type(k) is float or k.c is None or \
                k.c.denominator != 1:
            raise Inconclusive('pow with non-integer exponent')
        k = int(k.c)
        if k < 0:
            return _mkc(SymQ, _ONE) / (self ** (-k))
        r = _mkc(type(self), _ONE)
        for _ in range(k):
            r = r * self
        return r

    def _floor(self):
        """Integer part, forking over the possible values."""
        if self.c is not None:
            return int(self.c.numerator // self.c.denominator)
        k = None
        v = num_eval(self, CTX.sample)
        k = int(v.numerator // v.denominator)
        if self >= k:
            if self < k + 1:
                return k
        raise Inconclusive('floor')

    def __floor__(self):
        return self._floor()

    def __ceil__(self):
        return -((-self)._floor())

    def __trunc__(self):
        if self >= 0:
            return self._floor()
        return -((-self)._floor())

    def __int__(self):
        return self.__trunc__()

    def floor(self):
        return _mkc(type(self), MPQ(self._floor()))

    def ceil(self):
        return _mkc(type(self), MPQ(-((-self)._floor())))

    def rint(self):
        return self.__round__()

    def sqrt(self):
        return num_sqrt(self)

    def conjugate(self):
        return self

    def __round__(self, nd=None):
        if nd is not None and nd:
            return (self * MPQ(10) ** nd).__round__() / MPQ(10) ** nd
        h = self + MPQ(1, 2)
        k = h._floor()
        if h == k and k % 2:
            k -= 1
        return k

    def __floordiv__(self, o):
        q = self / o
        if not isinstance(q, _Num):
            return q
        return _mkc(type(q), MPQ(q._floor()))

    def __rfloordiv__(self, o):
        q = o / self
        return _mkc(type(q), MPQ(q._floor()))

    def __mod__(self, o):
        return self - o * (self // o)

    def __rmod__(self, o):
        return o - self * (o // self)

    def __divmod__(self, o):
        q = self // o
        return q, self - o * q

    def conjugate(self):
        return self

    # ---- comparisons
    def _rel(self, o, mask):
        """sign(self - o) in mask"""
        if type(o) is not SymQ:
            o = _coerce(o)
            if o is NotImplemented:
                return o
            if type(o) is float:
                if o != o:
                    return mask == 5
                b = 1 if o > 0 else 4
                return bool(b & mask)
        if self.c is not None and o.c is not None:
            a, b = self.c, o.c
            return bool((4 if a > b else (1 if a < b else 2)) & mask)
        try:
            ia = self.i
        except AttributeError:
            ia = intern_id(self)
        try:
            ib = o.i
        except AttributeError:
            ib = intern_id(o)
        r = _rel_cache.get((ia, ib, mask))
        if r is None:
            if len(_rel_cache) > 1500000:
                _rel_cache.clear()
            r = self._rel_slow(o, mask)
            _rel_cache[ia, ib, mask] = r
        return r

    def _rel_slow(self, o, mask):
        if o.c is not None and o.c == 0:
            return num_sgn(self, mask)
        if self.d is None and o.d is None:
            n = P.p_sub(_polyof(self), _polyof(o))
            if P.p_is_const(n):
                return bool(sgnbit(n.get((), 0)) & mask)
            return poly_sgn(n, None, mask)
        return num_sgn(_addsub(SymQ, self, o, P.p_sub), mask)

    def __lt__(self, o):
        return self._rel(o, 1)

    def __le__(self, o):
        return self._rel(o, 3)

    def __gt__(self, o):
        return self._rel(o, 4)

    def __ge__(self, o):
        return self._rel(o, 6)

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is SymQ:
            a = self.c
            if a is not None:
                b = o.c
                if b is not None:
                    return a == b
        return self._rel(o, 2)

    def __ne__(self, o):
        if self is o:
            return False
        return self._rel(o, 5)

    def __hash__(self):
        return 0

    def __bool__(self):
        if self.c is not None:
            return self.c != 0
        return bool(num_sgn(self, 5))

    # ---- conversions
    def __float__(self):
        return float(probe(self, 'float() of a symbolic value'))

    @property
    def numerator(self):
        return int(probe(self, 'numerator of a symbolic value').numerator)

    @property
    def denominator(self):
        return int(probe(self, 'denominator of a symbolic value').denominator)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return _mkc(SymQ, _ZERO)

    def __repr__(self):
        if self.c is not None:
            return 'mpq(%s)' % self.c
        return 'sym(%s)' % (pstr(self.n) if self.d is None else
                            '(%s)/(%s)' % (pstr(self.n), pstr(self.d)))

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def pstr(n):
    out = []
    for m, c in sorted(n.items(), key=lambda t: (len(t[0]), t[0])):
        out.append('*'.join([str(c)] + ['v%d' % v for v in m]))
    return ' + '.join(out) or '0'


def _addsub(cls, a, b, f):
    if a.d is None and b.d is None:
        return _mk(cls, f(_polyof(a), _polyof(b)), None)
    an, bn = _polyof(a), _polyof(b)
    if a.d is not None and b.d is not None:
        if a.d == b.d:
            return _mk(cls, *P.p_ratio(f(an, bn), a.d))
        return _mk(cls, *P.p_ratio(f(P.p_mul(an, b.d), P.p_mul(bn, a.d)),
                                   P.p_mul(a.d, b.d)))
    if a.d is not None:
        return _mk(cls, *P.p_ratio(f(an, P.p_mul(bn, a.d)), a.d))
    return _mk(cls, *P.p_ratio(f(P.p_mul(an, b.d), bn), b.d))


_sgn_cache = {}


def poly_sgn(n, d, mask):
    """SymBool (or bool) for sign(n/d) in mask; n non-constant."""
    k, s = P.p_key(n)
    if P.key_deg(k) <= 1:
        unit, facs = s, ((k, 1),)
    else:
        u, facs = P.key_factors(k)
        unit = s * u
    if d is not None:
        kd, sd = P.p_key(d)
        if P.key_deg(kd) <= 1:
            facs = facs + ((kd, 1),)
            unit *= sd
        else:
            u, fd = P.key_factors(kd)
            facs = tuple(facs) + tuple(fd)
            unit *= sd * u
    return SymBool('sgn', (unit, facs, mask))


def num_sgn(x, mask):
    if x.c is not None:
        return bool(sgnbit(x.c) & mask)
    if P.p_is_const(x.n):
        # const / d
        c = x.n[()]
        kd, sd = P.p_key(x.d)
        u, fd = P.key_factors(kd)
        return SymBool('sgn', (sd * u * (1 if c > 0 else -1), tuple(fd),
                               mask))
    return poly_sgn(x.n, x.d, mask)


def num_eval(x, sample):
    if x.c is not None:
        return x.c
    v = P.p_eval(x.n, sample)
    if x.d is not None:
        v = v / P.p_eval(x.d, sample)
    return v


_texts = {}
_text_ids = itertools.count()


def text_num(t):
    """The symbolic number a text names, or None."""
    return t.num if isinstance(t, SymText) else _texts.get(t.strip())


class SymText(str):
    """The decimal text of a symbolic number (as given by a user)."""

    def __new__(cls, num):
        # the words are unique: parts of a text still name the number
        while len(_texts) > 100:
            del _texts[next(iter(_texts))]
        t = '<number %d>' % next(_text_ids)
        o = str.__new__(cls, t)
        o.num = num
        _texts[t] = num
        return o

    def strip(self, *a):
        return self


def _root_key(n):
    """+-sqrt of a polynomial that is a perfect square, or None."""
    k, s = P.p_key(n)
    m0, c0 = k[0]
    unit = n[m0] / c0          # n = unit * key
    u, facs = P.key_factors(k)
    r = {(): _ONE}
    for f, e in facs:
        if e % 2:
            return None
        for _ in range(e // 2):
            r = P.p_mul(r, P.key_poly(f))
    # key = const * r^2
    r2 = P.p_mul(r, r)
    c = unit * (c0 / r2[m0])
    if c < 0 or not gmpy2.is_square(c.numerator) or \
            not gmpy2.is_square(c.denominator):
        return None
    q = MPQ(gmpy2.isqrt(c.numerator), gmpy2.isqrt(c.denominator))
    return P.p_scale(r, q)


def num_sqrt(x):
    """Exact square root (of squares only)."""
    if x.c is not None:
        a, b = x.c.numerator, x.c.denominator
        if gmpy2.is_square(a) and gmpy2.is_square(b):
            return _mkc(SymF, MPQ(gmpy2.isqrt(a), gmpy2.isqrt(b)))
        return _mkc(SymF, MPQ(float(x.c) ** 0.5))
    n = _root_key(x.n) if not P.p_is_const(x.n) else None
    d = {(): _ONE} if x.d is None else _root_key(x.d)
    if P.p_is_const(x.n):
        c = num_sqrt(_mkc(SymF, x.n[()])).c
        n = {(): c} if c * c == x.n[()] else None
    if n is None or d is None:
        raise Inconclusive('square root of a symbolic value')
    r = _mk(SymF, n, None if P.p_is_const(d) else d)
    if P.p_is_const(d):
        r = r / _mkc(SymF, d[()])
    return abs(r)


PROBES = 40


def probe(x, why):
    """The value of x where the code needs a number.

    One value that no float represents is tried as a case of its own (a
    region in which x has that value, where the real rounding then happens);
    the rest is inconclusive, or, for why=None, told by returning None."""
    if x.c is not None:
        return x.c
    ctx = CTX

    def key_of(v):
        n = (x - v).n
        if P.p_is_const(n):
            return None
        k, _s = P.p_key(n)
        if P.key_deg(k) > 1:
            fs = P.key_factors(k)[1]
            if len(fs) != 1:
                return None
            k = fs[0][0]
        return k
    v = num_eval(x, ctx.sample)
    k = key_of(v)
    if k is not None and ctx.signs.get(k) == 2:
        return v
    if ctx.probes < PROBES:
        for e in (MPQ(0), MPQ(1, 997), MPQ(-1, 997), MPQ(1, 99991),
                  MPQ(-1, 99991), MPQ(1, 9999991), MPQ(-1, 9999991)):
            t = v + e
            k = key_of(t)
            if k is None or not ctx.signs.get(k, 7) & 2 or \
                    MPQ(float(t)) == t:
                continue
            r, s = ctx._solve([(k, 2)])
            if r == 'sat' and s is not None:
                sg = dict(ctx.signs)
                sg[k] = 2
                ctx.pending.append(Region(
                    sg, ctx.splits + [(k, 2)], s, ctx.depth + 1,
                    dict(ctx.allnames)))
                ctx.probes += 1
                break
    if why is None:
        return None
    raise Inconclusive(why)


def to_float(x):
    """float(x): exact, but see probe()."""
    if type(x) is SymF:
        return x
    if x.c is None:
        v = probe(x, None)
        if v is None:
            return _mk(SymF, x.n, x.d)
        return _mkc(SymF, MPQ(float(v)))
    return _mkc(SymF, MPQ(float(x.c)))


class SymF(_Num):
    """A symbolic value in a place where the real code has a float.

    Real arithmetic stands in for floating point; stated in the evidence."""
    __slots__ = ()

    def is_integer(self):
        if self.c is not None:
            return self.c.denominator == 1
        return bool(self == self._floor())

    def __hash__(self):
        return 0

    def astype(self, *_a, **_k):
        return self

    def item(self):
        return self


class SymQ(_Num):
    """Stand-in for gmpy2.mpq."""
    __slots__ = ()

    def __new__(cls, *args):
        if len(args) == 0:
            return _mkc(SymQ, _ZERO)
        if len(args) == 1:
            v = args[0]
            if type(v) is SymQ:
                return v
            if isinstance(v, _Num):
                return _mk(SymQ, v.n, v.d) if v.c is None else \
                    _mkc(SymQ, v.c)
            if isinstance(v, str):
                n = text_num(v)
                if n is not None:
                    return SymQ(n)
                return _mkc(SymQ, MPQ(v))
            w = _coerce(v)
            if w is NotImplemented:
                return _mkc(SymQ, MPQ(v))  # raises as gmpy2 does
            if type(w) is float:
                return _mkc(SymQ, MPQ(w))  # raises as gmpy2 does
            return _mkc(SymQ, w.c)
        a, b = args
        if isinstance(a, int) and isinstance(b, int):
            return _mkc(SymQ, MPQ(a, b))
        q = SymQ(a) / SymQ(b)
        return q

    def __hash__(self):
        return 0

    def __reduce__(self):
        return (SymQ, (str(self.c),))


def is_const(x):
    return not isinstance(x, _Num) or x.c is not None
