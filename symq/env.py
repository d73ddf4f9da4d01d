"""The harness interface: the same harness code runs symbolically (inside the
engine) and concretely (replay / validation, with the real gmpy2.mpq)."""
import hashlib
import math

from .poly import mpq as MPQ


class CheckFailed(BaseException):
    """Concrete run: a harness assertion is false."""

    def __init__(self, label):
        self.label = label


class AssumeFailed(BaseException):
    pass


def pseudo(seed, name, lo, hi):
    """Deterministic 'random' rational in [lo, hi] in general position."""
    h = int(hashlib.sha256(('%s|%s' % (seed, name)).encode()).hexdigest(), 16)
    f = MPQ(1 + h % 9973, 9975)
    lo = MPQ(-4) if lo is None else MPQ(lo)
    hi = MPQ(lo + 8) if hi is None else MPQ(hi)
    v = lo + (hi - lo) * f
    # keep numbers small
    return MPQ(int(v * 997), 997) if lo < MPQ(int(v * 997), 997) < hi else v


def bound(b):
    """A bound given as a number or (in a configuration) as [num, den]."""
    if isinstance(b, (list, tuple)):
        return MPQ(*b)
    return b


class SymEnv:
    symbolic = True

    def __init__(self, ctx, seed):
        from . import engine
        self.e = engine
        self.ctx = ctx
        self.Q = engine.SymQ
        self.seed = seed

    def real(self, name, lo=None, hi=None, strict=False):
        e = self.e
        lo, hi = bound(lo), bound(hi)
        v = self.ctx.declare(name, pseudo(self.seed, name, lo, hi))
        if lo is not None:
            self.assume(v > MPQ(lo) if strict else v >= MPQ(lo))
        if hi is not None:
            self.assume(v < MPQ(hi) if strict else v <= MPQ(hi))
        return v

    def float(self, name, lo=None, hi=None):
        v = self.real(name, lo, hi)
        return self.e._mk(self.e.SymF, v.n, v.d)

    def text(self, v):
        """The number as a user types it."""
        return self.e.SymText(v)

    def choice(self, name, n):
        """Symbolic element of range(n): forks."""
        if n == 1:
            return 0
        v = self.ctx.declare(name, MPQ(0))
        for i in range(n - 1):
            if v == i:
                return i
        self.assume(v == n - 1)
        return n - 1

    def boolean(self, name):
        return bool(self.choice(name, 2))

    def assume(self, cond):
        e = self.e
        if isinstance(cond, bool):
            if not cond:
                raise e.PathAbort()
            return
        ctx = self.ctx
        if cond.op == 'sgn':
            unit, facs, mask = cond.args
            if len(facs) == 1 and facs[0][1] % 2:
                ctx.assume_atom(facs[0][0],
                                mask if unit > 0 else e.FLIP[mask])
                return
        if cond.op == 'and':
            for a in cond.args:
                self.assume(a)
            return
        # general case: fork, and drop the part outside
        if not cond.value(ctx.sample):
            # move the sample inside first, so that paths are not wasted
            pass
        if not bool(cond):
            raise e.PathAbort()

    def check(self, cond, label):
        e = self.e
        ctx = self.ctx
        st = ctx.stats
        st.checks += 1
        ctx.labels[label] = ctx.labels.get(label, 0) + 1
        if not isinstance(cond, e.SymBool):
            if not cond:
                raise e.Violation(label, dict(ctx.sample))
            return
        if not cond.value(ctx.sample):
            raise e.Violation(label, dict(ctx.sample))
        st.checks_solver += 1
        r, s = ctx._solve([], e.NOT(cond))
        if r == 'unsat':
            return
        if r == 'sat' and s is not None:
            raise e.Violation(label, s)
        if r == 'sat':
            # only irrational counterexamples found: not inputs of the code
            st.irrational_dropped += 1
            raise e.Inconclusive('irrational counterexample: ' + label)
        raise e.Inconclusive('solver unknown: ' + label)

    def fail(self, label):
        raise self.e.Violation(label, dict(self.ctx.sample))

    def observe(self, label, value):
        self.ctx.obs.append((label, value))

    def sample_of(self, x):
        return self.e.num_eval(x, self.ctx.sample)

    AND = staticmethod(lambda *a: _eng().AND(*a))
    OR = staticmethod(lambda *a: _eng().OR(*a))
    NOT = staticmethod(lambda a: _eng().NOT(a))
    XOR = staticmethod(lambda *a: _eng().XOR(*a))
    IFF = staticmethod(lambda a, b: _eng().IFF(a, b))
    IMPLIES = staticmethod(lambda a, b: _eng().IMPLIES(a, b))


def _eng():
    from . import engine
    return engine


class ConcEnv:
    symbolic = False

    def __init__(self, assignment):
        import gmpy2
        self.Q = gmpy2.mpq
        self.a = assignment
        self.obs = []
        self.failed = []
        self.labels = {}

    def real(self, name, lo=None, hi=None, strict=False):
        v = self.Q(self.a.get(name, 0))
        lo, hi = bound(lo), bound(hi)
        if lo is not None and (v < lo or (strict and v == lo)):
            raise AssumeFailed(name)
        if hi is not None and (v > hi or (strict and v == hi)):
            raise AssumeFailed(name)
        return v

    def float(self, name, lo=None, hi=None):
        lo, hi = bound(lo), bound(hi)
        # the float nearest to the model's rational, kept inside the bounds
        v = float(self.Q(self.a.get(name, 0)))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def text(self, v):
        return str(v)

    def choice(self, name, n):
        if n == 1:
            return 0
        v = self.Q(self.a.get(name, 0))
        if v.denominator != 1 or not 0 <= v < n:
            raise AssumeFailed(name)
        return int(v)

    def boolean(self, name):
        return bool(self.choice(name, 2))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise CheckFailed(label)

    def fail(self, label):
        raise CheckFailed(label)

    def observe(self, label, value):
        self.obs.append((label, value))

    def sample_of(self, x):
        return x

    @staticmethod
    def AND(*a):
        return all(bool(x) for x in a)

    @staticmethod
    def OR(*a):
        return any(bool(x) for x in a)

    @staticmethod
    def NOT(a):
        return not a

    @staticmethod
    def XOR(*a):
        r = False
        for x in a:
            r ^= bool(x)
        return r

    @staticmethod
    def IFF(a, b):
        return bool(a) == bool(b)

    @staticmethod
    def IMPLIES(a, b):
        return (not a) or bool(b)


def serial(v, sample=None):
    """Canonical text of an observation; symbolic numbers at the sample."""
    t = type(v)
    if t.__name__ in ('SymQ', 'SymF'):
        from . import engine
        return str(engine.num_eval(v, sample))
    if t.__name__ == 'SymBool':
        return str(v.value(sample))
    if t is bool or v is None or t is str:
        return str(v)
    if t is int or t.__name__ in ('mpz', 'int64', 'int32'):
        return str(int(v))
    if t.__name__ == 'mpq':
        return str(v)
    if t.__name__ == 'bool_':
        return str(bool(v))
    if t is float or t.__name__ in ('float64', 'mpfr'):
        v = float(v)
        if math.isinf(v) or math.isnan(v):
            return str(v)
        return str(MPQ(v))
    if isinstance(v, dict):
        return '{' + ','.join(sorted(serial(k, sample) + ':' +
                                     serial(x, sample)
                                     for k, x in v.items())) + '}'
    if isinstance(v, (set, frozenset)):
        return '{' + ','.join(sorted(serial(x, sample) for x in v)) + '}'
    if isinstance(v, (list, tuple)) or t.__name__ == 'ndarray':
        return '[' + ','.join(serial(x, sample) for x in v) + ']'
    return t.__name__
