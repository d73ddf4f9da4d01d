"""Environment stubs used while executing symbolically.

* gmpy2.mpq -> SymQ, gmpy2.f2q wrapped (result becomes a SymQ)
* math.isfinite / isinf / isnan accept symbolic rationals (always finite)
* numpy.zeros/ones/empty of float type, called by the code under test, give
  object arrays (so that symbolic floats can be stored)
* plytypes.fstr / fastr (message formatting) -> constant text
"""
import math
import sys


def install(engine):
    import gmpy2
    E = engine
    real_f2q = gmpy2.f2q

    def f2q(*a):
        a = [float(x) if isinstance(x, E._Num) else x for x in a]
        return E._mkc(E.SymQ, E.MPQ(real_f2q(*a)))

    gmpy2.mpq = E.SymQ
    gmpy2.f2q = f2q

    real_sign = gmpy2.sign

    def sign(x):
        if isinstance(x, E._Num):
            return 1 if x > 0 else (0 if x == 0 else -1)
        return real_sign(x)
    gmpy2.sign = sign

    for name, val in (('isfinite', True), ('isinf', False),
                      ('isnan', False)):
        real = getattr(math, name)

        def wrap(x, real=real, val=val):
            if isinstance(x, E._Num):
                return val
            return real(x)
        setattr(math, name, wrap)

    # float arrays made by the code under test hold symbolic numbers
    import numpy as np
    real_empty = np.empty
    for name in ('zeros', 'empty', 'ones'):
        real = getattr(np, name)

        def make(shape, dtype=float, *a, real=real, **k):
            if sys._getframe(1).f_globals.get('__name__', '').startswith(
                    'plycutter') and np.dtype(dtype).kind == 'f':
                r = real(shape, object, *a, **k)
                if real is not real_empty:
                    for i in np.ndindex(r.shape):
                        r[i] = E._mkc(E.SymF, E.MPQ(r[i]))
                return r
            return real(shape, dtype, *a, **k)
        setattr(np, name, make)

    for name in ('array', 'asarray'):
        real = getattr(np, name)

        def conv(x, dtype=None, *a, real=real, **k):
            if dtype is not None and sys._getframe(1).f_globals.get(
                    '__name__', '').startswith('plycutter') and \
                    np.dtype(dtype).kind == 'f':
                r = real(x, object)
                if any(isinstance(v, E._Num) for v in r.flat):
                    return real(x, object, *a, **k)
            return real(x, *([] if dtype is None else [dtype]), *a, **k)
        setattr(np, name, conv)

    sys.path.insert(0, _repo())
    import logging
    logging.disable(logging.CRITICAL)
    from plycutter import plytypes
    plytypes.fstr = lambda *a, **k: 'FS'
    plytypes.fastr = lambda *a, **k: 'FS'


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)


def float_like(E):
    class Float(metaclass=_FloatMeta):
        """float() for the code that works on measured or given numbers:
        symbolic numbers stay symbolic."""

        def __new__(cls, x=0.0):
            if isinstance(x, str):
                n = E.text_num(x)
                x = x if n is None else n
            if isinstance(x, E._Num):
                return E.to_float(x)
            return float(x)
    return Float


def late(E):
    """After the code under test has been imported."""
    f = float_like(E)
    for name, m in list(sys.modules.items()):
        if name.startswith('plycutter.') and m is not None and \
                name != 'plycutter.plytypes':
            m.float = f


def _repo():
    from .runner import REPO
    return REPO


def concrete_patches():
    pass
