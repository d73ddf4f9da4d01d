"""Numpy arrays of symbolic numbers, and contracts of the numerical routines
that the code calls on them."""
import contextlib
import numpy as np


class SymArray(np.ndarray):
    """An object array whose conversion to floats keeps symbolic numbers."""

    __array_priority__ = 100

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind == 'f':
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)


def arr(env, rows):
    """A float array (symbolic runs: of symbolic floats)."""
    if not env.symbolic:
        return np.array([[float(v) for v in r] if isinstance(r, (list, tuple))
                         else float(r) for r in rows], np.float64)
    a = np.empty(np.shape(rows) if not isinstance(rows[0], (list, tuple))
                 else (len(rows), len(rows[0])), dtype=object)
    from . import engine as E

    def f(v):
        if isinstance(v, E.SymF):
            return v
        if isinstance(v, E._Num):
            return E._mk(E.SymF, v.n, v.d) if v.c is None else \
                E._mkc(E.SymF, v.c)
        return E._mkc(E.SymF, E.MPQ(v))
    for i in np.ndindex(a.shape):
        a[i] = f(rows[i[0]][i[1]] if len(i) == 2 else rows[i[0]])
    return a.view(SymArray)


def is_sym(x):
    from . import engine as E
    try:
        return any(isinstance(v, E._Num)
                   for v in np.asarray(x, dtype=object).flat)
    except ValueError:
        return False


def solve(A, b):
    """Exact solution of a regular system (Gauss)."""
    n = len(b)
    m = [[A[i][j] for j in range(n)] + [b[i]] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if bool(m[r][c] != 0))
        m[c], m[p] = m[p], m[c]
        m[c] = [v / m[c][c] for v in m[c]]
        for r in range(n):
            if r != c:
                m[r] = [x - m[r][c] * y for x, y in zip(m[r], m[c])]
    out = np.empty(n, dtype=object)
    out[:] = [r[n] for r in m]
    return out.view(SymArray)


@contextlib.contextmanager
def linalg(env):
    """numpy.linalg on symbolic arrays, by contract: lstsq (full row rank)
    is the solution of least norm, solve the solution."""
    if not env.symbolic:
        yield
        return
    keep = np.linalg.lstsq, np.linalg.solve, np.linspace

    def lstsq(a, b, rcond=None, **k):
        if not (is_sym(a) or is_sym(b)):
            return keep[0](a, b, rcond=rcond, **k)
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        g = a.dot(a.T)
        x = a.T.dot(solve(g, b)).view(SymArray)
        return x, np.array([]), len(b), None

    def slv(a, b):
        if not (is_sym(a) or is_sym(b)):
            return keep[1](a, b)
        return solve(np.asarray(a, dtype=object),
                     np.asarray(b, dtype=object))

    def linspace(a, b, num=50, *r, **k):
        if not (is_sym([a]) or is_sym([b])) or r or k:
            return keep[2](a, b, num, *r, **k)
        out = np.empty(num, dtype=object)
        out[:] = [a + (b - a) * i / (num - 1) if num > 1 else a
                  for i in range(num)]
        return out.view(SymArray)
    np.linalg.lstsq, np.linalg.solve, np.linspace = lstsq, slv, linspace
    try:
        yield
    finally:
        np.linalg.lstsq, np.linalg.solve, np.linspace = keep
