"""Symbolic execution of real numpy code on arrays of terms.

`S` is a real number given as a term together with the value the term takes at the
current sample point; comparisons take the branch of the sample point and record the
condition (path condition), so one execution covers every input that satisfies it.
`symbolic(...)` switches numpy/scipy entry points that cannot carry terms to versions
that can, and numba-compiled functions to the Python source they were compiled from.
"""
import contextlib
import math
import re
import sys
import types
from fractions import Fraction
import numpy as np
import scipy.special
import scipy.linalg
from . import term as T


class Unsupported(Exception):
    pass


class PathState:
    def __init__(self):
        self.conds = []      # (op, lhs term, rhs term, outcome)
        self.seen = set()


STATE = PathState()
ENV = {}

_consts = {}


def _init_consts():
    c = {}
    P = T.PI
    two = T.TWO
    c[math.pi] = P
    c[2 * math.pi] = T.mul(two, P)
    c[-2 * math.pi] = T.mul(T.const(-2), P)
    c[4 * math.pi] = T.mul(T.const(4), P)
    c[8 * math.pi] = T.mul(T.const(8), P)
    c[math.pi / 2] = T.mul(T.HALF, P)
    c[math.pi ** 2] = T.mul(P, P)
    c[1 / math.pi] = T.power(P, T.const(-1))
    c[math.sqrt(math.pi)] = T.power(P, T.HALF)
    c[math.log(math.pi)] = T.fn("log", P)
    c[math.log(2 * math.pi)] = T.fn("log", T.mul(two, P))
    c[-math.log(2 * math.pi)] = T.neg(T.fn("log", T.mul(two, P)))
    for num in range(1, 13):
        for den in (1, 2, 4):
            for sg in (1, -1):
                c.setdefault(sg * num * math.log(2 * math.pi) / den, T.mul(T.const(Fraction(sg * num, den)), T.fn("log", T.mul(two, P))))
    c[math.log(2 * math.pi) / 2] = T.mul(T.HALF, T.fn("log", T.mul(two, P)))
    c[math.sqrt(2 * math.pi)] = T.power(T.mul(two, P), T.HALF)
    c[1 / math.sqrt(2 * math.pi)] = T.power(T.mul(two, P), T.const(Fraction(-1, 2)))
    c[1.0 / np.sqrt(2.0 * np.pi)] = c[1 / math.sqrt(2 * math.pi)]
    c[math.sqrt(2)] = T.power(two, T.HALF)
    c[1 / math.sqrt(2)] = T.power(two, T.const(Fraction(-1, 2)))
    c[math.sqrt(0.5)] = T.power(two, T.const(Fraction(-1, 2)))
    c[math.sqrt(2 / math.pi)] = T.power(T.div(two, P), T.HALF)
    c[math.log(2)] = T.fn("log", two)
    c[math.sqrt(3)] = T.power(T.const(3), T.HALF)
    c[math.pi ** 2 / 3] = T.mul(T.mul(P, P), T.const(Fraction(1, 3)))
    c[math.pi ** 2 / 6] = T.mul(T.mul(P, P), T.const(Fraction(1, 6)))
    c[math.e] = T.fn("exp", T.ONE)
    return c


def const_node(x):
    """exact reading of a numeric literal"""
    if isinstance(x, (bool, np.bool_)):
        return T.const(int(x))
    if isinstance(x, (int, np.integer)):
        return T.const(int(x))
    if isinstance(x, Fraction):
        return T.const(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if not math.isfinite(x):
            raise Unsupported("non-finite constant")
        if x == int(x):
            return T.const(int(x))
        if not _consts:
            _consts.update(_init_consts())
        n = _consts.get(x)
        if n is not None:
            return n
        f = Fraction(x).limit_denominator(10 ** 6)
        if abs(float(f) - x) <= 4e-16 * abs(x):
            return T.const(f)
        if len(repr(abs(x))) >= 15:
            # q * pi^(a/2) * sqrt(rational), as produced by constant folding in floating point
            for a in (0, 1, 2, -1, -2, 3, 4, -3, -4):
                y = x / math.pi ** (a / 2)
                for sq in (False, True):
                    z = y * y if sq else abs(y)
                    if not (1e-9 < z < 1e12):
                        continue
                    f = Fraction(z).limit_denominator(2000)
                    if f and abs(float(f) - z) <= 1.5e-15 * z:
                        r = T.power(T.const(f), T.HALF) if sq else T.const(f)
                        r = T.mul(r, T.power(T.PI, T.const(Fraction(a, 2))))
                        r = T.neg(r) if x < 0 else r
                        _consts[x] = r
                        return r
        f = Fraction(repr(x))     # decimal literal as written
        return T.const(f)
    raise Unsupported("constant of type %s" % type(x).__name__)


class S:
    __slots__ = ("n", "v")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if ufunc in _UFN and method == "__call__" and len(inputs) == 1 and not kw:
            return _UFN[ufunc](inputs[0])
        ins = []
        for x in inputs:
            if isinstance(x, S):
                a = np.empty((), dtype=object)
                a[()] = x
                x = a
            ins.append(x)
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, np.ndarray):
            return r[()] if r.ndim == 0 else (r.view(SArr) if r.dtype == object else r)
        return r

    def __init__(self, n, v=None):
        self.n = n
        self.v = T.evalf(n, ENV) if v is None else v

    # numpy scalars/arrays: let arrays broadcast over us
    @staticmethod
    def lift(x):
        if isinstance(x, S):
            return x
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return S.lift(x.item())
            return None
        n = const_node(x)
        return S(n, float(x))

    def _bin(self, o, nf, vf, swap=False):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            f = (lambda e: S.lift(e)._bin(self, nf, vf)) if swap else (lambda e: self._bin(e, nf, vf))
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = f(o[i])
            return out.view(SArr)
        if isinstance(o, (complex, np.complexfloating)):
            g = {T.add: lambda a, b: a + b, T.sub: lambda a, b: a - b, T.mul: lambda a, b: a * b, T.div: lambda a, b: a / b}.get(nf)
            if g is None:
                raise Unsupported("complex power")
            return g(SC.lift(o), SC(self, 0)) if swap else g(SC(self, 0), SC.lift(o))
        if not isinstance(o, (S, int, float, np.number, np.bool_, bool, Fraction, np.ndarray)):
            return NotImplemented
        o = S.lift(o)
        a, b = (o, self) if swap else (self, o)
        try:
            v = vf(a.v, b.v)
        except (OverflowError, ValueError):
            raise Unsupported("sample point outside the numeric domain")
        if isinstance(v, complex):
            raise Unsupported("complex intermediate")
        return S(nf(a.n, b.n), v)

    def __add__(self, o):
        return self._bin(o, T.add, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, T.add, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, T.sub, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, T.sub, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, T.mul, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, T.mul, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._bin(o, T.div, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, T.div, lambda a, b: a / b, True)

    def __pow__(self, o):
        return self._bin(o, T.power, lambda a, b: a ** b)

    def __rpow__(self, o):
        return self._bin(o, T.power, lambda a, b: a ** b, True)

    def __neg__(self):
        return S(T.neg(self.n), -self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    # comparisons: follow the sample, record the condition
    def _cmp(self, o, op):
        o2 = S.lift(o) if not (isinstance(o, (float, np.floating)) and not math.isfinite(o)) else None
        if o2 is None:
            x = float(o)
            return {"<": self.v < x, "<=": self.v <= x, ">": self.v > x, ">=": self.v >= x, "==": False, "!=": True}[op]
        a, b = self, o2
        if a.n is b.n:
            return op in ("<=", ">=", "==")
        r = {"<": a.v < b.v, "<=": a.v <= b.v, ">": a.v > b.v, ">=": a.v >= b.v, "==": a.v == b.v, "!=": a.v != b.v}[op]
        if a.n.op == "c" and b.n.op == "c":
            x, y = a.n.args[0], b.n.args[0]
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
        key = (op, a.n.id, b.n.id)
        if key not in STATE.seen:
            STATE.seen.add(key)
            STATE.conds.append((op, a.n, b.n, r))
        return r

    def __lt__(self, o):
        return self._cmp(o, "<") if not _isarr(o) else NotImplemented

    def __le__(self, o):
        return self._cmp(o, "<=") if not _isarr(o) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o, ">") if not _isarr(o) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o, ">=") if not _isarr(o) else NotImplemented

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return self._cmp(o, "==") if not _isarr(o) else NotImplemented

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return self._cmp(o, "!=") if not _isarr(o) else NotImplemented

    def __hash__(self):
        return hash(self.n)

    def __bool__(self):
        return self._cmp(0, "!=")

    def __float__(self):
        if self.n.op == "c":
            return float(self.n.args[0])
        raise Unsupported("symbolic value converted to float")

    def __int__(self):
        if self.n.op == "c":
            return int(self.n.args[0])
        raise Unsupported("symbolic value converted to int")

    def __repr__(self):
        return "S(%r≈%g)" % (self.n, self.v)

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def astype(self, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def reshape(self, *a, **k):
        return np.array([self], dtype=object).view(SArr).reshape(*a, **k)

    def dot(self, o):
        return self * o

    @property
    def dtype(self):
        return np.dtype(object)

    def clip(self, lo=None, hi=None, out=None, **kw):
        r = self
        if lo is not None and r < lo:
            r = S.lift(lo)
        if hi is not None and r > hi:
            r = S.lift(hi)
        return r


def _isarr(o):
    return isinstance(o, np.ndarray) and o.ndim > 0


def _mathfn(name, vf, tname=None):
    tname = tname or name

    def f(self):
        try:
            v = vf(self.v)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Unsupported("sample outside the domain of " + name)
        return S(T.fn(tname, self.n), v)
    f.__name__ = name
    return f


for _n, _f in dict(exp=math.exp, log=math.log, sqrt=math.sqrt, sin=math.sin, cos=math.cos, tan=math.tan, arctan=math.atan,
                   arcsin=math.asin, sinh=math.sinh, cosh=math.cosh, tanh=math.tanh, arctanh=math.atanh, arcsinh=math.asinh,
                   arccosh=math.acosh, log1p=math.log1p, expm1=math.expm1, arccos=math.acos).items():
    setattr(S, _n, _mathfn(_n, _f))
_UFN = {np.isnan: lambda x: False, np.isinf: lambda x: False, np.isfinite: lambda x: True}
S.square = lambda self: self * self
class SC:
    """complex number whose parts are symbolic: what complex-step code computes with"""
    __slots__ = ("real", "imag")
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.real, self.imag = re, im

    @staticmethod
    def lift(o):
        if isinstance(o, SC):
            return o
        if isinstance(o, (complex, np.complexfloating)):
            return SC(float(o.real), float(o.imag))
        if isinstance(o, (S, int, float, np.number, Fraction)):
            return SC(o, 0)
        return None

    def _op(self, o, f, swap=False):
        if isinstance(o, np.ndarray):
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                out[i] = self._op(o[i], f, swap)
            return out.view(SArr) if o.ndim else out[()]
        o = SC.lift(o)
        if o is None:
            return NotImplemented
        return f(o, self) if swap else f(self, o)

    @staticmethod
    def _mul(a, b):
        return SC(a.real * b.real - a.imag * b.imag, a.real * b.imag + a.imag * b.real)

    @staticmethod
    def _div(a, b):
        d = b.real * b.real + b.imag * b.imag
        return SC((a.real * b.real + a.imag * b.imag) / d, (a.imag * b.real - a.real * b.imag) / d)

    def __add__(self, o):
        return self._op(o, lambda a, b: SC(a.real + b.real, a.imag + b.imag))

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        return self._op(o, lambda a, b: SC(a.real - b.real, a.imag - b.imag))

    def __rsub__(self, o):
        return self._op(o, lambda a, b: SC(a.real - b.real, a.imag - b.imag), True)

    def __mul__(self, o):
        return self._op(o, SC._mul)

    def __rmul__(self, o):
        return self._op(o, SC._mul)

    def __truediv__(self, o):
        return self._op(o, SC._div)

    def __rtruediv__(self, o):
        return self._op(o, SC._div, True)

    def __pow__(self, k):
        if not isinstance(k, (int, np.integer)) or k < 0:
            raise Unsupported("complex power")
        r = SC(1, 0)
        for _ in range(int(k)):
            r = r * self
        return r

    def __neg__(self):
        return SC(-self.real, -self.imag)

    def conjugate(self):
        return SC(self.real, -self.imag)


S.reciprocal = lambda self: 1 / self
S.log2 = lambda self: self.log() / S(T.fn("log", T.TWO), math.log(2))
S.log10 = lambda self: self.log() / S(T.fn("log", T.const(10)), math.log(10))
S.exp2 = lambda self: S(T.fn("exp", T.mul(self.n, T.fn("log", T.TWO))), 2.0 ** self.v)
S.cbrt = lambda self: self ** Fraction(1, 3)
S.isnan = lambda self: False
S.isinf = lambda self: False
S.isfinite = lambda self: True
S.rint = None
S.conj = S.conjugate


class SArr(np.ndarray):
    """object ndarray that ignores requests to become a float array"""

    def astype(self, dtype=None, *a, **k):
        try:
            if np.dtype(dtype).kind in "fcO":
                return self.copy()
        except TypeError:
            pass
        return np.ndarray.astype(self, dtype, *a, **k)

    @property
    def values(self):
        return self

    @property
    def imag(self):
        return _part(self, "imag")

    @property
    def real(self):
        return _part(self, "real")

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return _var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np.sqrt(_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0 and return_scalar:
            return arr[()]
        return np.ndarray.__array_wrap__(self, arr, context, return_scalar) if arr.ndim else arr[()]


def _part(a, nm):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = getattr(a[i], nm)
    return out.view(SArr)


def _var(a, axis=None, ddof=0, keepdims=False, **k):
    a = np.asanyarray(a)
    m = np.mean(a, axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    d = a - m
    return np.sum(d * d, axis=axis, keepdims=keepdims) / (n - ddof)


def has_sym(x):
    if isinstance(x, S):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(e, S) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def oarr(x):
    """object array from anything"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        return x.astype(object).view(SArr)
    a = np.array(x, dtype=object)
    return a.view(SArr)


def symvec(names, vals):
    out = np.empty(len(names), dtype=object)
    for i, (n, v) in enumerate(zip(names, vals)):
        ENV[n] = float(v)
        out[i] = S(T.var(n), float(v))
    return out.view(SArr)


def symvar(name, val):
    ENV[name] = float(val)
    return S(T.var(name), float(val))


def symarray(prefix, vals):
    vals = np.asarray(vals, dtype=float)
    out = np.empty(vals.shape, dtype=object)
    for i in np.ndindex(vals.shape):
        nm = prefix + "_" + "_".join(map(str, i))
        if nm in ENV and ENV[nm] != float(vals[i]):
            raise Unsupported("two values for the symbol " + nm)
        ENV[nm] = float(vals[i])
        out[i] = S(T.var(nm), float(vals[i]))
    return out.view(SArr)


def node(x):
    return S.lift(x).n


# ---------------------------------------------------------------------------
# numpy / scipy replacements
# ---------------------------------------------------------------------------
def _elementwise(tname, vf, orig, nargs=1):
    def f(*args, **kw):
        if not any(has_sym(a) for a in args[:nargs]):
            if any(isinstance(a, np.ndarray) and a.dtype == object for a in args[:nargs]):
                args = [np.asarray(a, dtype=float) if isinstance(a, np.ndarray) and a.dtype == object else a for a in args]
            return orig(*args, **kw)
        out_arg = kw.pop("out", None)
        if len(args) > nargs:
            out_arg = args[nargs]
        bs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args[:nargs]])
        out = np.empty(bs[0].shape, dtype=object)
        for i in np.ndindex(bs[0].shape):
            es = [S.lift(b[i]) for b in bs]
            v = float(orig(*[e.v for e in es]))
            out[i] = S(T.fn(tname, *[e.n for e in es]), v)
        if out_arg is not None:
            if isinstance(out_arg, tuple):
                out_arg = out_arg[0]
            out_arg[...] = out
            return out_arg
        return out[()] if out.ndim == 0 else out.view(SArr)
    f._vf_orig = orig
    return f


def _float_dtype(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in "fc"
    except TypeError:
        return False


def _mk_alloc(orig, fill):
    def f(shape, dtype=None, order="C", **kw):
        if kw.get("like") is not None:
            kw.pop("like")
        if type(dtype).__module__.startswith("numba"):
            dtype = np.dtype(str(dtype))
        if _float_dtype(dtype):
            a = np.empty.__wrapped__(shape, dtype=object, order=order) if hasattr(np.empty, "__wrapped__") else orig(shape, dtype=object)
            a[...] = fill
            return a.view(SArr)
        return orig(shape, dtype, order, **kw)
    f.__wrapped__ = orig
    return f


def det(A):
    A = oarr(A)
    n = A.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    # expansion along the first row (small n)
    s = 0
    for j in range(n):
        if not isinstance(A[0, j], S) and A[0, j] == 0:
            continue
        minor = np.delete(np.delete(A, 0, 0), j, 1)
        s = s + (-1) ** j * A[0, j] * det(minor)
    return s


def inv(A):
    A = oarr(A)
    if A.ndim > 2:
        return np.stack([inv(a) for a in A])
    n = A.shape[0]
    d = det(A)
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = 1 / S.lift(A[0, 0])
        return out.view(SArr)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(A, i, 0), j, 1)
            out[j, i] = (-1) ** (i + j) * det(minor) / d
    return out.view(SArr)


def chol(A):
    A = oarr(A)
    n = A.shape[0]
    L = np.zeros((n, n), dtype=object)
    L[...] = 0
    for j in range(n):
        s = A[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        L[j, j] = S.lift(s).sqrt()
        for i in range(j + 1, n):
            s = A[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            L[i, j] = s / L[j, j]
    return L.view(SArr)


def _other_triangle(A, lower):
    """LAPACK leaves the triangle it does not reference as it was"""
    n = A.shape[0]
    out = np.zeros((n, n), dtype=object)
    out[...] = 0
    for i in range(n):
        for j in range(n):
            if (j > i) if lower else (j < i):
                out[i, j] = A[i, j]
    return out.view(SArr)


def gram_schmidt(A, oqr):
    """assumed contract of the QR factorisation: Q R = A, Q'Q = I, R upper triangular, diagonal signs as LAPACK chose at the sample"""
    A = oarr(A)
    m, n = A.shape
    Rc = oqr(np.array([[float(S.lift(x).v) for x in r] for r in A]))[1]
    Q = np.empty((m, n), dtype=object)
    R = np.zeros((n, n), dtype=object)
    R[...] = 0
    for j in range(n):
        v = A[:, j]
        for k in range(j):
            R[k, j] = np.dot(Q[:, k], A[:, j])
            v = v - R[k, j] * Q[:, k]
        nr = S.lift(np.dot(v, v)).sqrt()
        R[j, j] = -nr if Rc[j, j] < 0 else nr
        Q[:, j] = v / R[j, j]
    return Q.view(SArr), R.view(SArr)


def solve(A, b):
    return np.dot(inv(A), oarr(b))


def solve_tri(A, b, lower=False, trans=0, unit_diagonal=False):
    A = oarr(A)
    n = A.shape[0]
    M = np.zeros((n, n), dtype=object)
    M[...] = 0
    for i in range(n):
        for j in range(n):
            if (lower and j <= i) or (not lower and j >= i):
                M[i, j] = A[i, j]
    if unit_diagonal:
        for i in range(n):
            M[i, i] = 1
    low = lower
    if trans in (1, "T", 2, "C"):
        M = M.T
        low = not lower
    B = oarr(b).copy()
    vec = B.ndim == 1
    if vec:
        B = B[:, None]
    X = np.empty(B.shape, dtype=object)
    rng = range(n) if low else range(n - 1, -1, -1)
    for i in rng:
        for c in range(B.shape[1]):
            s = B[i, c]
            for k in (range(i) if low else range(i + 1, n)):
                s = s - M[i, k] * X[k, c]
            X[i, c] = S.lift(s) / M[i, i]
    X = X.view(SArr)
    return X[:, 0] if vec else X


class _Patch:
    def __init__(self):
        self.saved = []

    def set(self, obj, name, val):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def setitem(self, d, k, val):
        self.saved.append((d, ("item", k), d.get(k, _MISSING)))
        d[k] = val

    def undo(self):
        for o, n, v in reversed(self.saved):
            if isinstance(n, tuple):
                if v is _MISSING:
                    o.pop(n[1], None)
                else:
                    o[n[1]] = v
            else:
                setattr(o, n, v)
        self.saved = []


_numba_cache = {}


def unjit(f):
    """Python source function behind a numba-compiled callable, or None"""
    try:
        from numba.core.registry import CPUDispatcher
        from numba.np.ufunc.dufunc import DUFunc
        from numba.np.ufunc.gufunc import GUFunc
    except Exception:
        return None
    if isinstance(f, CPUDispatcher):
        return f.py_func
    if isinstance(f, DUFunc):
        py = f._dispatcher.py_func
        v = np.vectorize(py, otypes=[object])
        v.__vf_orig__ = f

        def g(*a, **k):
            if any(isinstance(x, np.ndarray) and x.ndim for x in a):
                return v(*a, **k).view(SArr)
            return py(*a, **k)
        return g
    if isinstance(f, GUFunc):
        return _gufunc_py(f)
    return None


def _gufunc_py(f):
    py = getattr(f, "py_func", None) or f.gufunc_builder.py_func
    sig = f.gufunc_builder.signature
    ins, outs = sig.split("->")
    parse = lambda s: [[d.strip() for d in p.split(",") if d.strip()] for p in s.replace(" ", "").strip("()").split("),(")]
    ins, outs = parse(ins), parse(outs)

    def g(*args, **kw):
        args = [oarr(a) for a in args]
        res = args[len(ins):]
        args = args[:len(ins)]
        dims = {}
        for a, d in zip(args, ins):
            for k, nm in enumerate(d):
                dims[nm] = a.shape[a.ndim - len(d) + k]
        loop = np.broadcast_shapes(*[a.shape[:a.ndim - len(d)] for a, d in zip(args, ins)])
        args = [np.broadcast_to(a, loop + a.shape[a.ndim - len(d):]) for a, d in zip(args, ins)]
        if not res:
            res = []
            for d in outs:
                o = np.empty(loop + tuple(dims[x] for x in d), dtype=object)
                o[...] = 0
                res.append(o.view(SArr))
        for i in np.ndindex(loop):
            ai = []
            for a, d in zip(args, ins):
                ai.append(a[i].copy() if d else a[i])
            oi = [o[i] if d else o[i:i + 1] if False else o[i] for o, d in zip(res, outs)]
            if any(not d for d in outs):
                bufs = [np.empty(1, dtype=object) for _ in outs]
                py(*(ai + bufs))
                for o, b in zip(res, bufs):
                    o[i] = b[0]
            else:
                py(*(ai + oi))
        return res[0] if len(res) == 1 else tuple(res)
    g.py = py
    return g


def _repo_modules():
    return [m for n, m in list(sys.modules.items()) if n.startswith("pystatsm") and isinstance(m, types.ModuleType)]


class _ModProxy(types.ModuleType):
    """stands for a library module inside repository code; attributes not overridden are the library's"""

    def __init__(self, mod, over, px):
        self.__dict__.update(_vf_mod=mod, _vf_over=over, _vf_px=px)

    def __getattr__(self, nm):
        d = self.__dict__
        if nm in d["_vf_over"]:
            return d["_vf_over"][nm]
        v = getattr(d["_vf_mod"], nm)
        if isinstance(v, types.ModuleType):
            p = d["_vf_px"].get(v)
            return v if p is None else p
        return v

    def __setattr__(self, nm, val):
        self.__dict__["_vf_over"][nm] = val


class _Proxies:
    def __init__(self):
        self.over, self.funcs, self.px = {}, {}, {}

    def set(self, mod, nm, val):
        self.over.setdefault(id(mod), {})[nm] = val
        self.funcs[id(getattr(mod, nm))] = val

    def get(self, mod):
        import scipy
        if mod not in (np, np.linalg, scipy, scipy.linalg, scipy.linalg.lapack, scipy.special, sys.modules.get("scipy.stats")):
            return None
        if id(mod) not in self.px:
            self.px[id(mod)] = _ModProxy(mod, self.over.setdefault(id(mod), {}), self)
        return self.px[id(mod)]


_MISSING = object()


def _chi2_sf(x, df):
    return T._chi2_sf(x, df, None)


class _Chi2Meta:
    """scipy.stats.chi2 with the survival function on real terms as an uninterpreted function"""

    def __init__(self, orig):
        self._o = orig

    def __call__(self, df):
        return _Chi2(df, self._o)

    def __getattr__(self, nm):
        if nm == "sf":
            return lambda x, df: F.chi2_sf(x, df)
        return getattr(self._o, nm)


class _Chi2:
    def __init__(self, df, orig):
        self.df, self._d = df, (None if has_sym(df) else orig(df))

    def __getattr__(self, nm):
        if nm == "sf":
            return lambda x: F.chi2_sf(x, self.df)
        return getattr(self._d, nm)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, x=0.0):
        if isinstance(x, S):
            return x
        if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object and isinstance(x.reshape(-1)[0], S):
            return x.reshape(-1)[0]
        return float(x)


class SymFloat(float, metaclass=_FloatMeta):
    """stands for the builtin float in repository code: the conversion is the identity on real terms"""
    dtype = np.dtype(float)


_src_has_float = {}


def _calls_float(m):
    if m.__name__ not in _src_has_float:
        try:
            with open(m.__file__) as f:
                _src_has_float[m.__name__] = re.search(r"\bfloat\(", f.read()) is not None
        except Exception:
            _src_has_float[m.__name__] = False
    return _src_has_float[m.__name__]


def pinv(A, *a, **k):
    """Moore-Penrose inverse of a full-rank matrix"""
    A = oarr(A)
    if A.shape[0] == A.shape[1]:
        return inv(A)
    if A.shape[0] > A.shape[1]:
        return np.dot(inv(np.dot(A.T, A)), A.T)
    return np.dot(A.T, inv(np.dot(A, A.T)))


def eigh2(A):
    """spectral decomposition of a symmetric matrix of order 1 or 2, ascending eigenvalues"""
    A = oarr(A)
    n = A.shape[0]
    if n == 1:
        return oarr([A[0, 0]]), oarr([[1]])
    if n != 2:
        raise Unsupported("eigenvalues of a symbolic matrix of order %d" % n)
    a, b, d = S.lift(A[0, 0]), S.lift(A[1, 0]), S.lift(A[1, 1])
    if T.is_const(b.n) and b.v == 0:
        w, V = [a, d], np.array([[1, 0], [0, 1]], dtype=object)
        if a.v > d.v:
            w, V = [d, a], np.array([[0, 1], [1, 0]], dtype=object)
        return oarr(w), V.view(SArr)
    h = (a - d) / 2
    r = (h * h + b * b).sqrt()
    m = (a + d) / 2
    # eigenvectors (b, w - a) and (-(w - a), b) with w the larger eigenvalue
    t = r - h
    nn = (b * b + t * t).sqrt()
    if nn.v == 0:
        raise Unsupported("degenerate eigenvector")
    V = np.empty((2, 2), dtype=object)
    V[0, 1], V[1, 1] = b / nn, t / nn
    V[0, 0], V[1, 0] = -t / nn, b / nn
    return oarr([m - r, m + r]), V.view(SArr)


def svd2(A, full_matrices=True, **k):
    """thin singular value decomposition with at most two columns (or rows)"""
    A = oarr(A)
    if A.ndim != 2 or (full_matrices and A.shape[0] != A.shape[1]):
        raise Unsupported("full singular value decomposition")
    if A.shape[0] < A.shape[1]:
        U, s, Vt = svd2(A.T, False)
        return Vt.T, s, U.T
    w, V = eigh2(np.dot(A.T, A))
    w, V = w[::-1], V[:, ::-1]
    s = oarr([S.lift(t).sqrt() for t in w])
    if any(S.lift(t).v <= 1e-300 for t in s):
        return None, s, V.T
    return np.dot(A, V) / s, s, V.T


_SMALL = {"eigh": lambda A, *a, **k: eigh2(A), "eigvalsh": lambda A, *a, **k: eigh2(A)[0], "svd": svd2}
_active = [0]


@contextlib.contextmanager
def symbolic(extra=(), keep_jit=()):
    """extra: (object, attribute, replacement) triples, e.g. assumed contracts of compiled callees"""
    P = _Patch()
    import scipy.stats as ss
    PX = _Proxies()
    sc = scipy.special
    global STATE
    old_state = STATE
    STATE = PathState()
    if _active[0]:
        raise RuntimeError("nested symbolic()")
    _active[0] = 1
    try:
        o = {}
        # products of (constant) sparse matrices with symbolic dense arrays: by their dense form
        from scipy.sparse import _base as _spb
        spmd, sprmd = _spb._spbase._matmul_dispatch, _spb._spbase._rmatmul_dispatch

        def _obj(o):
            return isinstance(o, np.ndarray) and o.dtype == object

        def md(self, other, *a, **k):
            if _obj(other):
                return np.matmul(np.asarray(self.toarray()).astype(object), np.asarray(other)).view(SArr)
            return spmd(self, other, *a, **k)

        def rmd(self, other, *a, **k):
            if _obj(other):
                return np.matmul(np.asarray(other), np.asarray(self.toarray()).astype(object)).view(SArr)
            return sprmd(self, other, *a, **k)
        P.set(_spb._spbase, "_matmul_dispatch", md)
        P.set(_spb._spbase, "_rmatmul_dispatch", rmd)
        # sparse matrices hold constants: constant object arrays are converted on construction
        def _cv(x):
            if _obj(x):
                if has_sym(x):
                    raise Unsupported("sparse matrix of symbolic entries")
                return np.array([float(t) for t in x.ravel()], dtype=float).reshape(x.shape)
            if isinstance(x, (tuple, list)):
                return type(x)(_cv(t) for t in x)
            return x

        def _wrapinit(cls):
            oi = cls.__init__

            def init(self, arg1, *a, **k):
                return oi(self, _cv(arg1), *a, **k)
            P.set(cls, "__init__", init)
        from scipy.sparse import _coo, _compressed, _dia
        for c_ in (_coo._coo_base, _compressed._cs_matrix, _dia._dia_base):
            _wrapinit(c_)
        # object ufuncs call methods of the elements: plain numbers among them are lifted first
        def _lifted(orig):
            def f(x, *a, **k):
                if isinstance(x, np.ndarray) and x.dtype == object and any(not isinstance(t, S) for t in x.flat):
                    y = np.empty(x.shape, dtype=object)
                    for i in np.ndindex(*x.shape):
                        y[i] = S.lift(x[i])
                    x = y.view(SArr)
                return orig(x, *a, **k)
            return f
        for nm in ("sqrt", "exp", "log", "sin", "cos", "tanh", "arctanh"):
            if isinstance(getattr(np, nm), np.ufunc):
                PX.set(np, nm, _lifted(getattr(np, nm)))
        # allocation
        for nm, fill in (("zeros", 0), ("empty", 0), ("ones", 1)):
            PX.set(np, nm, _mk_alloc(getattr(np, nm), fill))
        ofull = np.full

        def full(shape, fill_value, dtype=None, **kw):
            if _float_dtype(dtype) and not isinstance(fill_value, (bool, np.bool_)):
                a = ofull(shape, 0, dtype=object)
                a[...] = fill_value
                return a.view(SArr)
            return ofull(shape, fill_value, dtype=dtype, **kw)
        PX.set(np, "full", full)

        def _like(orig, fill):
            def f(a, dtype=None, *args, **kw):
                aa = np.asanyarray(a)
                kind = aa.dtype.kind if dtype is None else (np.dtype(dtype).kind)
                if kind in "fcO":
                    sh = kw.get("shape") or aa.shape
                    b = ofull(sh, 0, dtype=object)
                    b[...] = fill
                    return b.view(SArr)
                return orig(a, dtype, *args, **kw)
            return f
        PX.set(np, "zeros_like", _like(np.zeros_like, 0))
        PX.set(np, "empty_like", _like(np.empty_like, 0))
        PX.set(np, "ones_like", _like(np.ones_like, 1))
        ofl = np.full_like

        def full_like(a, fill_value, dtype=None, **kw):
            if dtype is None or np.dtype(dtype).kind in "fcO":
                b = ofull(np.shape(a), 0, dtype=object)
                b[...] = fill_value
                return b.view(SArr)
            return ofl(a, fill_value, dtype=dtype, **kw)
        PX.set(np, "full_like", full_like)
        oeye = np.eye

        def eye(N, M=None, k=0, dtype=float, **kw):
            a = oeye(N, M, k, dtype=int)
            return a.astype(object).view(SArr) if _float_dtype(dtype) else oeye(N, M, k, dtype=dtype)
        PX.set(np, "eye", eye)
        PX.set(np, "identity", lambda n, dtype=None, **k: eye(n))

        def _conv(orig):
            def f(a, dtype=None, *args, **kw):
                if dtype is not None and _float_dtype(dtype) and has_sym(a):
                    dtype = object
                r = orig(a, dtype, *args, **kw) if dtype is not None else orig(a, *args, **kw)
                return r.view(SArr) if isinstance(r, np.ndarray) and r.dtype == object and type(r) is np.ndarray else r
            return f
        for nm in ("asarray", "array", "ascontiguousarray", "asfortranarray", "asanyarray"):
            PX.set(np, nm, _conv(getattr(np, nm)))
        for nm in ("atleast_1d", "atleast_2d"):
            def al(*a, _o=getattr(np, nm)):
                r = _o(*a)
                return r.view(SArr) if isinstance(r, np.ndarray) and r.dtype == object else r
            PX.set(np, nm, al)
        olin = np.linspace

        def linspace(start, stop, num=50, **kw):
            if kw or not (has_sym(start) or has_sym(stop)):
                return olin(start, stop, num, **kw)
            out = np.empty(num, dtype=object)
            for i in range(num):
                out[i] = start + (stop - start) * Fraction(i, num - 1) if i else start
            return out.view(SArr)
        PX.set(np, "linspace", linspace)
        # predicates
        for nm, val in (("isnan", False), ("isinf", False), ("isfinite", True)):
            orig = getattr(np, nm)

            def pf(a, *args, _o=orig, _v=val, **kw):
                if isinstance(a, S) or (isinstance(a, np.ndarray) and a.dtype == object):
                    return ofull(np.shape(a), _v, dtype=bool) if np.shape(a) else _v
                return _o(a, *args, **kw)
            PX.set(np, nm, pf)
        onn = np.nan_to_num
        PX.set(np, "nan_to_num", lambda a, *x, **k: a if has_sym(a) else onn(a, *x, **k))
        ovar, ostd = np.var, np.std
        PX.set(np, "var", lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: _var(a, axis, ddof, keepdims) if has_sym(a) else ovar(np.asarray(a, dtype=float), axis=axis, ddof=ddof, keepdims=keepdims))
        ocov = np.cov

        def cov_(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
            if not (has_sym(m) or has_sym(y)):
                return ocov(m, y, rowvar, bias, ddof, fweights, aweights, **k)
            if y is not None or fweights is not None or aweights is not None:
                raise Unsupported("weighted or paired covariance")
            m = np.asanyarray(m)
            if m.ndim < 2:
                m = m.reshape(1, -1)
            elif not rowvar:
                m = m.T
            d = m - np.mean(m, axis=1, keepdims=True)
            r = d @ d.T / (m.shape[1] - (ddof if ddof is not None else (0 if bias else 1)))
            return r[0, 0] if r.shape == (1, 1) else r
        PX.set(np, "cov", cov_)
        PX.set(np, "std", lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: np.sqrt(_var(a, axis, ddof, keepdims)) if has_sym(a) else ostd(np.asarray(a, dtype=float), axis=axis, ddof=ddof, keepdims=keepdims))
        oeins = np.einsum

        def einsum(*a, **k):
            k.pop("optimize", None)
            ops = [oarr(x) if isinstance(x, np.ndarray) and x.dtype.kind in "fciO" else x for x in a]
            if not any(has_sym(x) for x in a[1:]):
                return oeins(*a, **k)
            return _einsum(ops[0], *ops[1:])
        PX.set(np, "einsum", einsum)
        # linear algebra
        la, sl = np.linalg, scipy.linalg
        sym1 = lambda orig, new: (lambda A, *a, **k: new(A, *a, **k) if has_sym(A) or any(has_sym(x) for x in a) else orig(_defl(A), *[_defl(x) for x in a], **k))
        PX.set(la, "inv", sym1(la.inv, lambda A, **k: inv(A)))
        PX.set(sl, "inv", sym1(sl.inv, lambda A, **k: inv(A)))
        PX.set(la, "pinv", sym1(la.pinv, pinv))
        PX.set(la, "solve", sym1(la.solve, lambda A, b: solve(A, b)))
        PX.set(sl, "solve", sym1(sl.solve, lambda A, b, **k: solve(A, b)))
        PX.set(la, "det", sym1(la.det, lambda A: det(A)))
        PX.set(sl, "det", sym1(sl.det, lambda A, **k: det(A)))

        def slogdet(A):
            d = S.lift(det(A))
            if d.v <= 0:
                return -1.0, (-d).log()
            return 1.0, d.log()
        PX.set(la, "slogdet", sym1(la.slogdet, slogdet))
        PX.set(la, "cholesky", sym1(la.cholesky, lambda A, **k: chol(A)))

        def scholesky(A, lower=False, **k):
            L = chol(A)
            return L if lower else L.T
        PX.set(sl, "cholesky", sym1(sl.cholesky, scholesky))
        PX.set(sl, "solve_triangular", sym1(sl.solve_triangular, lambda A, b, trans=0, lower=False, unit_diagonal=False, **k: solve_tri(A, b, lower, trans, unit_diagonal)))
        PX.set(sl, "cho_factor", sym1(sl.cho_factor, lambda A, lower=False, **k: (scholesky(A, lower), lower)))
        olf, ols = sl.lu_factor, sl.lu_solve

        def lu_factor(A, *a, **k):
            return (np.array(A, dtype=object).view(SArr), None) if has_sym(A) else olf(_defl(A), *a, **k)

        def lu_solve(lu, b, trans=0, **k):
            A, piv = lu
            if piv is not None and not has_sym(b):
                return ols((A, piv), _defl(b), trans=trans, **k)
            if piv is not None:
                L = np.tril(A, -1) + np.eye(len(A))
                M = L @ np.triu(A)
                for i in range(len(piv) - 1, -1, -1):
                    M[[i, piv[i]]] = M[[piv[i], i]]
                A = M
            return solve(A.T if trans else A, b)
        PX.set(sl, "lu_factor", lu_factor)
        PX.set(sl, "lu_solve", lu_solve)
        ocs = sl.cho_solve

        def cho_solve(cl, b, **k):
            c, lower = cl
            if not (has_sym(c) or has_sym(b)):
                return ocs((_defl(c), lower), _defl(b), **k)
            L = c if lower else oarr(c).T
            return solve_tri(L, solve_tri(L, b, True), True, 1)
        PX.set(sl, "cho_solve", cho_solve)

        def lstsq(X, y, *a, **k):
            X = oarr(X)
            return solve(X.T.dot(X), X.T.dot(oarr(y))), None, None, None
        PX.set(la, "lstsq", sym1(la.lstsq, lstsq))
        onorm = la.norm

        def norm(x, ord=None, axis=None, keepdims=False):
            if not has_sym(x):
                return onorm(_defl(x), ord, axis, keepdims)
            if ord not in (None, 2, "fro") or (ord == 2 and np.ndim(x) == 2 and axis is None):
                raise Unsupported("norm")
            s2 = np.sum(oarr(x) ** 2, axis=axis, keepdims=keepdims)
            if np.ndim(s2) == 0:
                return S.lift(s2).sqrt()
            out = np.empty(s2.shape, dtype=object)
            for i in np.ndindex(s2.shape):
                out[i] = S.lift(s2[i]).sqrt()
            return out.view(SArr)
        PX.set(la, "norm", norm)
        oqr = la.qr

        def qr(A, mode="reduced"):
            if not has_sym(A):
                return oqr(_defl(A), mode)
            if mode != "reduced" or np.ndim(A) != 2 or np.shape(A)[0] < np.shape(A)[1]:
                raise Unsupported("qr mode")
            return gram_schmidt(A, oqr)
        PX.set(la, "qr", qr)
        osqr = sl.qr

        def sqr(A, *a, **k):
            if not has_sym(A):
                return osqr(_defl(A), *a, **k)
            if a or k.get("mode") != "economic" or set(k) - {"mode"}:
                raise Unsupported("scipy qr mode")
            return gram_schmidt(A, oqr)
        PX.set(sl, "qr", sqr)
        lp = sl.lapack

        def dtrtri(c, lower=0, **k):
            A = oarr(c)
            return solve_tri(A, np.eye(A.shape[0]), bool(lower)) + _other_triangle(A, bool(lower)), 0
        PX.set(lp, "dtrtri", sym1(lp.dtrtri, dtrtri))
        omd = la.multi_dot

        def multi_dot(arrs, **k):
            if not any(has_sym(x) for x in arrs):
                return omd([_defl(x) for x in arrs], **k)
            r = oarr(arrs[0])
            for x in arrs[1:]:
                r = np.dot(r, oarr(x))
            return r
        PX.set(la, "multi_dot", multi_dot)
        okr = sl.khatri_rao

        def khatri_rao(A, B):
            if not (has_sym(A) or has_sym(B)):
                return okr(A, B)
            A, B = oarr(A), oarr(B)
            return (A[:, None, :] * B[None, :, :]).reshape((-1,) + B.shape[1:])
        PX.set(sl, "khatri_rao", khatri_rao)
        for nm in ("eigh", "eig", "svd", "eigvalsh", "matrix_rank", "cond"):
            orig = getattr(la, nm)

            def uf(A, *a, _o=orig, _nm=nm, **k):
                if has_sym(A):
                    if _nm in _SMALL:
                        return _SMALL[_nm](A, *a, **k)
                    raise Unsupported("numpy.linalg." + _nm)
                return _o(_defl(A), *a, **k)
            PX.set(la, nm, uf)
        for nm in ("eigh", "eig", "svd", "eigvalsh", "sqrtm", "expm", "logm", "lstsq", "ldl", "lu"):
            if hasattr(sl, nm):
                orig = getattr(sl, nm)

                def uf(A, *a, _o=orig, _nm=nm, **k):
                    if has_sym(A):
                        if _nm in _SMALL:
                            return _SMALL[_nm](A, *a, **k)
                        raise Unsupported("scipy.linalg." + _nm)
                    return _o(_defl(A), *a, **k)
                PX.set(sl, nm, uf)
        osbd = sl.block_diag

        def block_diag(*arrs):
            arrs = [np.atleast_2d(oarr(a)) for a in arrs]
            R, C = sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)
            out = ofull((R, C), 0, dtype=object)
            r = c = 0
            for a in arrs:
                out[r:r + a.shape[0], c:c + a.shape[1]] = a
                r += a.shape[0]
                c += a.shape[1]
            return out.view(SArr)
        PX.set(sl, "block_diag", block_diag)
        # special functions
        sp1 = ["ndtr", "ndtri", "gammaln", "erf", "erfc", "erfinv", "erfcinv", "expit", "logit", "log_ndtr", "digamma", "gamma", "loggamma", "psi", "log1p", "expm1"]
        amap = {}
        for nm in sp1:
            if hasattr(sc, nm):
                orig = getattr(sc, nm)
                tn = {"psi": "digamma", "loggamma": "gammaln"}.get(nm, nm)
                w = _elementwise(tn, None, orig, 1)
                PX.set(sc, nm, w)
                amap[id(orig)] = w
        for nm in ("beta", "betaln", "binom", "polygamma", "xlogy", "xlog1py", "poch"):
            orig = getattr(sc, nm)
            w = _elementwise(nm, None, orig, 2)
            PX.set(sc, nm, w)
            amap[id(orig)] = w
        ofact = sc.factorial

        def factorial(n, *a, **k):
            if has_sym(n):
                return amap[id(scipy.special.gamma)](oarr(n) + 1 if isinstance(n, np.ndarray) else n + 1)
            return ofact(_defl(n), *a, **k)
        PX.set(sc, "factorial", factorial)
        amap[id(ofact)] = factorial
        osm = sc.softmax

        def logsumexp(a, axis=None, b=None, keepdims=False, **k):
            a = oarr(a)
            e = np.exp(a)
            if b is not None:
                e = e * b
            return np.log(np.sum(e, axis=axis, keepdims=keepdims))
        olse = sc.logsumexp
        PX.set(sc, "logsumexp", lambda a, *x, **k: logsumexp(a, *x, **k) if has_sym(a) else olse(_defl(a), *x, **k))
        amap[id(olse)] = PX.over[id(sc)]['logsumexp']
        # scipy.stats distributions used through frozen/pdf calls are left alone
        # frozen normal

        class _Norm:
            def __init__(self, loc=0, scale=1):
                self.l, self.s = loc, scale

            def _z(self, x):
                return (x - self.l) / self.s
            def pdf(self, x):
                z = self._z(x)
                return np.exp(-z * z / 2) / np.sqrt(oarr([S(T.mul(T.TWO, T.PI))]))[0] / self.s

            def logpdf(self, x):
                z = self._z(x)
                return -z * z / 2 - S(T.mul(T.HALF, T.fn("log", T.mul(T.TWO, T.PI)))) - (np.log(self.s) if has_sym(self.s) or self.s != 1 else 0)

            def cdf(self, x):
                return amap[id(scipy.special.ndtr)](self._z(x))

            def sf(self, x):
                return amap[id(scipy.special.ndtr)](-self._z(x))

            def ppf(self, p):
                return self.l + self.s * amap[id(scipy.special.ndtri)](p)

            def logcdf(self, x):
                return np.log(self.cdf(x))

        class _NormMeta:
            def __init__(self, orig):
                self._o = orig

            def __call__(self, loc=0, scale=1):
                return _Norm(loc, scale)

            def __getattr__(self, nm):
                if nm in ("pdf", "cdf", "sf", "ppf", "logpdf", "logcdf"):
                    def f(x, loc=0, scale=1):
                        if not (has_sym(x) or has_sym(loc) or has_sym(scale)):
                            return getattr(self._o, nm)(_defl(x), loc, scale)
                        return getattr(_Norm(loc, scale), nm)(x)
                    return f
                return getattr(self._o, nm)
        PX.set(ss, "norm", _NormMeta(ss.norm))
        PX.set(ss, "chi2", _Chi2Meta(ss.chi2))
        # module globals: numba functions -> python; directly imported scipy functions -> wrappers
        keep = set(keep_jit)
        for m in _repo_modules():
            d = m.__dict__
            if _calls_float(m) and "float" not in d:
                P.setitem(d, "float", SymFloat)
            for k, v in list(d.items()):
                if k in keep:
                    continue
                if id(v) in amap:
                    P.setitem(d, k, amap[id(v)])
                    continue
                if isinstance(v, types.ModuleType):
                    px = PX.get(v)
                    if px is not None:
                        P.setitem(d, k, px)
                    continue
                fx = PX.funcs.get(id(v))
                if fx is not None:
                    P.setitem(d, k, fx)
                    continue
                if callable(v):
                    py = _numba_cache.get(id(v), 0)
                    if py == 0:
                        py = unjit(v)
                        _numba_cache[id(v)] = (py, v)
                    else:
                        py = py[0]
                    if py is not None:
                        P.setitem(d, k, py)
            # classes with numba static methods
            for k, v in list(d.items()):
                if isinstance(v, type) and v.__module__ == m.__name__:
                    for ck, cv in list(v.__dict__.items()):
                        f = cv.__func__ if isinstance(cv, (staticmethod, classmethod)) else cv
                        py = unjit(f) if callable(f) else None
                        if py is not None:
                            P.saved.append((v, ck, cv))
                            setattr(v, ck, staticmethod(py) if isinstance(cv, staticmethod) else py)
        for obj, nm, val in extra:
            if isinstance(obj, dict):
                P.setitem(obj, nm, val)
            elif isinstance(obj, types.ModuleType) and PX.get(obj) is not None:
                PX.set(obj, nm, val)
            else:
                P.set(obj, nm, val)
        yield STATE
    finally:
        P.undo()
        _active[0] = 0
        STATE = old_state


def _defl(x):
    """object array without symbols -> float array"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.astype(float) if type(x) is np.ndarray else np.ndarray.astype(x.view(np.ndarray), float)
    return x


def _einsum(spec, *ops):
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        allx = ins.replace(",", "")
        out = "".join(sorted(c for c in set(allx) if allx.count(c) == 1))
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape):
            dims[c] = d
    free = list(out)
    bound = [c for c in dims if c not in out]
    if len(ops) == 1 and not bound:
        # a view, as numpy returns: writing to it writes to the operand
        st = [sum(t for c, t in zip(ins[0], ops[0].strides) if c == f) for f in free]
        return np.lib.stride_tricks.as_strided(np.asarray(ops[0], dtype=object), [dims[f] for f in free], st).view(SArr)
    res = np.empty(tuple(dims[c] for c in free), dtype=object)
    for i in np.ndindex(res.shape):
        ix = dict(zip(free, i))
        s = 0
        for j in np.ndindex(*[dims[c] for c in bound]) if bound else [()]:
            ix.update(zip(bound, j))
            p = 1
            for sp_, o in zip(ins, ops):
                e = o[tuple(ix[c] for c in sp_)]
                if not isinstance(e, S) and e == 0:
                    p = 0
                    break
                p = p * e
            if isinstance(p, S) or p != 0:
                s = s + p
        res[i] = s
    return res[()] if res.ndim == 0 else res.view(SArr)


class _F:
    """elementwise special functions for specifications (accept terms, arrays of terms or floats)"""

    def __getattr__(self, nm):
        tn = {"psi": "digamma", "loggamma": "gammaln"}.get(nm, nm)
        nargs = 2 if nm in ("beta", "betaln", "binom", "polygamma", "xlogy") else 1
        orig = getattr(scipy.special, nm) if hasattr(scipy.special, nm) else getattr(np, nm)
        f = _elementwise(tn, None, orig, nargs)
        setattr(self, nm, f)
        return f

    bvn = staticmethod(_elementwise("bvn", None, np.vectorize(lambda a, b, r: T._bvn([float(a), float(b), float(r)], None), otypes=[float]), 3))
    @staticmethod
    def bvng(h, k, r, i=0, j=0, l=0):
        """partial derivative (orders i, j, l) of the bivariate normal probability as a kernel the proof leaves uninterpreted"""
        bs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in (h, k, r)])
        out = np.empty(bs[0].shape, dtype=object)
        for ix in np.ndindex(bs[0].shape):
            es = [S.lift(b[ix]) for b in bs]
            vs = [e.n if e.n.op == "c" else T.var("_gv%d" % m) for m, e in enumerate(es)]
            out[ix] = S(T.bvng(*[e.n for e in es], i, j, l), T.evalf(T.bvng(*vs, i, j, l), {"_gv%d" % m: float(e.v) for m, e in enumerate(es)}))
        return out[()] if out.ndim == 0 else out.view(SArr)

    chi2_sf = staticmethod(_elementwise("chi2_sf", None, _chi2_sf, 2))

    @staticmethod
    def inv(A):
        return inv(A)

    @staticmethod
    def det(A):
        return det(A)

    @staticmethod
    def chol(A):
        return chol(A)

    @property
    def pi(self):
        return S(T.PI, math.pi)


F = _F()
