"""Integer symbolic execution: real Python index functions run on symbolic integers; obligations go to z3.
Arrays built by np.arange(N) are represented by one generic element t with 0 <= t < N (the functions act elementwise)."""
import builtins
import itertools
import time
import types
import numpy as np
from .sym import Unsupported, unjit

_z3 = None


def z3m():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


class Path:
    """assumptions and branch decisions of the current execution"""
    cur = None

    def __init__(self, assume, decisions):
        self.assume = list(assume)
        self.lemmas = []
        self.hints = []
        self.divs = {}
        self.decisions = list(decisions)
        self.taken = []
        self.n = 0

    def solver(self, timeout=2000):
        z3 = z3m()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.assume)
        s.add(*self.lemmas)
        s.add(*[c for c in self.taken])
        return s

    def implied(self, c):
        z3 = z3m()
        s = self.solver()
        s.add(z3.Not(c))
        return s.check() == z3.unsat

    def decide(self, c):
        z3 = z3m()
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.n < len(self.decisions):
            d = self.decisions[self.n]
        elif self.implied(c):
            self.taken.append(c)
            return True
        elif self.implied(z3.Not(c)):
            self.taken.append(z3.Not(c))
            return False
        else:
            d = True
            self.decisions.append(True)
            self.pending.append(self.decisions[:self.n] + [False])
        self.n += 1
        self.taken.append(c if d else z3.Not(c))
        return d


class ZB:
    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return Path.cur.decide(self.c)

    def __and__(self, o):
        return ZB(z3m().And(self.c, _b(o)))
    __rand__ = __and__

    def __or__(self, o):
        return ZB(z3m().Or(self.c, _b(o)))
    __ror__ = __or__

    def __invert__(self):
        return ZB(z3m().Not(self.c))


def _b(o):
    return o.c if isinstance(o, ZB) else z3m().BoolVal(bool(o))


def e(x):
    z3 = z3m()
    if isinstance(x, ZI):
        return x.e
    if isinstance(x, ZQ):
        raise Unsupported("rational used as an integer")
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return e(x[()])
    raise Unsupported("integer expected, got %s" % type(x).__name__)


def _zero(ex):
    z3 = z3m()
    t = z3.simplify(ex, som=True)
    return z3.is_int_value(t) and t.as_long() == 0


def _fresh(tag):
    return z3m().FreshInt(tag)


class ZI:
    """symbolic integer"""
    __array_ufunc__ = None

    def __init__(self, ex, fac=None):
        self.e = ex
        self.fac = fac

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def _op(self, o, f):
        if isinstance(o, ZQ):
            return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return ZI(f(self.e, e(o)))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        r = self._op(o, lambda a, b: a * b)
        if isinstance(r, ZI):
            r.fac = (self.e, e(o))
        return r
    __rmul__ = __mul__

    def __neg__(self): return ZI(-self.e)
    def __pos__(self): return self

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)) and 0 <= k < 6:
            r = ZI(z3m().IntVal(1))
            for _ in range(int(k)):
                r = r * self
            return r
        raise Unsupported("power")

    def _pos(self, d):
        z3 = z3m()
        d = z3.simplify(d)
        if z3.is_int_value(d) and d.as_long() > 0:
            return
        if Path.cur.implied(d > 0):
            return
        raise Unsupported("division by a possibly non-positive integer")

    def _half(self, q, d):
        """product of two integers with odd difference is even"""
        z3 = z3m()
        if self.fac is None:
            return
        d = z3.simplify(d)
        if not (z3.is_int_value(d) and d.as_long() == 2):
            return
        t = z3.simplify(self.fac[0] - self.fac[1], som=True)
        if z3.is_int_value(t) and t.as_long() % 2:
            Path.cur.lemmas.append(2 * q == self.e)

    def __floordiv__(self, o):
        d = e(o)
        self._pos(d)
        z3 = z3m()
        for hd, hq, hr in Path.cur.hints:
            # Euclidean division is unique: a == d*hq + hr (ring identity) with 0 <= hr < d
            hd, hq, hr = e(hd), e(hq), e(hr)
            if _zero(hd - d) and _zero(self.e - hd * hq - hr) and Path.cur.implied(z3.And(hr >= 0, hr < hd)):
                return ZI(hq)
        key = (z3.simplify(self.e, som=True).sexpr(), z3.simplify(d, som=True).sexpr())
        if key in Path.cur.divs:
            return ZI(Path.cur.divs[key])
        q, r = _fresh("q"), _fresh("r")
        Path.cur.divs[key] = q
        Path.cur.lemmas += [self.e == d * q + r, 0 <= r, r < d]
        self._half(q, d)
        return ZI(q)

    def __rfloordiv__(self, o): return ZI(e(o)).__floordiv__(self)

    def __mod__(self, o):
        q = self // o
        return ZI(self.e - e(o) * q.e)

    def __rmod__(self, o): return ZI(e(o)) % self

    def __divmod__(self, o):
        q = self // o
        return q, ZI(self.e - e(o) * q.e)

    def __rdivmod__(self, o): return divmod(ZI(e(o)), self)
    def __truediv__(self, o): return ZQ(self, o if isinstance(o, ZI) else ZI(e(o)))
    def __rtruediv__(self, o): return ZQ(ZI(e(o)), self)
    def __lt__(self, o): return ZB(self.e < e(o))
    def __le__(self, o): return ZB(self.e <= e(o))
    def __gt__(self, o): return ZB(self.e > e(o))
    def __ge__(self, o): return ZB(self.e >= e(o))
    def __eq__(self, o): return ZB(self.e == e(o))
    def __ne__(self, o): return ZB(self.e != e(o))
    __hash__ = None

    def __bool__(self): return bool(self != 0)
    def __abs__(self): return self if self >= 0 else -self
    def astype(self, t, *a, **k): return self
    def item(self): return self
    def copy(self): return self
    def __int__(self): raise Unsupported("int() of a symbolic integer")
    def __index__(self): raise Unsupported("symbolic integer used as an index")


class ZQ:
    """exact ratio of symbolic integers, or a symbolic real (num is a z3 real, den None)"""
    __array_ufunc__ = None

    def __init__(self, num, den=None):
        self.num, self.den = num, den

    @property
    def real(self):
        z3 = z3m()
        return self.num if self.den is None else z3.ToReal(self.num.e) / z3.ToReal(self.den.e)

    def _o(self, o):
        z3 = z3m()
        if isinstance(o, ZQ):
            return o.real
        if isinstance(o, (float, np.floating)):
            from fractions import Fraction
            f = Fraction(float(o))
            return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
        return z3.ToReal(e(o))

    def __add__(self, o): return ZQ(self.real + self._o(o))
    __radd__ = __add__
    def __sub__(self, o): return ZQ(self.real - self._o(o))
    def __rsub__(self, o): return ZQ(self._o(o) - self.real)
    def __mul__(self, o): return ZQ(self.real * self._o(o))
    __rmul__ = __mul__
    def __neg__(self): return ZQ(-self.real)
    def __truediv__(self, o): return ZQ(self.real / self._o(o))
    def __rtruediv__(self, o): return ZQ(self._o(o) / self.real)

    def __floordiv__(self, o):
        return floor(self / o)

    def __lt__(self, o): return ZB(self.real < self._o(o))
    def __le__(self, o): return ZB(self.real <= self._o(o))
    def __gt__(self, o): return ZB(self.real > self._o(o))
    def __ge__(self, o): return ZB(self.real >= self._o(o))

    def astype(self, t, *a, **k):
        return toint(self) if t in (int, np.int64, np.int32, np.intp, toint) or t == "int" else self


def floor(x):
    if isinstance(x, ZI):
        return x
    if isinstance(x, ZQ):
        if x.den is not None:
            return x.num // x.den
        z3 = z3m()
        k = _fresh("fl")
        Path.cur.lemmas += [z3.ToReal(k) <= x.real, x.real < z3.ToReal(k) + 1]
        return ZI(k)
    return np.floor(x)


def _trunc(x):
    if isinstance(x, ZI):
        return x
    f = floor(x)
    if not (x >= 0):
        raise Unsupported("truncation of a negative number")
    return f


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, ZI))


class toint(builtins.int, metaclass=_IntMeta):
    """replacement for the builtin int: truncation"""
    def __new__(cls, x=0, *a):
        return _trunc(x) if isinstance(x, (ZI, ZQ)) else builtins.int(x, *a)


def sqrt(x):
    z3 = z3m()
    if isinstance(x, (ZI, ZQ)):
        v = z3.ToReal(x.e) if isinstance(x, ZI) else x.real
        s = z3.FreshReal("sqrt")
        Path.cur.lemmas += [s >= 0, s * s == v]
        return ZQ(s)
    return np.sqrt(x)


class _NP(types.ModuleType):
    def __init__(self):
        super().__init__("np")

    def __getattr__(self, nm):
        return getattr(np, nm)


def _any(x):
    if isinstance(x, (ZI, ZQ)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_any(t) for t in x)
    return isinstance(x, np.ndarray) and x.dtype == object


def mknp(generic):
    m = _NP()

    def arange(*a, dtype=None, **k):
        if len(a) == 1 and isinstance(a[0], ZI):
            return generic(a[0])
        return np.arange(*a, **({} if dtype is None else {"dtype": dtype}), **k)

    def asarray(x, dtype=None, **k):
        if isinstance(x, (ZI, ZQ)):
            return x
        if _any(x):
            return np.array(x, dtype=object)
        return np.asarray(x, dtype=dtype, **k)
    m.arange = arange
    m.asarray = m.array = asarray
    m.floor = floor
    m.floor_divide = lambda a, b: a // b if isinstance(a, ZI) or isinstance(b, ZI) else np.floor_divide(a, b)
    m.mod = m.remainder = lambda a, b: a % b if isinstance(a, ZI) or isinstance(b, ZI) else np.mod(a, b)
    m.divmod = lambda a, b: divmod(a, b) if isinstance(a, ZI) or isinstance(b, ZI) else np.divmod(a, b)
    m.sqrt = sqrt
    m.isscalar = lambda x: True if isinstance(x, (ZI, ZQ)) else np.isscalar(x)
    m.int64 = lambda x=0: toint(x)
    m.repeat = lambda v, n, **k: v if isinstance(n, ZI) else np.repeat(v, n, **k)
    m.zeros_like = lambda a, dtype=None, **k: np.zeros_like(a, dtype=object if _any(a) else dtype)
    return m


class IntChecker:
    """obligations over symbolic integers for one Check"""

    def __init__(self, ck, contract, mods, functions=(), callees=None):
        self.ck, self.name, self.mods = ck, contract, mods
        self.callees = callees or {}
        self.skip = not ck.claim(contract)
        if self.skip:
            return
        ck.functions += [f for f in functions if f not in ck.functions]

    def prove(self, label, names, pre, body, replay, maxpaths=64, timeout=8000, brute=None):
        """forall integers names satisfying pre(vars): body(vars) -> list of z3 goals (built by running the real code).
        replay(values) -> (got, want) on the real code, for counterexamples and for bounded confirmation."""
        if self.skip:
            return
        z3 = z3m()
        ck = self.ck
        vs = {n: ZI(z3.Int(n)) for n in names}
        base = [_b(c) for c in pre(**vs)]
        todo = [[]]
        npaths = 0
        status = "discharged"
        t0 = time.time()
        nq = 0
        cex = None
        err = None
        while todo and npaths < maxpaths:
            dec = todo.pop()
            P = Path(base, dec)
            P.pending = todo
            gen = []

            def generic(N):
                t = _fresh("t")
                P.assume += [t >= 0, t < N.e]
                gen.append(t)
                return ZI(t)
            Path.cur = P
            saved = []
            try:
                npm = mknp(generic)
                for m in self.mods:
                    d = m.__dict__
                    for k, v in list(d.items()):
                        if v is np:
                            saved.append((d, k, v))
                            d[k] = npm
                        elif callable(v) and unjit(v) is not None:
                            saved.append((d, k, v))
                            d[k] = unjit(v)
                    for k, f in self.callees.items():
                        if k in d and k != self.current(label):
                            saved.append((d, k, d[k]))
                            d[k] = f
                    saved.append((d, "int", d.get("int", None)))
                    d["int"] = toint
                goals = body(**vs)
            except Unsupported as ex:
                err = "Unsupported: %s" % ex
                break
            except Exception as ex:
                err = "%s: %s" % (type(ex).__name__, ex)
                break
            finally:
                for d, k, v in reversed(saved):
                    if v is None:
                        d.pop(k, None)
                    else:
                        d[k] = v
            npaths += 1
            s0 = P.solver(timeout)
            if s0.check() == z3.unsat:
                continue
            for g in goals:
                nq += 1
                s = P.solver(timeout)
                s.add(z3.Not(_b(g)))
                r = s.check()
                if r == z3.sat:
                    md = s.model()
                    cex = {n: md.eval(vs[n].e, model_completion=True).as_long() for n in names}
                    status = "failed"
                    break
                if r == z3.unknown:
                    status = "undischarged"
            if cex:
                break
        if err:
            ck.unsupported.append("%s :: %s: %s" % (self.name, label, err))
        else:
            ck.obligation(self.name, label, "%s" % label, "discharged" if status == "discharged" else "undischarged", "z3 integers" if status == "discharged" else "z3: " + status, time.time() - t0)
        # run-time confirmation on concrete values, and replay of a counterexample
        todo = [cex] if cex else []
        todo += list(brute or [])
        cnt = 0
        for v in todo:
            try:
                got, want = replay(**v)
            except Exception as ex:
                import traceback
                ck.violation(self.name, label + ": raises %s" % type(ex).__name__, dict(kind="exception", inputs=v, error=traceback.format_exc(limit=6)))
                return
            cnt += 1
            if list(map(int, np.ravel(got))) != list(map(int, np.ravel(want))):
                ck.violation(self.name, label, dict(kind="counterexample", inputs=v, got=got, want=want))
                return
        ck.runtime_evals += cnt
        if cex and os_environ_verbose():
            print("# z3 model not reproduced:", self.name, label, cex)

    def current(self, label):
        return None


def os_environ_verbose():
    import os
    return os.environ.get("VF_VERBOSE")
