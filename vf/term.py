"""Hash-consed real-valued terms: construction, exact symbolic derivative, numeric evaluation.

A term denotes a real-analytic function of its variables.  The constructors only do
constant folding and 0/1 laws, so a term built by running the code under verification
is that code's own computation.
"""
from fractions import Fraction
import math

_table = {}
_ids = [0]


class Node:
    __slots__ = ("op", "args", "id", "_d", "_vars", "__weakref__")

    def __repr__(self):
        return to_str(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, *args):
    key = (op,) + tuple(("n", a.id) if isinstance(a, Node) else ("v", a, type(a).__name__) for a in args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        _ids[0] += 1
        n.id = _ids[0]
        n._d = None
        n._vars = None
        _table[key] = n
    return n


def reset():
    _table.clear()


def const(c):
    return mk("c", Fraction(c))


def var(name):
    return mk("x", name)


ZERO = const(0)
ONE = const(1)
TWO = const(2)
HALF = const(Fraction(1, 2))
PI = mk("k", "pi")
EULER = mk("k", "euler")
# keep the shared constants alive across reset()
_keep = [ZERO, ONE, TWO, HALF, PI, EULER]


def reset_terms():
    _table.clear()
    for n in _keep:
        _table[(n.op,) + tuple(("v", a, type(a).__name__) for a in n.args)] = n


def is_const(n):
    return n.op == "c"


def add(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == "c" and b.args[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("+", a, b)


def mul(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] * b.args[0])
        if a.args[0] == 0:
            return ZERO
        if a.args[0] == 1:
            return b
    elif b.op == "c":
        if b.args[0] == 0:
            return ZERO
        if b.args[0] == 1:
            return a
    if a.id > b.id:
        a, b = b, a
    return mk("*", a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def power(a, b):
    """a ** b for terms."""
    if b.op == "c":
        c = b.args[0]
        if c == 0:
            return ONE
        if c == 1:
            return a
        if a.op == "c" and c.denominator == 1 and (a.args[0] != 0 or c > 0):
            return const(a.args[0] ** int(c))
        if a.op == "^" and a.args[1].denominator == 1 and c.denominator == 1:
            return mk("^", a.args[0], a.args[1] * c)
        return mk("^", a, c)
    return fn("exp", mul(b, fn("log", a)))


def div(a, b):
    if b.op == "c":
        if b.args[0] == 0:
            raise ZeroDivisionError("symbolic division by constant zero")
        return mul(a, const(1 / b.args[0]))
    return mul(a, mk("^", b, Fraction(-1))) if b.op != "^" else mul(a, power(b, const(-1)))


def fn(name, *args):
    a = args[0]
    if name == "exp" and a is ZERO:
        return ONE
    if name == "log" and a is ONE:
        return ZERO
    if name == "sqrt":
        return power(a, HALF)
    if a.op == "c" and a.args[0] == 0 and name in ("sin", "tan", "sinh", "tanh", "arctan", "arcsinh", "arctanh", "arcsin", "erf", "log1p", "expm1"):
        return ZERO
    if a.op == "c" and a.args[0] == 0 and name in ("cos", "cosh"):
        return ONE
    if name == "log1p":
        return fn("log", add(ONE, a))
    if name == "expm1":
        return sub(fn("exp", a), ONE)
    if name == "expit":
        return div(ONE, add(ONE, fn("exp", neg(a))))
    if name == "logit":
        return sub(fn("log", a), fn("log", sub(ONE, a)))
    if name == "sinh":
        return mul(HALF, sub(fn("exp", a), fn("exp", neg(a))))
    if name == "cosh":
        return mul(HALF, add(fn("exp", a), fn("exp", neg(a))))
    if name == "tanh":
        return sub(ONE, div(TWO, add(fn("exp", mul(TWO, a)), ONE)))
    if name == "arctanh":
        return mul(HALF, sub(fn("log", add(ONE, a)), fn("log", sub(ONE, a))))
    if name == "arcsinh":
        return fn("log", add(a, fn("sqrt", add(mul(a, a), ONE))))
    if name == "arccosh":
        return fn("log", add(a, fn("sqrt", sub(mul(a, a), ONE))))
    if name == "ndtr":
        return mk("f", "ndtr", a)
    if name.startswith("bvng"):
        i, l = (int(t) for t in name[4:].split("_"))
        return bvng(*args, i, 0, l)
    if name == "erf":
        return sub(mul(TWO, fn("ndtr", mul(power(TWO, HALF), a))), ONE)
    if name == "erfc":
        return sub(TWO, mul(TWO, fn("ndtr", mul(power(TWO, HALF), a))))
    if name == "erfinv":
        return div(fn("ndtri", mul(HALF, add(a, ONE))), power(TWO, HALF))
    if name == "erfcinv":
        return div(neg(fn("ndtri", mul(HALF, a))), power(TWO, HALF))
    if name == "log_ndtr":
        return fn("log", fn("ndtr", a))
    if name == "digamma":
        return fn("polygamma", ZERO, a)
    if name == "npdf":
        return mul(power(mul(TWO, PI), const(Fraction(-1, 2))), fn("exp", mul(const(Fraction(-1, 2)), mul(a, a))))
    if name == "polygamma":
        n, x = args
        if n.op != "c":
            raise NotImplementedError("polygamma of symbolic order")
        return mk("f", "polygamma%d" % int(n.args[0]), x)
    if name == "beta":
        return fn("exp", fn("betaln", *args))
    if name == "betaln":
        x, y = args
        return sub(add(fn("gammaln", x), fn("gammaln", y)), fn("gammaln", add(x, y)))
    if name == "gamma":
        return fn("exp", fn("gammaln", a))
    if name == "binom":
        nn, k = args
        return fn("exp", sub(fn("gammaln", add(nn, ONE)), add(fn("gammaln", add(k, ONE)), fn("gammaln", add(sub(nn, k), ONE)))))
    if name == "xlogy":
        return mul(args[0], fn("log", args[1]))
    if name == "xlog1py":
        return mul(args[0], fn("log", add(ONE, args[1])))
    return mk("f", name, *args)


# partial derivatives of the primitive functions
def _dfn(n):
    name, a = n.args[0], n.args[1]
    if name == "exp":
        return (n,)
    if name == "log":
        return (div(ONE, a),)
    if name == "sin":
        return (fn("cos", a),)
    if name == "cos":
        return (neg(fn("sin", a)),)
    if name == "tan":
        return (add(ONE, mul(n, n)),)
    if name == "arctan":
        return (div(ONE, add(ONE, mul(a, a))),)
    if name == "arcsin":
        return (power(sub(ONE, mul(a, a)), const(Fraction(-1, 2))),)
    if name == "arccos":
        return (neg(power(sub(ONE, mul(a, a)), const(Fraction(-1, 2)))),)
    if name == "ndtr":
        return (fn("npdf", a),)
    if name == "ndtri":
        return (div(ONE, fn("npdf", n)),)
    if name == "gammaln":
        return (fn("polygamma", ZERO, a),)
    if name.startswith("polygamma"):
        k = int(name[9:])
        return (fn("polygamma", const(k + 1), a),)
    if name.startswith("bvng"):
        i, j = (int(t) for t in name[4:].split("_"))
        return tuple(bvng(*n.args[1:], i + di, dj, j + dr) for di, dj, dr in ((1, 0, 0), (0, 1, 0), (0, 0, 1)))
    if name == "bvn":     # bivariate normal cdf(a,b;r)
        a, b, r = n.args[1:]
        q = power(sub(ONE, mul(r, r)), const(Fraction(-1, 2)))
        da = mul(fn("npdf", a), fn("ndtr", mul(sub(b, mul(r, a)), q)))
        db = mul(fn("npdf", b), fn("ndtr", mul(sub(a, mul(r, b)), q)))
        one_r2 = sub(ONE, mul(r, r))
        ex = fn("exp", neg(div(sub(add(mul(a, a), mul(b, b)), mul(TWO, mul(r, mul(a, b)))), mul(TWO, one_r2))))
        dr = mul(mul(ex, q), div(ONE, mul(TWO, PI)))
        return (da, db, dr)
    raise NotImplementedError("derivative of " + name)


def bvng(h, k, r, i=0, j=0, l=0):
    """partial derivative of orders (i, j, l) of the bivariate normal probability, kept as an uninterpreted kernel up to its
    symmetry and d2/dh dk = d/dr; constants beyond +-30 stand for infinite limits"""
    for a, b, (ia, ib) in ((h, k, (i, j)), (k, h, (j, i))):
        if a.op == "c" and abs(a.args[0]) >= 30:
            if ia or l or a.args[0] < 0:
                return ZERO
            if b.op == "c" and abs(b.args[0]) >= 30:
                return ZERO if ib or b.args[0] < 0 else ONE
            out = fn("ndtr", b)
            if ib:
                x = var("_bvng_x")
                d = fn("ndtr", x)
                for _ in range(ib):
                    d = diff(d, x)
                out = subst(d, {x.id: b})
            return out
    m = min(i, j)
    i, j, l = i - m, j - m, l + m
    if j or (not i and k.id < h.id):
        h, k, i, j = k, h, j, i
    return mk("f", "bvng%d_%d" % (i, l), h, k, r)


_bvng_f = {}


def _bvng_val(name, av, mp):
    """closed form from derivatives of the bvn kernel"""
    if name not in _bvng_f:
        i, l = (int(t) for t in name[4:].split("_"))
        h, k, r = var("_bg_h"), var("_bg_k"), var("_bg_r")
        d = mk("f", "bvn", h, k, r)
        for x, t in ((h, i), (r, l)):
            for _ in range(t):
                d = diff(d, x)
        _bvng_f[name] = d
    return evalf(_bvng_f[name], dict(_bg_h=av[0], _bg_k=av[1], _bg_r=av[2]), mp)


_dcache = {}


def diff(n, x):
    """exact partial derivative of term n with respect to variable node x"""
    key = (n.id, x.id)
    r = _dcache.get(key)
    if r is not None:
        return r
    # iterative to survive deep terms
    stack = [n]
    while stack:
        m = stack[-1]
        k = (m.id, x.id)
        if k in _dcache:
            stack.pop()
            continue
        if m.op in "ck":
            _dcache[k] = ZERO
            stack.pop()
            continue
        if m.op == "x":
            _dcache[k] = ONE if m is x else ZERO
            stack.pop()
            continue
        kids = [a for a in m.args if isinstance(a, Node)]
        todo = [a for a in kids if (a.id, x.id) not in _dcache]
        if todo:
            stack.extend(todo)
            continue
        D = lambda a: _dcache[(a.id, x.id)]
        if m.op == "+":
            r = add(D(m.args[0]), D(m.args[1]))
        elif m.op == "*":
            a, b = m.args
            r = add(mul(D(a), b), mul(a, D(b)))
        elif m.op == "^":
            a, c = m.args
            da = D(a)
            r = ZERO if da is ZERO else mul(mul(const(c), power(a, const(c - 1))), da)
        else:
            if all(D(a) is ZERO for a in kids):
                r = ZERO
            else:
                r = ZERO
                for a, pd in zip(m.args[1:], _dfn(m)):
                    r = add(r, mul(pd, D(a)))
        _dcache[k] = r
        stack.pop()
    return _dcache[key]


def topo(n):
    seen, out, stack = set(), [], [(n, False)]
    while stack:
        m, done = stack.pop()
        if done:
            out.append(m)
            continue
        if m.id in seen:
            continue
        seen.add(m.id)
        stack.append((m, True))
        for a in m.args:
            if isinstance(a, Node) and a.id not in seen:
                stack.append((a, False))
    return out


def variables(n):
    return sorted({m.args[0] for m in topo(n) if m.op == "x"})


def evalf(n, env, mp=None, cache=None):
    """numeric value of n; env: name -> number.  mp: an mpmath context for high precision."""
    cache = {} if cache is None else cache
    if mp is None:
        import scipy.special as sc
        F = {"exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "arctan": math.atan,
             "arcsin": math.asin, "arccos": math.acos, "ndtr": _real("ndtr"), "ndtri": _real("ndtri"), "gammaln": math.lgamma}
        cst = lambda c: c.numerator / c.denominator
        pi, eul = math.pi, 0.57721566490153286
    else:
        F = {"exp": mp.exp, "log": mp.log, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "arctan": mp.atan,
             "arcsin": mp.asin, "arccos": mp.acos, "ndtr": mp.ncdf, "gammaln": mp.loggamma,
             "ndtri": lambda p: mp.sqrt(2) * mp.erfinv(2 * p - 1)}
        cst = lambda c: mp.mpf(c.numerator) / c.denominator
        pi, eul = mp.pi, mp.euler
    for m in topo(n):
        if m.id in cache:
            continue
        op = m.op
        if op == "c":
            v = cst(m.args[0])
        elif op == "k":
            v = pi if m.args[0] == "pi" else eul
        elif op == "x":
            v = env[m.args[0]]
        elif op == "+":
            v = cache[m.args[0].id] + cache[m.args[1].id]
        elif op == "*":
            v = cache[m.args[0].id] * cache[m.args[1].id]
        elif op == "^":
            c = m.args[1]
            b = cache[m.args[0].id]
            if c.denominator == 1:
                v = b ** int(c)
            else:
                v = b ** cst(c)
        else:
            name = m.args[0]
            av = [cache[a.id] for a in m.args[1:]]
            if name.startswith("polygamma"):
                if mp is None:
                    v = float(_real("polygamma")(int(name[9:]), av[0]))
                else:
                    v = mp.psi(int(name[9:]), av[0])
            elif name == "bvn":
                v = _bvn(av, mp)
            elif name.startswith("bvng"):
                v = _bvng_val(name, av, mp)
            elif name in OPAQUE:
                v = OPAQUE[name](*av, mp)
            else:
                v = F[name](*av)
        cache[m.id] = v
    return cache[n.id]


def _real(name):
    import scipy.special as sc
    f = getattr(sc, name)
    return getattr(f, "_vf_orig", f)


def _chi2_sf(x, df, mp):
    if mp is None:
        return float(_real("chdtrc")(float(df), float(x)))
    return mp.gammainc(mp.mpf(df) / 2, mp.mpf(x) / 2, regularized=True)


# functions the back end treats as uninterpreted (equal arguments give equal values)
OPAQUE = {"chi2_sf": _chi2_sf}


_GL = []


def _bvn(av, mp):
    """bivariate normal probability by Plackett's identity over the angle: Phi(a)Phi(b) + int_0^asin(r) exp(-(a^2-2ab sin t+b^2)/(2cos^2 t)) dt / 2pi"""
    a, b, r = av
    if mp is None:
        import numpy as np
        if not _GL:
            _GL.extend(np.polynomial.legendre.leggauss(128))
        t = 0.5 * math.asin(r) * (1.0 + _GL[0])
        s, c = np.sin(t), np.cos(t)
        q = ((a - b) ** 2 + 2 * a * b * (1 - s)) / (2 * c * c)
        nd = _real("ndtr")
        return float(nd(a) * nd(b) + 0.5 * math.asin(r) * np.dot(_GL[1], np.exp(-q)) / (2 * math.pi))
    f = lambda t: mp.exp(-((a - b) ** 2 + 2 * a * b * (1 - mp.sin(t))) / (2 * mp.cos(t) ** 2))
    return mp.ncdf(a) * mp.ncdf(b) + mp.quad(f, [0, mp.asin(r)]) / (2 * mp.pi)


def to_str(n, depth=6):
    if depth == 0:
        return "..."
    if n.op == "c":
        return str(n.args[0])
    if n.op in "kx":
        return str(n.args[0])
    if n.op in "+*":
        return "(%s %s %s)" % (to_str(n.args[0], depth - 1), n.op, to_str(n.args[1], depth - 1))
    if n.op == "^":
        return "%s^(%s)" % (to_str(n.args[0], depth - 1), n.args[1])
    return "%s(%s)" % (n.args[0], ", ".join(to_str(a, depth - 1) for a in n.args[1:]))


def subst(n, sub, cache=None):
    """term n with variable nodes replaced (sub: node id -> node)"""
    cache = {} if cache is None else cache
    for m in topo(n):
        if m.id in cache:
            continue
        if m.id in sub:
            cache[m.id] = sub[m.id]
        elif m.op in "ckx":
            cache[m.id] = m
        elif m.op == "+":
            cache[m.id] = add(cache[m.args[0].id], cache[m.args[1].id])
        elif m.op == "*":
            cache[m.id] = mul(cache[m.args[0].id], cache[m.args[1].id])
        elif m.op == "^":
            cache[m.id] = power(cache[m.args[0].id], const(m.args[1]))
        else:
            cache[m.id] = fn(m.args[0], *[cache[a.id] for a in m.args[1:]]) if not isinstance(m.args[0], Node) else mk(m.op, *[cache[a.id] if isinstance(a, Node) else a for a in m.args])
    return cache[n.id]
