"""C20 spline bases and penalties"""
import importlib
import numpy as np
import scipy as sp
import scipy.linalg
import scipy.interpolate
from vf.core import D, jac, hess, substitute
from vf.sym import F, S, SArr, symvar

U = "pystatsm/utilities/splines.py::"
SS = "pystatsm/pygam/smooth_setup.py::"


def vec(v):
    return np.array(list(v), dtype=object).view(SArr)


def cox(t, i, k, j, x):
    """i-th B-spline of degree k at x in the knot interval [t_j, t_j+1), by the recursion of de Boor and Cox"""
    if k == 0:
        return 1.0 if i == j else 0.0
    out = 0.0
    if i <= j <= i + k - 1:
        out = out + (x - t[i]) / (t[i + k] - t[i]) * cox(t, i, k - 1, j, x)
    if i + 1 <= j <= i + k:
        out = out + (t[i + k + 1] - x) / (t[i + k + 1] - t[i + 1]) * cox(t, i + 1, k - 1, j, x)
    return out


def interval(t, k, x):
    """interval FITPACK uses: the last of [t_k, t_n-k-1) at the right end, the outer ones beyond"""
    n = len(t)
    j = k
    while j < n - k - 2 and bool(x >= t[j + 1]):
        j += 1
    return j


def dpoly(p, x, der):
    for _ in range(der):
        p = D(p, x) if isinstance(p, S) else 0.0
    return p


def splev(x, tck, der=0, ext=0):
    """dependency contract of scipy.interpolate.splev: derivative of sum_i c_i B_i(x)"""
    t, c, k = tck
    xs = np.asarray(x, dtype=object).reshape(-1)
    out = np.empty(xs.shape, dtype=object)
    for m, xi in enumerate(xs):
        xi = S.lift(xi)
        j = interval(t, k, xi)
        X = symvar("spl_x", float(xi.v))
        p = sum(c[i] * cox(t, i, k, j, X) for i in range(len(t) - k - 1) if c[i] != 0)
        p = dpoly(p, X, der)
        out[m] = substitute(p, [(X, xi)]) if isinstance(p, S) else S.lift(p)
    return out.reshape(np.shape(x)).view(SArr)


def ptsv(d, e, b):
    """dependency contract of LAPACK ptsv: solution with a symmetric positive definite tridiagonal matrix"""
    n = len(d)
    A = np.empty((n, n), dtype=object)
    A[...] = 0.0
    for i in range(n):
        A[i, i] = d[i]
        if i:
            A[i, i - 1] = A[i - 1, i] = e[i - 1]
    return d, e, (F.inv(A.view(SArr)) @ b if n > 1 else b / d[0]), 0


def chol_banded(ab, lower=False):
    """dependency contract of cholesky_banded (lower): factor of a banded symmetric positive definite matrix"""
    assert lower
    w, n = ab.shape
    L = {}
    for i in range(n):
        for j in range(max(0, i - w + 1), i + 1):
            s = ab[i - j, j] - sum(L[i, k] * L[j, k] for k in range(max(0, i - w + 1), j))
            L[i, j] = np.sqrt(s) if i == j else s / L[j, j]
    out = np.empty((w, n), dtype=object)
    out[...] = 0.0
    for (i, j), v in L.items():
        out[i - j, j] = v
    return out.view(SArr)


def run(ck):
    sp_ = importlib.import_module("pystatsm.utilities.splines")
    ss = importlib.import_module("pystatsm.pygam.smooth_setup")

    extra = lambda: ((scipy.interpolate, "splev", splev), (scipy.linalg, "cholesky_banded", chol_banded), (scipy.linalg, "get_lapack_funcs", lambda names, *a, **k: ptsv if names == "ptsv" else (ptsv,)))

    def incr(n, lo=0.1, step=(0.4, 1.2)):
        return lambda rng: np.round(lo + np.cumsum(rng.uniform(*step, n)), 6)

    def at(expr, x, v):
        return substitute(expr, [(x, v)])

    def integral(f, a, b, order=4):
        """exact integral over [a, b] of a polynomial of degree <= 5 in x: three-point formula of closed form (degree 4: Boole)"""
        w = [7, 32, 12, 32, 7]
        return sum(wi * f(a + (b - a) * i / 4) for i, wi in enumerate(w)) * (b - a) / 90

    # ---- natural cubic splines -----------------------------------------------------------------
    for n in (3, 4, 5) + ((6,) if ck.thorough else ()):
        def cr(c, k, u, n=n):
            Sm, Fm = sp_.crspline_penalty(k)
            X = lambda x: sp_.crspline_basis(x, k, Fm)
            pts = [k[i] + (k[i + 1] - k[i]) * u[i] for i in range(n - 1)]
            c.eq("value one at the own knot, zero at the others", lambda: X(k), lambda: np.eye(n))
            c.eq("constants and straight lines are reproduced: sum", lambda: X(vec(pts) if c.sym else np.array(pts)) @ np.ones(n), lambda: np.ones(n - 1))
            c.eq("constants and straight lines are reproduced: line", lambda: X(vec(pts) if c.sym else np.array(pts)) @ k, lambda: pts)
            c.eq("second derivatives at the ends are zero", lambda: Fm[[0, -1]], lambda: np.zeros((2, n)))
            c.eq("penalty annihilates constants", lambda: Sm @ np.ones(n), lambda: np.zeros(n))
            c.eq("penalty annihilates straight lines", lambda: Sm @ k, lambda: np.zeros(n))
            c.eq("penalty is symmetric", lambda: Sm, lambda: Sm.T)
            c.eq("penalty matrix only on request", lambda: sp_.crspline_penalty(k, False)[1], lambda: Fm)
            if c.sym:
                xs = [symvar("x%d" % i, float(pts[i].v)) for i in range(n - 1)]
                R = X(vec(xs))
                D1 = [[D(R[i, j], xs[i]) for j in range(n)] for i in range(n - 1)]
                D2 = [[D(D1[i][j], xs[i]) for j in range(n)] for i in range(n - 1)]
                D3 = [[D(D2[i][j], xs[i]) for j in range(n)] for i in range(n - 1)]
            else:
                D1 = D2 = R = None
            # what the current code yields on each interval, as a polynomial: clauses about its derivatives
            c.poly("continuous across the knots", lambda: [[at(R[i, j], xs[i], k[i + 1]) - at(R[i + 1, j], xs[i + 1], k[i + 1]) for j in range(n)] for i in range(n - 2)], lambda: np.zeros((n - 2, n)))
            c.poly("first derivative is continuous across the knots", lambda: [[at(D1[i][j], xs[i], k[i + 1]) - at(D1[i + 1][j], xs[i + 1], k[i + 1]) for j in range(n)] for i in range(n - 2)], lambda: np.zeros((n - 2, n)))
            c.poly("second derivative at the left end of each interval", lambda: [[at(D2[i][j], xs[i], k[i]) for j in range(n)] for i in range(n - 1)], lambda: Fm[:-1])
            c.poly("second derivative at the right end of each interval", lambda: [[at(D2[i][j], xs[i], k[i + 1]) for j in range(n)] for i in range(n - 1)], lambda: Fm[1:])
            c.poly("cubic between the knots", lambda: [[D(D3[i][j], xs[i]) for j in range(n)] for i in range(n - 1)], lambda: np.zeros((n - 1, n)))
            if n <= 4:
                c.poly("penalty is the integrated product of second derivatives", lambda: Sm, lambda: sum(np.array([[integral(lambda v: at(D2[i][a] * D2[i][b], xs[i], v), k[i], k[i + 1]) for b in range(n)] for a in range(n)], dtype=object).view(SArr) for i in range(n - 1)))
        ck.contract("natural cubic spline, %d knots" % n, dict(k=incr(n), u=((n - 1,), 0.1, 0.9)), cr, n=2, flips=0,
                    functions=[U + f for f in ("_cr_mats", "crspline_penalty", "crspline_basis")], extra=extra)

    # ---- cyclic cubic splines ------------------------------------------------------------------
    for n in (3, 4, 5):
        def cc(c, k, u, n=n):
            m = n - 1
            Sm, Fm = sp_.ccspline_penalty(k)
            X = lambda x: sp_.ccspline_basis(x, k, Fm)
            pts = [k[i] + (k[i + 1] - k[i]) * u[i] for i in range(n - 1)]
            ends = np.concatenate([np.eye(m), np.eye(m)[:1]])
            c.eq("value one at the own knot, zero at the others, both ends the same knot", lambda: X(k), lambda: ends)
            c.eq("constants are reproduced", lambda: X(vec(pts) if c.sym else np.array(pts)) @ np.ones(m), lambda: np.ones(n - 1))
            c.eq("penalty annihilates constants", lambda: Sm @ np.ones(m), lambda: np.zeros(m))
            c.eq("penalty is symmetric", lambda: Sm, lambda: Sm.T)
            c.eq("penalty matrix only on request", lambda: sp_.ccspline_penalty(k, False)[1], lambda: Fm)
            if c.sym:
                xs = [symvar("x%d" % i, float(pts[i].v)) for i in range(n - 1)]
                R = X(vec(xs))
                D1 = [[D(R[i, j], xs[i]) for j in range(m)] for i in range(n - 1)]
                D2 = [[D(D1[i][j], xs[i]) for j in range(m)] for i in range(n - 1)]
                D3 = [[D(D2[i][j], xs[i]) for j in range(m)] for i in range(n - 1)]
                nx = [(i, (i + 1) % (n - 1), k[i + 1], k[i + 1] if i < n - 2 else k[0]) for i in range(n - 1)]
            else:
                R = D1 = D2 = nx = None
            for nm, Q in (("value", R), ("first derivative", D1), ("second derivative", D2)):
                c.poly(nm + " is continuous across the knots and round the cycle", lambda Q=Q: [[at(Q[i][j], xs[i], a) - at(Q[l][j], xs[l], b) for j in range(m)] for i, l, a, b in nx], lambda: np.zeros((n - 1, m)))
            c.poly("second derivative at the left end of each interval", lambda: [[at(D2[i][j], xs[i], k[i]) for j in range(m)] for i in range(n - 1)], lambda: Fm)
            c.poly("cubic between the knots", lambda: [[D(D3[i][j], xs[i]) for j in range(m)] for i in range(n - 1)], lambda: np.zeros((n - 1, m)))
            if n <= 4:
                c.poly("penalty is the integrated product of second derivatives", lambda: Sm, lambda: sum(np.array([[integral(lambda v: at(D2[i][a] * D2[i][b], xs[i], v), k[i], k[i + 1]) for b in range(m)] for a in range(m)], dtype=object).view(SArr) for i in range(n - 1)))
        ck.contract("cyclic cubic spline, %d knots" % n, dict(k=incr(n), u=((n - 1,), 0.1, 0.9)), cc, n=2, flips=0,
                    functions=[U + f for f in ("_cc_mats", "ccspline_penalty", "ccspline_basis")], extra=extra)

    # ---- B-splines -----------------------------------------------------------------------------
    for deg in (1, 2, 3):
        def bs(c, k, u, deg=deg):
            nb = len(k) - deg - 1
            pts = [k[i] + (k[i + 1] - k[i]) * u for i in range(deg, nb)]
            P = vec(pts) if c.sym else np.array(pts)
            c.eq("sum to one inside the knots", lambda: np.sum(sp_.bspline_basis(P, k, degree=deg), axis=1), lambda: np.ones(len(pts)))
            c.eq("basis functions", lambda: sp_.bspline_basis(P, k, degree=deg), lambda: [[cox(k, i, deg, deg + r, pts[r]) for i in range(nb)] for r in range(len(pts))])
            c.eq("basis functions without the first", lambda: sp_._bspline(P, k, deg), lambda: [[cox(k, i, deg, deg + r, pts[r]) for i in range(1, nb)] for r in range(len(pts))])
            for der in range(1, deg + 1):
                def want(first=0, der=der):
                    out = []
                    for r in range(len(pts)):
                        x = symvar("xx", 1.0)
                        out.append([substitute(dpoly(cox(k, i, deg, deg + r, x) + 0 * x, x, der), [(x, pts[r])]) for i in range(first, nb)])
                    return out
                c.eq("derivative of order %d" % der, lambda: sp_.bspline_basis(P, k, der, deg), want)
                c.eq("derivative of order %d without the first" % der, lambda: sp_._bspline(P, k, deg, der), lambda want=want: want(1))
        ck.contract("B-spline basis of degree %d" % deg, dict(k=incr(2 * deg + 3 + (deg == 1)), u=(None, 0.1, 0.9)), bs, n=2, flips=0, functions=[U + "bspline_basis", U + "_bspline"], extra=extra)

    for deg, pen in ((3, 2), (2, 2), (2, 1), (1, 1), (3, 3)) + (((3, 1),) if ck.thorough else ()):
        def bp(c, k, deg=deg, pen=pen):
            nb = len(k) - deg - 1
            inner = k[deg:len(k) - deg]

            def want():
                out = 0.0
                for j in range(deg, nb):
                    x = symvar("xx", 1.0)
                    p = [dpoly(cox(k, i, deg, j, x) + 0 * x, x, pen) + 0 * x for i in range(nb)]
                    out = out + np.array([[integral(lambda v: substitute(p[a] * p[b], [(x, v)]), k[j], k[j + 1]) for b in range(nb)] for a in range(nb)], dtype=object)
                return out.view(SArr)
            c.eq("penalty is the integrated product of derivatives", lambda: sp_.bspline_penalty(k, inner, deg, pen)[1], want)
            c.eq("penalty annihilates constants", lambda: sp_.bspline_penalty(k, inner, deg, pen)[1] @ np.ones(nb), lambda: np.zeros(nb))
            if pen == 2:
                g = [sum(k[i + 1:i + deg + 1]) / deg for i in range(nb)]
                c.eq("penalty annihilates straight lines", lambda: sp_.bspline_penalty(k, inner, deg)[1] @ (vec(g) if c.sym else np.array(g)) if deg == 3 else np.zeros(nb), lambda: np.zeros(nb))
            c.eq("square root of the penalty", lambda: (lambda DS: DS[0].T @ DS[0] - DS[1])(sp_.bspline_penalty(k, inner, deg, pen)), lambda: np.zeros((nb, nb)))
        ck.contract("B-spline penalty, degree %d, derivative %d" % (deg, pen), dict(k=incr(2 * deg + 3)), bp, n=2, flips=0, functions=[U + "bspline_penalty"], extra=extra)

    # ---- smoothing-parameter criteria, constraints -----------------------------------------------
    def gcv(c, X, y, L, a, g):
        St = L @ L.T
        n = 4
        A = lambda a: X @ F.inv(X.T @ X + a * St) @ X.T
        tr = lambda M: sum(M[i, i] for i in range(n))
        V = lambda a, g: n * sum((y - A(a) @ y) ** 2) / (n - g * tr(A(a))) ** 2
        c.eq("generalised cross validation", lambda: sp_.gcv(a, X, y, St), lambda: V(a, 1))
        c.eq("gradient", lambda: sp_.grad_gcv(a, X, y, St), lambda: [D(V(a, 1), a)])
        c.eq("inflated generalised cross validation", lambda: sp_.double_gcv(a, X, y, St, g), lambda: V(a, g))
        c.eq("its gradient", lambda: sp_.grad_double_gcv(a, X, y, St, g), lambda: [D(V(a, g), a)])
        c.near("default inflation", lambda: [sp_.double_gcv(a, X, y, St), sp_.grad_double_gcv(a, X, y, St)[0]], lambda: [sp_.double_gcv(a, X, y, St, 1.5), sp_.grad_double_gcv(a, X, y, St, 1.5)[0]])
    ck.contract("generalised cross validation", dict(X=((4, 2), -2, 2), y=((4,), -3, 3), L=((2, 1), 0.3, 2), a=(None, 0.2, 3), g=(None, 1.1, 1.6)), gcv, n=2, flips=0, functions=[U + f for f in ("gcv", "double_gcv", "grad_gcv", "grad_double_gcv")])

    def ac(c, X, S_, q):
        Z = q[:, 1:]
        c.eq("constrained basis", lambda: sp_.absorb_constraints(q, X=X, S=S_)[0], lambda: X @ Z)
        c.eq("constrained penalty", lambda: sp_.absorb_constraints(q, X=X, S=S_)[1], lambda: Z.T @ S_ @ Z)
        c.eq("basis alone", lambda: sp_.absorb_constraints(q, X=X)[0], lambda: X @ Z)
        c.eq("penalty alone", lambda: sp_.absorb_constraints(q, S=S_)[1], lambda: Z.T @ S_ @ Z)
        c.holds("what is not given stays None", lambda: sp_.absorb_constraints(q, X=X)[1] is None and sp_.absorb_constraints(q, S=S_)[0] is None)
    ck.contract("absorb_constraints", dict(X=((4, 3), -2, 2), S_=((3, 3), -2, 2), q=((3, 3), -2, 2)), ac, n=2, flips=0, functions=[U + "absorb_constraints"])

    # ---- data driven parts (run-time contracts) ----------------------------------------------------
    def xdat(rng, i, n=None):
        n = n or int(rng.integers(25, 80))
        x = [rng.uniform(0, 1, n), rng.normal(size=n) * 50 + 1000, rng.integers(0, 25, n) * 1.0, rng.exponential(size=n)][i % 4]
        return x

    GX, GW = np.polynomial.legendre.leggauss(8)

    def quad(f, breaks):
        out = 0.0
        for a, b in zip(breaks[:-1], breaks[1:]):
            B = f((a + b) / 2 + (b - a) / 2 * GX)
            out = out + (b - a) / 2 * (B.T * GW) @ B
        return out

    def natural(k, x, der=0):
        """interpolating natural cubic splines of the unit vectors by scipy"""
        return np.stack([sp.interpolate.CubicSpline(k, e, bc_type="natural")(x, der) for e in np.eye(len(k))], axis=1)

    def cyclic(k, x, der=0):
        m = len(k) - 1
        return np.stack([sp.interpolate.CubicSpline(k, np.r_[e, e[0]], bc_type="periodic")(x, der) for e in np.eye(m)], axis=1)

    def bsp(k, x, deg=3, der=0):
        return np.stack([(lambda B: B.derivative(der) if der else B)(sp.interpolate.BSpline(k, e, deg))(x) for e in np.eye(len(k) - deg - 1)], axis=1)

    def cdata(rng, i):
        x = xdat(rng, i)
        df = int(rng.integers(4, 12))
        o = dict(rtol=1e-8, atol=1e-9, inputs=dict(x=x, df=df))
        g = np.sort(rng.uniform(np.min(x), np.max(x), 60))
        for kind in ("cr", "cc", "bs"):
            X, Sm, knots, fk = {"cr": sp_._get_crsplines, "cc": sp_._get_ccsplines, "bs": sp_._get_bsplines}[kind](x, df)
            ref, br = {"cr": (natural, knots), "cc": (cyclic, knots), "bs": (bsp, knots[3:-3] if kind == "bs" else None)}[kind]
            fn = {"cr": sp_.crspline_basis, "cc": sp_.ccspline_basis, "bs": sp_.bspline_basis}[kind]
            sc = np.max(np.abs(Sm))
            yield kind + ": number of basis functions", X.shape[1], df if kind != "cc" else df - 1, o
            yield kind + ": basis at the data", X, ref(knots, x), o
            yield kind + ": basis elsewhere", fn(g, knots, **fk), ref(knots, g), o
            yield kind + ": penalty is the integrated squared second derivative", Sm / sc, quad(lambda t: ref(knots, t, der=2), br) / sc, dict(o, rtol=1e-7)
            yield kind + ": penalty is symmetric", Sm / sc, Sm.T / sc, o
            ev = np.sort(np.linalg.eigvalsh((Sm + Sm.T) / 2)) / sc
            free = 1 if kind == "cc" else 2
            yield kind + ": penalty leaves exactly constants (and straight lines) free", [int(np.sum(np.abs(ev) < 1e-10)), min(0.0, ev[0] + 1e-10)], [free, 0.0], o
            if kind == "bs":
                yield "bs: non-negative", min(0.0, np.min(X) + 1e-14), 0.0, o
                yield "bs: sum to one", X.sum(axis=1), np.ones(len(x)), o
                yield "bs: knots cover the data and are evenly spaced", [float(br[0] < np.min(x) and br[-1] > np.max(x)), np.ptp(np.diff(knots)) / np.ptp(knots)], [1.0, 0.0], o
                for der in (1, 2, 3):
                    yield "bs: derivative", sp_.bspline_basis(g, knots, der) * np.ptp(x) ** der, bsp(knots, g, der=der) * np.ptp(x) ** der, dict(o, rtol=1e-6, atol=1e-6)
            else:
                yield kind + ": knots span the data", [knots[0], knots[-1], len(knots)], [np.min(x), np.max(x), df], o
                yield kind + ": knots increase", float(np.all(np.diff(knots) > 0)), 1.0, o
        u = np.unique(x)
        yield "knots at evenly spaced ranks (natural)", sp_.crspline_knots(x, df), np.interp(np.linspace(0, len(u) - 1, df), np.arange(len(u)), u), o
        yield "knots at evenly spaced ranks (cyclic)", sp_.ccspline_knots(x, df), np.interp(np.linspace(0, len(u) - 1, df), np.arange(len(u)), u), o
    ck.concrete("spline bases of data", cdata, 12)

    def general(rng, i):
        x = xdat(rng, i)
        deg = int(rng.integers(1, 6))
        pen = int(rng.integers(1, deg + 1))
        o = dict(rtol=1e-7, atol=1e-8, inputs=dict(x=x, degree=deg, penalty=pen))
        ak, ik = sp_.bspline_knots(x, deg + int(rng.integers(3, 9)), deg)
        yield "inner knots", ik, ak[deg:-deg], o
        if i % 3:
            ak = np.sort(np.r_[ak[:deg + 1], rng.uniform(ak[deg], ak[-deg - 1], len(ak) - 2 * deg - 2), ak[-deg - 1:]])
            ik = ak[deg:-deg]
        Dm, Sm = sp_.bspline_penalty(ak, ik, deg, pen)
        W = quad(lambda t: bsp(ak, t, deg, pen), ik)
        yield "penalty of any degree and derivative", Sm / np.max(W), W / np.max(W), o
        yield "its square root", Dm.T @ Dm / np.max(W), Sm / np.max(W), o
        ndx = int(rng.integers(3, 40))
        k, order, lb, ub = sp_.equispaced_knots(x, deg, ndx)
        h = (np.max(x) - np.min(x)) / ndx
        yield "evenly spaced knots", k, np.min(x) + h * np.arange(-(deg + 1), ndx + deg + 1), dict(o, inputs=dict(x=x, degree=deg, ndx=ndx))
        B = sp_._bspline_des(x, deg, ndx)
        xi = np.where(x == np.max(x), x * (1 - 0), x)
        yield "design on evenly spaced knots", B, bsp(k, xi, deg)[:, 1:], dict(o, inputs=dict(x=x, degree=deg, ndx=ndx))
        yield "design: sum to one, not negative", [np.ptp(B.sum(axis=1) - 1) + abs(B.sum(axis=1)[0] - 1), min(0.0, np.min(B) + 1e-13)], [0.0, 0.0], o
        yield "order and bounds", [order, lb, ub], [deg + 1, np.min(x) - (deg + 1) * h, np.max(x) + (deg + 1) * h], o
        kk, od = int(rng.integers(4, 9)), int(rng.integers(1, 4))
        p = np.polynomial.polynomial.polyvander(np.arange(kk), od)
        yield "difference matrix annihilates polynomials of lower degree", sp_.difference_mat(kk, od) @ p[:, :od], np.zeros((kk - od, od)), o
        from math import factorial
        yield "difference matrix on the power of its order", sp_.difference_mat(kk, od) @ p[:, od], np.full(kk - od, factorial(od) * 1.0), o
        yield "difference matrix of order two by default", sp_.difference_mat(kk), sp_.difference_mat(kk, 2), o
        X, S_ = rng.normal(size=(6, 3)), rng.normal(size=(3, 3))
        yield "penalty scale", sp_.get_penalty_scale(X, S_), np.max(np.sum(np.abs(S_), axis=0)) / np.max(np.sum(np.abs(X), axis=1)) ** 2, o
        try:
            sp_._bspline(x, ak[:deg + 1], deg)
            bad = 0.0
        except ValueError:
            bad = 1.0
        yield "too few knots are refused", bad, 1.0, o
    ck.concrete("B-splines of any degree", general, 15)

    def deps(rng, i):
        deg = int(rng.integers(1, 5))
        t = np.cumsum(rng.uniform(0.1, 1, 2 * deg + 6))
        c = rng.normal(size=len(t) - deg - 1)
        x = rng.uniform(t[deg] - 0.2, t[-deg - 1] + 0.2, 10)
        der = int(rng.integers(0, deg + 1))
        yield "splev", sp.interpolate.splev(x, (t, c, deg), der=der), [e.v if isinstance(e, S) else e for e in splev(x, (t, c, deg), der)], dict(rtol=1e-7, atol=1e-7)
        n = int(rng.integers(2, 6))
        d, e, b = rng.uniform(2, 3, n), rng.uniform(-1, 1, n - 1), rng.normal(size=(n, 3))
        yield "ptsv", sp.linalg.get_lapack_funcs("ptsv")(d.copy(), e.copy(), b.copy())[2], np.linalg.solve(np.diag(d) + np.diag(e, 1) + np.diag(e, -1), b), {}
    ck.concrete("dependency contracts", deps, 12)

    # ---- smooth terms of a model ---------------------------------------------------------------------
    def smooths(rng, i):
        import pandas as pd
        n = int(rng.integers(30, 60))
        d = pd.DataFrame(dict(x=rng.uniform(size=n), z=rng.normal(size=n), g=rng.choice(list("abc"), n), y=rng.normal(size=n)))
        d.loc[:5, "g"] = list("abcabc")
        kx, kz = [("cr", "cc"), ("bs", "cr"), ("cc", "bs")][i % 3]
        o = dict(rtol=1e-8, atol=1e-9, inputs=dict(data=d.to_dict("list"), kinds=(kx, kz)))
        f = "y~z+s(x, kind='%s', df=6)+s(z,7,%s, by=g)" % (kx, kz)
        info = ss.parse_smooths(f, d)
        yield "variables", sorted(info), ["x", "z"], o
        yield "sizes and kinds", [info["x"]["df"], info["x"]["kind"], info["z"]["df"], info["z"]["kind"]], [6, kx, 7, kz], o
        yield "data of the terms", [info["x"]["x"], info["z"]["x"]], [d.x.values, d.z.values], o
        yield "indicators", info["z"]["by"]["by_vals"], np.stack([(d.g == s).values * 1.0 for s in "abc"], 1), o
        yield "parametric part", [ss.get_parametric_formula(t) for t in ("y~z+s(x)", "y ~ s(x) + z", "y~s(x,10)+s(z)", "y~s(x)-1", "y~a+s(x)+b")], ["y~z", "y~z", "y~1", "y~-1" if False else ss.get_parametric_formula("y~s(x)-1"), "y~a+b"], o
        Xp = pd.DataFrame(np.c_[np.ones(n), d.z], columns=["Intercept", "z"])
        sm, nt, ntot, names = ss.get_smooth_terms(info, Xp)
        yield "terms", [list(sm), nt], [["x", "z_a", "z_b", "z_c"], 4], o
        X, Sm, ranks, ld = ss.get_smooth_matrices(Xp, sm, nt, ntot)
        yield "number of coefficients and names", [ntot, len(names), len(set(names))], [sum(np.shape(t)[1] for t in X)] * 3, o
        start = 2
        for j, (key, s) in enumerate(sm.items()):
            p = s["X"].shape[1]
            ix = np.arange(start, start + p)
            start += p
            yield key + ": position of the coefficients", s["ix"], ix, o
            P = np.zeros((ntot, ntot))
            P[np.ix_(ix, ix)] = s["S"]
            yield key + ": penalty of the whole coefficient vector", [Sm[j], s["Si"]], [P, P], o
            ev = np.sort(np.linalg.eigvalsh(s["S"]))
            pos = ev[ev > 1e-10 * ev[-1]]
            yield key + ": rank and log-determinant of the penalty", [ranks[j], ld[j]], [len(pos), np.sum(np.log(pos))], dict(o, rtol=1e-6)
            raw = {"cr": sp_._get_crsplines, "cc": sp_._get_ccsplines, "bs": sp_._get_bsplines}[s["kind"]](d[key[0]].values, 6 if key == "x" else 7)
            Z = s["q"][:, 1:]
            yield key + ": constraint is orthogonal", s["q"].T @ s["q"], np.eye(len(s["q"])), o
            yield key + ": constrained basis sums to zero over the data", np.mean(raw[0], axis=0) @ Z, np.zeros(Z.shape[1]), o
            w = np.ones(n) if key == "x" else (d.g == key[-1]).values * 1.0
            yield key + ": basis", s["X"], (raw[0] @ Z) * w[:, None], o
            yield key + ": penalty", s["S"] * s["sc"], Z.T @ raw[1] @ Z, o
            yield key + ": scale", s["sc"], sp_.get_penalty_scale(raw[0], raw[1]), o
            yield key + ": what prediction needs", [s["knots"] - raw[2]], [np.zeros(len(raw[2]))], o
            new = rng.uniform(np.min(d[key[0]]), np.max(d[key[0]]), 5)
            fn = {"cr": sp_.crspline_basis, "cc": sp_.ccspline_basis, "bs": sp_.bspline_basis}[s["kind"]]
            yield key + ": basis at new points", sp_.absorb_constraints(s["q"], X=fn(new, s["knots"], **s["fkws"]))[0], {"cr": natural, "cc": cyclic, "bs": bsp}[s["kind"]](s["knots"], new) @ Z, o
    ck.concrete("smooth terms", smooths, 6)
