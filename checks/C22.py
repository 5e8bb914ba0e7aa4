"""C22 finite-difference, Richardson and complex-step derivatives on polynomials of the order they guarantee"""
import importlib
import itertools
import numpy as np
from vf.sym import SArr

ND = "pystatsm/utilities/numerical_derivs.py::"
WARM = ("stencil weights 4 points",)


def monos(n, d):
    return [e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d]


class Poly:
    """sum of c_e prod x_i^e_i"""

    def __init__(self, c, es):
        self.c, self.es = list(c), es

    def __call__(self, x):
        t = 0.0
        for c, e in zip(self.c, self.es):
            m = c
            for i, k in enumerate(e):
                for _ in range(k):
                    m = m * x[i]
            t = t + m
        return t

    def d(self, i):
        cs, es = [], []
        for c, e in zip(self.c, self.es):
            if e[i]:
                cs.append(c * e[i])
                es.append(tuple(k - (j == i) for j, k in enumerate(e)))
        return Poly(cs, es)

    def grad(self, x):
        return [self.d(i)(x) for i in range(len(x))]

    def hess(self, x):
        return [[self.d(i).d(j)(x) for j in range(len(x))] for i in range(len(x))]


def run(ck):
    nd = importlib.import_module("pystatsm.utilities.numerical_derivs")

    def obj(v, c):
        v = np.asarray(v)
        return v.view(SArr) if c.sym else np.asarray(v, dtype=complex if any(isinstance(t, complex) for t in v.ravel()) else float)

    def vec(ps, c):
        return lambda x: obj(np.array([p(x) for p in ps], dtype=object), c)

    X = lambda n: ((n,), -2, 2)
    E = (None, 0.2, 0.9)

    # ---- fixed-step stencils ---------------------------------------------------------
    for n in (1, 2, 3):
        m1, m2 = monos(n, 1), monos(n, 2)
        m3 = monos(n, 3)
        m5 = m3 + [tuple(k * (i == j) for j in range(n)) for i in range(n) for k in (4, 5)]

        def s1(c, x, e, a):
            p = Poly(a, m1)
            f = lambda x, b=0.0: p(x) + b * x[0]
            c.eq("forward difference of a linear function", lambda: nd.fo_fc_fd(f, x, e), lambda: p.grad(x))
            c.eq("forward difference passes args on", lambda: nd.fo_fc_fd(f, x, e, (2.0,)), lambda: [g + 2 * (i == 0) for i, g in enumerate(p.grad(x))])
        ck.contract("forward differences, %d variables" % n, dict(x=X(n), e=E, a=((len(m1),), -2, 2)), s1, n=2, flips=0, functions=[ND + "fo_fc_fd"])

        def s2(c, x, e, a):
            p = Poly(a, m2)
            q = lambda x, b=0.0: p(x) + b * x[0] * x[-1]
            extra = [[(i == 0 and j == n - 1) + (j == 0 and i == n - 1) for j in range(n)] for i in range(n)]
            c.eq("central difference of a quadratic", lambda: nd.fo_fc_cd(p, x, e), lambda: p.grad(x))
            c.eq("central difference passes args on", lambda: nd.fo_fc_cd(q, x, e, (2.0,)), lambda: np.array(p.grad(x)) + 2 * np.array([(i == 0) * x[-1] + (i == n - 1) * x[0] for i in range(n)]))
            c.eq("second forward difference of a quadratic", lambda: nd.so_fc_fd(p, x, e), lambda: p.hess(x))
            c.eq("second forward difference passes args on", lambda: nd.so_fc_fd(q, x, e, (2.0,)), lambda: np.array(p.hess(x)) + 2 * np.array(extra))
            c.eq("second central difference passes args on", lambda: nd.so_fc_cd(q, x, e, (2.0,)), lambda: np.array(p.hess(x)) + 2 * np.array(extra))
            g = lambda x, b=0.0: obj(np.array([t + b * x[i] for i, t in enumerate(p.grad(x))], dtype=object), c)
            c.eq("forward difference of a linear gradient", lambda: nd.so_gc_fd(g, x, e), lambda: p.hess(x))
            c.eq("forward difference of a gradient passes args on", lambda: nd.so_gc_fd(g, x, e, (2.0,)), lambda: np.array(p.hess(x)) + 2 * np.eye(n))
            c.eq("central difference of a gradient passes args on", lambda: nd.so_gc_cd(g, x, e, (2.0,)), lambda: np.array(p.hess(x)) + 2 * np.eye(n))
        ck.contract("second-order stencils on quadratics, %d variables" % n, dict(x=X(n), e=E, a=((len(m2),), -2, 2)), s2, n=2, flips=0,
                    functions=[ND + f for f in ("fo_fc_cd", "so_fc_fd", "so_fc_cd", "so_gc_fd", "so_gc_cd")])

        def s3(c, x, e, a):
            p, p3 = Poly(a, m5), Poly(a[:len(m3)], m3)
            c.eq("second central difference", lambda: nd.so_fc_cd(p, x, e), lambda: p.hess(x))
            c.eq("central difference of the gradient of a cubic", lambda: nd.so_gc_cd(lambda x: obj(np.array(p3.grad(x), dtype=object), c), x, e), lambda: p3.hess(x))
        ck.contract("central stencils to their full order, %d variables" % n, dict(x=X(n), e=E, a=((len(m5),), -2, 2)), s3, n=2, flips=0, functions=[ND + "so_fc_cd", ND + "so_gc_cd"], budget=400000)

        def sg(c, x, e, a):
            # a gradient that is not one: the result is the symmetrised Jacobian
            ps = [Poly(a[k * len(m2):(k + 1) * len(m2)], m2) for k in range(n)]
            J = lambda: np.array([p.grad(x) for p in ps], dtype=object)
            c.eq("so_gc_cd symmetrises", lambda: nd.so_gc_cd(vec(ps, c), x, e), lambda: (J() + J().T) / 2)
            ls = [Poly(a[k * len(m1):(k + 1) * len(m1)], m1) for k in range(n)]
            Jl = lambda: np.array([p.grad(x) for p in ls], dtype=object)
            c.eq("so_gc_fd symmetrises", lambda: nd.so_gc_fd(vec(ls, c), x, e), lambda: (Jl() + Jl().T) / 2)
        ck.contract("symmetrised Jacobians, %d variables" % n, dict(x=X(n), e=E, a=((n * len(m2),), -2, 2)), sg, n=2, flips=0, functions=[ND + "so_gc_cd", ND + "so_gc_fd"])

    # ---- stencil weights -------------------------------------------------------------
    def pts(m):
        def g(rng):
            while True:
                v = rng.uniform(-2, 2, m)
                if m == 1 or np.min(np.abs(np.subtract.outer(v, v))[np.triu_indices(m, 1)]) > 0.25:
                    return v
        return g

    def moments(w, x, x0, order, m):
        fac = [1.0]
        for i in range(1, m):
            fac.append(fac[-1] * i)
        return [sum(w[k] * (x[k] - x0) ** i for k in range(m)) for i in range(m)], [fac[order] * (i == order) for i in range(m)]

    for m in (1, 2, 3, 4) + ((5,) if ck.thorough else ()):
        def fc(c, x, x0):
            for order in range(m):
                c.eq("fd_coefs order %d: moment equations" % order, lambda: moments(nd.fd_coefs(x, x0, order), x, x0, order, m)[0], lambda: moments(x, x, x0, order, m)[1])
                if order:
                    c.eq("fd_coefs order %d: full table" % order, lambda: np.concatenate([moments(nd.fd_coefs(x, x0, order, last_col=False)[:, k], x, x0, k, m)[0] for k in range(order + 1)]),
                         lambda: np.concatenate([moments(x, x, x0, k, m)[1] for k in range(order + 1)]))
                if m < 4:
                    c.eq("fd_coefficients order %d: moment equations" % order, lambda: moments(nd.fd_coefficients(x, order), x, 0.0, order, m)[0], lambda: moments(x, x, 0.0, order, m)[1])
                else:
                    c.near("fd_coefficients order %d: moment equations" % order, lambda: moments(nd.fd_coefficients(x, order), x, 0.0, order, m)[0], lambda: moments(x, x, 0.0, order, m)[1])
        ck.contract("stencil weights %d points" % m, dict(x=pts(m), x0=(None, -1, 1)), fc, n=2, flips=0, functions=[ND + f for f in ("_fd_coefs", "fd_coefs", "fd_coefficients")], budget=400000)

    def weights(rng, i):
        """the same equations on integer grids, with the number of points and the order as used by callers"""
        m = int(rng.integers(2, 10))
        x = np.sort(rng.choice(np.arange(-8, 9), m, replace=False)).astype(float)
        order = int(rng.integers(0, min(m, 5)))
        x0 = float(rng.integers(-2, 3))
        for nm, w, z in (("fd_coefs", nd.fd_coefs(x, x0, order), x0), ("fd_coefs at 0", nd.fd_coefs(x, n=order), 0.0), ("fd_coefficients", nd.fd_coefficients(x, order), 0.0)):
            got, want = moments(w, x, z, order, m)
            sc = np.array([max(1.0, np.sum(np.abs(w) * np.abs(x - z) ** i)) for i in range(m)])
            yield nm, np.array(got) / sc, np.array(want) / sc, dict(inputs=dict(x=x, x0=z, order=order), atol=1e-7)
    ck.concrete("stencil weights on integer grids", weights, 40)

    # ---- derivatives of a function of one variable -----------------------------------------
    for order, m, deg in ((1, 1, 4), (1, 2, 6), (2, 1, 6), (2, 2, 8), (3, 1, 8)):
        def fdv(c, x, a, n):
            p = Poly(a, [(k,) for k in range(deg + 1)])

            def dd(t):
                q = p
                for _ in range(order):
                    q = q.d(0)
                return q([t])
            f = lambda t: p([t])
            c.eq("finite_diff on a grid", lambda: nd.finite_diff(f, x, order=order, m=m, n=n), lambda: [dd(t) for t in x])
        ck.contract("finite_diff of order %d with m=%d on degree %d" % (order, m, deg), dict(n=(None, 1, 6), x=((2,), -1, 1), a=((deg + 1,), -1, 1)), fdv, n=2, flips=0, functions=[ND + "finite_diff"], rtol=1e-7)

    for order, pt in ((1, (-1, 0, 1)), (2, (-1, 0, 1)), (1, (0, 1, 2)), (2, (-2, -1, 0, 1, 2)), (3, (-2, -1, 0, 1, 2))):
        def fdd(c, x, e, a, s):
            p = Poly(a, [(k,) for k in range(len(pt))])

            def dd(t):
                q = p
                for _ in range(order):
                    q = q.d(0)
                return q([t])
            c.eq("fd_derivative on given points", lambda: nd.fd_derivative(lambda t: p([t]), x, e, order, np.array(pt) * s), lambda: dd(x))
        ck.contract("fd_derivative order %d on %s" % (order, pt), dict(x=(None, -1, 1), e=E, s=(None, 0.5, 1.5), a=((len(pt),), -1, 1)), fdd, n=2, flips=0, functions=[ND + "fd_derivative", ND + "fd_coefficients"], rtol=1e-7)

    def fdef(rng, i):
        p = Poly(rng.uniform(-1, 1, 9), [(k,) for k in range(9)])
        x, e = float(rng.uniform(-1, 1)), 0.2
        q = p
        for order in (1, 2, 3, 4):
            q = q.d(0)
            yield "fd_derivative on the default points, order %d" % order, nd.fd_derivative(lambda t: p([t]), x, e, order), q([x]), dict(rtol=1e-5, atol=1e-6, inputs=dict(x=x, a=p.c))
            yield "finite_diff with default arguments, order %d" % order, nd.finite_diff(lambda t: p([t]), np.array([x, x + 0.1]), order), [q([x]), q([x + 0.1])], dict(rtol=1e-4, atol=1e-4, inputs=dict(x=x, a=p.c))
        yield "fd_derivative with the default step", nd.fd_derivative(lambda t: p([t]), x), p.d(0)([x]), dict(rtol=1e-6, atol=1e-6, inputs=dict(x=x, a=p.c))
    ck.concrete("default stencils of one variable", fdef, 10)

    # ---- Richardson extrapolation: nr levels are exact to degree 2 nr -------------------------
    for n, nr, v in ((1, 1, 2), (1, 2, 2), (2, 2, 2), (2, 3, 2)):
        ms = [tuple(k * (i == j) for j in range(n)) for i in range(n) for k in range(1, 2 * nr + 1)] + ([(1, 1), (1, 2)] if n == 2 else []) + [(0,) * n]

        def ri(c, x, e, d, a):
            p, q = Poly(a, ms), Poly(a[::-1], ms)
            c.eq("grad_approx", lambda: nd.grad_approx(p, x, eps=e, d=d, nr=nr, v=v), lambda: [p.grad(x)])
            c.eq("jac_approx2: value axis last", lambda: nd.jac_approx2(vec([p, q, p], c), x, eps=e, d=d, nr=nr, v=v), lambda: [np.array([p.grad(x), q.grad(x), p.grad(x)], dtype=object).T])
        ck.contract("Richardson gradients %d variables %d levels" % (n, nr), dict(x=((n,), 0.3, 2), e=E, d=(None, 0.1, 0.4), a=((len(ms),), -1, 1)), ri, n=2, flips=1, functions=[ND + "grad_approx", ND + "jac_approx2"], rtol=1e-6)

        hs = [e for e in monos(n, 2 * nr + 1)] if n == 1 or nr == 1 else monos(n, 4)

        def rh(c, x, e, d, a):
            p, q = Poly(a, hs), Poly(a[::-1], hs)
            lo = lambda p: Poly([t for t, s in zip(p.c, p.es) if sum(s) <= 2 * nr], [s for s in p.es if sum(s) <= 2 * nr])
            p1, q1 = lo(p), lo(q)
            c.eq("hess_approx2", lambda: nd.hess_approx2(vec([p, q], c), x, a_eps=e, r_eps=d, nr=nr, s=v), lambda: [p.hess(x), q.hess(x)])
            c.eq("_hess_approx: gradient, then the lower triangle by rows", lambda: nd._hess_approx(vec([p1, q1], c), x, a_eps=e, r_eps=d, nr=nr, s=v),
                 lambda: [list(s.grad(x)) + [s.hess(x)[i][j] for i in range(n) for j in range(i + 1)] for s in (p1, q1)])
        ck.contract("Richardson Hessians %d variables %d levels" % (n, nr), dict(x=((n,), 0.3, 2), e=E, d=(None, 0.1, 0.4), a=((len(hs),), -1, 1)), rh, n=2, flips=1, functions=[ND + "_hess_approx", ND + "hess_approx2"], rtol=1e-6, budget=400000)

    def rich(rng, i):
        n = int(rng.integers(1, 4))
        x = rng.uniform(-2, 2, n) * (rng.uniform(size=n) < 0.8)
        es = monos(n, 4)
        ps = [Poly(rng.uniform(-1, 1, len(es)), es) for _ in range(3)]
        f = lambda x: np.array([p(x) for p in ps])
        o = dict(rtol=2e-5, atol=2e-5, inputs=dict(x=x, c=[p.c for p in ps]))
        # a larger absolute step keeps rounding below the tolerance; the defaults use 1e-4
        yield "grad_approx with default levels", nd.grad_approx(ps[0], x), [ps[0].grad(x)], dict(o, rtol=1e-4, atol=1e-4)
        yield "jac_approx2 with default levels", nd.jac_approx2(f, x), [np.array([p.grad(x) for p in ps]).T], dict(o, rtol=1e-4, atol=1e-4)
        yield "hess_approx2 with default levels", nd.hess_approx2(f, x, a_eps=0.1, r_eps=0.1), [p.hess(x) for p in ps], dict(o, rtol=1e-4, atol=1e-4)
        xi = rng.integers(-3, 4, n)
        yield "grad_approx at integers", nd.grad_approx(ps[0], xi), [ps[0].grad(xi)], dict(o, rtol=1e-4, atol=1e-4)
    ck.concrete("Richardson extrapolation with its default levels", rich, 12)

    # ---- Jacobians and Hessians of array functions of arrays -----------------------------------
    for shx, shy in (((1,), (1,)), ((2,), (3,)), ((2, 2), (2,)), ((2,), (2, 2)), ((3,), ())):
        nx = int(np.prod(shx))
        ny = int(np.prod(shy))
        m2 = monos(nx, 2)

        def ja(c, x, e, d, a, b):
            ps = [Poly(np.roll(a, k), m2) for k in range(ny)]

            def Fn(x, b=0.0):
                xr = np.asarray(x).reshape(-1)
                v = np.array([p(xr) + b * xr[0] * (k + 1) for k, p in enumerate(ps)], dtype=object)
                v = obj(v, c).reshape(shy)
                return v[()] if shy == () else v
            sy = shy if shy else (1,)
            xr = x.reshape(-1)
            want = lambda b=0.0: np.array([[p.d(j)(xr) + b * (k + 1) * (j == 0) for j in range(nx)] for k, p in enumerate(ps)], dtype=object).reshape(sy + shx)
            for nm in ("jac_approx", "jac_approx3", "jac_approx4"):
                f = getattr(nd, nm)
                c.eq(nm + ": value axes then argument axes", lambda f=f: f(Fn, x, eps=e, d=d), lambda: want())
                c.eq(nm + " passes args on", lambda f=f: f(Fn, x, eps=e, d=d, args=(b,)), lambda: want(b))
            mask = np.arange(ny).reshape(sy) % 2 == 0
            c.eq("jac_approx with a mask", lambda: nd.jac_approx(Fn, x, eps=e, d=d, mask=mask), lambda: want() * mask.reshape(sy + (1,) * len(shx)))
        ck.contract("Jacobians %s of %s" % (shy, shx), dict(x=(shx, 0.3, 2), e=E, d=(None, 0.1, 0.4), a=((len(m2),), -1, 1), b=(None, -1, 1)), ja, n=2, flips=1, functions=[ND + f for f in ("jac_approx", "jac_approx3", "jac_approx4")])

        m3 = monos(nx, 3)[:14] + [tuple(k * (i == j) for j in range(nx)) for i in range(nx) for k in (4, 5)]
        m3 = sorted(set(m3))

        def he(c, x, e, d, a, b):
            ps = [Poly(np.roll(a, k), m3) for k in range(ny)]

            def Fn(x, b=0.0):
                xr = np.asarray(x).reshape(-1)
                v = np.array([p(xr) + b * xr[0] ** 2 * (k + 1) for k, p in enumerate(ps)], dtype=object)
                v = obj(v, c).reshape(shy)
                return v[()] if shy == () else v
            sy = shy if shy else (1,)
            xr = x.reshape(-1)
            want = lambda b=0.0: np.array([[[p.d(i).d(j)(xr) + 2 * b * (k + 1) * (i == j == 0) for j in range(nx)] for i in range(nx)] for k, p in enumerate(ps)], dtype=object).reshape(sy + shx + shx)
            c.eq("hess_approx: value axes then argument axes", lambda: nd.hess_approx(Fn, x, eps=e, d=d), lambda: want())
            c.eq("hess_approx passes args on", lambda: nd.hess_approx(Fn, x, eps=e, d=d, args=(b,)), lambda: want(b))
            mask = (np.arange(ny * nx * nx) % 3 != 0).reshape(sy + shx + shx)
            c.eq("hess_approx with a mask", lambda: nd.hess_approx(Fn, x, eps=e, d=d, mask=mask), lambda: want() * mask)
        if nx <= 3:
            ck.contract("Hessians %s of %s" % (shy, shx), dict(x=(shx, 0.3, 2), e=E, d=(None, 0.1, 0.4), a=((len(m3),), -1, 1), b=(None, -1, 1)), he, n=2, flips=1, functions=[ND + "hess_approx"])

    def defaults(rng, i):
        """default steps and zero or whole-number points, integer arrays included"""
        n = int(rng.integers(1, 4))
        es = monos(n, 2)
        ps = [Poly(rng.uniform(-1, 1, len(es)), es) for _ in range(2)]
        f = lambda x: np.array([p(x) for p in ps])
        for x in (rng.uniform(-2, 2, n), rng.uniform(-2, 2, n) * (np.arange(n) > 0), rng.integers(-3, 4, n), list(rng.uniform(-2, 2, n))):
            xa = np.asarray(x)
            J = np.array([p.grad(xa) for p in ps])
            H = np.array([p.hess(xa) for p in ps])
            t = "whole" if xa.dtype.kind == "i" else "real"
            o = dict(rtol=1e-5, atol=1e-5, inputs=dict(x=xa, c=[p.c for p in ps]))
            for nm in ("jac_approx", "jac_approx3", "jac_approx4"):
                yield nm + " at a %s point" % t, getattr(nd, nm)(f, x), J, o
            yield "jac_approx with a progress bar", quiet(nd.jac_approx, f, x), J, o
            for nm in ("jac_approx3", "jac_approx4"):
                yield nm + " with a progress bar", quiet(getattr(nd, nm), f, x), J, o
            yield "hess_approx at a %s point" % t, nd.hess_approx(f, x, eps=1e-2, d=1e-2), H, o
            yield "hess_approx with a progress bar", quiet(nd.hess_approx, f, x, eps=1e-2, d=1e-2), H, o
            yield "fo_fc_fd", nd.fo_fc_fd(ps[0], x), J[0], dict(o, rtol=1e-4, atol=1e-4)
            yield "fo_fc_cd", nd.fo_fc_cd(ps[0], x), J[0], o
            yield "so_fc_fd", nd.so_fc_fd(ps[0], x), H[0], dict(o, rtol=1e-3, atol=1e-3)
            yield "so_fc_cd", nd.so_fc_cd(ps[0], x), H[0], dict(o, rtol=1e-3, atol=1e-3)
            g = lambda x: np.array(ps[0].grad(x))
            yield "so_gc_fd", nd.so_gc_fd(g, x), H[0], o
            yield "so_gc_cd", nd.so_gc_cd(g, x), H[0], o
            yield "fo_fc_cs", nd.fo_fc_cs(ps[0], x), J[0], o
            yield "jac_cs", nd.jac_cs(f, x), J, o
            yield "hess_cs", quiet(nd.hess_cs, f, xa), H, o

    def quiet(f, *a, **k):
        import contextlib
        import io
        with contextlib.redirect_stderr(io.StringIO()):
            return f(*a, **({"progress_bar": True} if f.__name__ != "hess_cs" else {}), **k)
    ck.concrete("default steps, zero and whole-number points", defaults, 8)

    # ---- complex step ----------------------------------------------------------------------
    for n in (1, 2, 3):
        m2, m3 = monos(n, 2), monos(n, 3)

        def cs(c, x, e, a):
            ps = [Poly(a[:len(m2)], m2), Poly(a[::-1][:len(m2)], m2)]
            q = lambda x, b=0.0: ps[0](x) + b * x[0]
            c.eq("fo_fc_cs", lambda: nd.fo_fc_cs(ps[0], x, e), lambda: ps[0].grad(x))
            c.eq("fo_fc_cs passes args on", lambda: nd.fo_fc_cs(q, x, e, (2.0,)), lambda: [g + 2 * (i == 0) for i, g in enumerate(ps[0].grad(x))])
            c.eq("jac_cs", lambda: nd.jac_cs(vec(ps, c), x, e), lambda: [p.grad(x) for p in ps])
            p3 = [Poly(a, m3), Poly(a[::-1], m3)]
            c.eq("hess_cs of a scalar", lambda: quiet(nd.hess_cs, p3[0], x, e), lambda: p3[0].hess(x))
            c.eq("hess_cs of a vector", lambda: quiet(nd.hess_cs, vec(p3, c), x, e), lambda: [p.hess(x) for p in p3])
        ck.contract("complex step, %d variables" % n, dict(x=X(n), e=E, a=((len(m3),), -1, 1)), cs, n=2, flips=1, functions=[ND + f for f in ("fo_fc_cs", "jac_cs", "hess_cs")], budget=200000)
