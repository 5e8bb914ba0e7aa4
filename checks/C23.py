"""C23 polychoric and polyserial correlation: probabilities, likelihoods and their derivatives"""
import importlib
import numpy as np
import pandas as pd
from vf.core import D, jac, hess, substitute
from vf.sym import F, S, SArr, symvar

LV = "pystatsm/pylvcorr/lvcorr.py::"
SF = "pystatsm/pylvcorr/statfuncs.py::"
P1 = "pystatsm/pylvcorr/polychoric.py::"
P2 = "pystatsm/pylvcorr/polychoric2.py::"
FU = "pystatsm/utilities/func_utils.py::"
WARM = ("bivariate normal functions of func_utils",)
R = (None, -0.9, 0.9)


def run(ck):
    lv = importlib.import_module("pystatsm.pylvcorr.lvcorr")
    sf = importlib.import_module("pystatsm.pylvcorr.statfuncs")
    p1 = importlib.import_module("pystatsm.pylvcorr.polychoric")
    p2 = importlib.import_module("pystatsm.pylvcorr.polychoric2")
    fu = importlib.import_module("pystatsm.utilities.func_utils")

    def BVN(h, k, r):
        h, k = np.broadcast_arrays(np.atleast_1d(h), np.atleast_1d(k))
        return F.bvn(h, k, r)

    # the quadrature is a dependency contract: binorm_cdf_jit(h, k, r) is the bivariate normal probability, to rounding
    # (checked below at run time); on the symbolic side it is that function, with its exact derivatives
    ext = lambda: ((sf, "binorm_cdf_jit", F.bvn), (fu, "binorm_cdf_jit", F.bvn), (sf, "norm_cdf_jit", F.ndtr), (fu, "norm_cdf_jit", F.ndtr))
    extra = ext
    # callers are checked against the contracts of these functions: the bivariate normal probability and its partial derivatives
    # (proved to be so by the contracts "bivariate normal functions"), as uninterpreted functions, with limits beyond 30 infinite
    G = lambda i, j, l: (lambda h, k, r, *a: F.bvng(h, k, r, i, j, l))
    extc = lambda: ((sf, "norm_cdf_jit", F.ndtr), (fu, "norm_cdf_jit", F.ndtr), *((o, n, g) for o in (sf, fu, lv) for n, g in (("binorm_cdf_jit", G(0, 0, 0)), ("binorm_cdf", G(0, 0, 0)), ("binorm_pdf", G(0, 0, 1)), ("dbinorm_pdf", G(0, 0, 2))) if hasattr(o, n)),
                    *((o, n, g) for o in (fu, p1) for n, g in (("dbinorm_cdf_du", G(1, 0, 0)), ("d2binorm_cdf_du2", G(2, 0, 0)), ("d2binorm_cdf_duv", G(1, 1, 0)), ("d2binorm_cdf_dur", G(1, 0, 1))) if hasattr(o, n)))

    def vec(v):
        return np.array(list(v), dtype=object).view(SArr)

    def cat(v, c, e=1e6):
        return vec([-e, *v, e]) if c.sym else np.r_[-e, np.asarray(v, float), e]

    def cells(f, a, b):
        """f over the rectangles of the grid a x b"""
        return [[f(a[i + 1], b[j + 1]) - f(a[i], b[j + 1]) - f(a[i + 1], b[j]) + f(a[i], b[j]) for j in range(len(b) - 1)] for i in range(len(a) - 1)]

    def incr(n, lo=-1.2, step=(0.3, 0.9)):
        return lambda rng: np.round(lo + np.cumsum(rng.uniform(*step, n)), 6)

    def pos(shape, lo=1, hi=9):
        return (shape, lo, hi)

    phi2 = lambda h, k, r: np.exp(-(h * h - 2 * r * h * k + k * k) / (2 * (1 - r * r))) / (2 * F.pi * np.sqrt(1 - r * r))
    phi2n = lambda h, k, r: np.exp(-(h * h - 2 * r * h * k + k * k) / (2 * (1 - r * r))) / (2 * np.pi * np.sqrt(1 - r * r))

    # ---- the functions underneath --------------------------------------------------------
    for nm, m, pre in (("func_utils", fu, FU), ("statfuncs", sf, SF)):
        rect2 = {"func_utils": ("binorm_cdf_region", "binorm_pdf_region", "dbinorm_pdf_region"), "statfuncs": ("binorm_cdf2", "binorm_pdf2", "dbinorm_pdf2")}[nm]

        def low(c, h, k, r, m=m, nm=nm, rect2=rect2):
            up = [vec([h[1], k[1]]) if c.sym else np.array([h[1], k[1]]), vec([h[2], k[2]]) if c.sym else np.array([h[2], k[2]])]
            lo = [vec([h[0], k[0]]) if c.sym else np.array([h[0], k[0]]), vec([h[1], k[1]]) if c.sym else np.array([h[1], k[1]])]
            rect = lambda f: [f(up[0][i], up[1][i]) - f(up[0][i], lo[1][i]) - f(lo[0][i], up[1][i]) + f(lo[0][i], lo[1][i]) for i in range(2)]
            c.eq("bivariate normal probability", lambda: m.binorm_cdf(h, k, r), lambda: F.bvn(h, k, r))
            c.eq("bivariate normal density is the derivative in the correlation", lambda: m.binorm_pdf(h, k, r), lambda: [D(F.bvn(h[i], k[i], r), r) for i in range(3)])
            c.eq("bivariate normal density", lambda: m.binorm_pdf(h, k, r), lambda: phi2(h, k, r))
            c.eq("derivative of the density", lambda: m.dbinorm_pdf(h, k, r), lambda: [D(D(F.bvn(h[i], k[i], r), r), r) for i in range(3)])
            c.eq("integrand of Plackett's identity", lambda: m.binorm_dl_jit(h[0], k[0], r), lambda: phi2(h[0], k[0], r))
            c.eq("rectangle probability", lambda: getattr(m, rect2[0])(lo, up, r), lambda: rect(lambda a, b: F.bvn(a, b, r)))
            c.eq("rectangle density", lambda: getattr(m, rect2[1])(lo, up, r), lambda: rect(lambda a, b: D(F.bvn(a, b, r), r)))
            c.eq("rectangle density derivative", lambda: getattr(m, rect2[2])(lo, up, r), lambda: rect(lambda a, b: D(D(F.bvn(a, b, r), r), r)))
            c.eq("normal cdf", lambda: m.norm_cdf(h, 0.3, 1.7), lambda: F.ndtr((h - 0.3) / 1.7))
            c.eq("normal density", lambda: m.norm_pdf(h, 0.3, 1.7), lambda: np.exp(-((h - 0.3) / 1.7) ** 2 / 2) / np.sqrt(2 * F.pi) / 1.7)
            c.near("fast normal cdf", lambda: [m.norm_cdf_jit(float(t), 0.0, 1.0) for t in h * 3], lambda: F.ndtr(h * 3), rtol=1e-13)
            c.near("scalars", lambda: [m.binorm_cdf(float(h[0]), float(k[0]), r), m.binorm_pdf(float(h[0]), float(k[0]), np.array([r]))], lambda: [F.bvn(h[0], k[0], r), phi2n(h[0], k[0], r)])
            if nm == "func_utils":
                c.eq("d Phi2 / du", lambda: fu.dbinorm_cdf_du(h, k, r), lambda: [D(F.bvn(h[i], k[i], r), h[i]) for i in range(3)])
                c.eq("d2 Phi2 / du2", lambda: fu.d2binorm_cdf_du2(h, k, r), lambda: [D(D(F.bvn(h[i], k[i], r), h[i]), h[i]) for i in range(3)])
                c.eq("d2 Phi2 / du dv", lambda: fu.d2binorm_cdf_duv(h, k, r), lambda: [D(D(F.bvn(h[i], k[i], r), h[i]), k[i]) for i in range(3)])
                c.eq("d2 Phi2 / du dr", lambda: fu.d2binorm_cdf_dur(h, k, r), lambda: [D(D(F.bvn(h[i], k[i], r), h[i]), r) for i in range(3)])
                c.near("scalar rectangle", lambda: fu.binorm_cdf_region((float(h[0]), float(k[0])), (float(h[1]), float(k[1])), np.array([r])), lambda: (F.bvn(h[1], k[1], r) - F.bvn(h[1], k[0], r) - F.bvn(h[0], k[1], r) + F.bvn(h[0], k[0], r)))
            else:
                c.eq("d Phi2 / du", lambda: sf.dbinorm_du(h, k, r), lambda: [D(F.bvn(h[i], k[i], r), h[i]) for i in range(3)])
                c.eq("conditional probability", lambda: sf._dbinorm_du(h, k, r), lambda: F.ndtr((k - r * h) / np.sqrt(1 - r * r)))
                c.eq("integrand of Plackett's identity (array)", lambda: sf.binorm_dl(h, k, r), lambda: phi2(h, k, r))
                c.eq("bivariate normal density (older)", lambda: sf.binorm_pdf_old(h, k, r), lambda: phi2(h, k, r))
                c.eq("normal quantile", lambda: sf.norm_qtf(F.ndtr(h)), lambda: h)
                c.eq("polyserial exponent", lambda: sf.polyex(h, k, r), lambda: (k - r * h) / np.sqrt(1 - r * r))
        low_fns = ["binorm_cdf", "binorm_pdf", "_binorm_cdf_arr", "_binorm_pdf_arr", "binorm_pdf_jit", "dbinorm_pdf", "binorm_dl_jit", "norm_cdf", "norm_pdf", *rect2]
        low_fns += ["dbinorm_cdf_du", "d2binorm_cdf_du2", "d2binorm_cdf_duv", "d2binorm_cdf_dur"] if nm == "func_utils" else ["dbinorm_du", "_dbinorm_du", "binorm_dl", "binorm_pdf_old", "norm_qtf", "polyex"]
        ck.contract("bivariate normal functions of " + nm, dict(h=incr(3), k=incr(3), r=R), low, n=2, flips=0, functions=[pre + f for f in low_fns], extra=extra)

        def quad(rng, i, m=m, nm=nm):
            r = float([rng.uniform(-0.99, 0.99), rng.choice([-1, 1]) * (1 - 10 ** rng.uniform(-3, -1)), 0.0][i % 3 if i < 30 else 0])
            h, k = rng.normal(size=2) * 1.5
            if i % 5 == 0 and r:
                k = np.sign(r) * h + 0.01 * rng.normal()
            o = dict(rtol=1e-9, atol=1e-12, inputs=dict(h=h, k=k, r=r))
            b = F.bvn(h, k, r)
            yield "quadrature", m.binorm_cdf(float(h), float(k), r), b, o
            yield "quadrature, array", m.binorm_cdf(np.array([[h, k], [k, 1e6]]), np.array([[k, h], [h, h]]), r), [[b, b], [F.ndtr(k) * 0 + F.bvn(k, h, r), F.ndtr(h)]], o
            yield "infinite thresholds", m.binorm_cdf(np.array([-1e6, 1e6, h, 1e6]), np.array([k, k, -1e6, 1e6]), r), [0.0, F.ndtr(k), 0.0, 1.0], o
            yield "symmetry", m.binorm_cdf(float(-h), float(-k), r), 1 - F.ndtr(h) - F.ndtr(k) + b, o
            hi, ki = int(rng.integers(-2, 3)), int(rng.integers(-2, 3))
            yield "integers", m.binorm_cdf(hi, ki, r), F.bvn(hi, ki, r), dict(o, inputs=dict(h=hi, k=ki, r=r))
            yield "integer arrays", m.binorm_cdf(np.array([hi, ki]), np.array([ki, 0]), r), [F.bvn(hi, ki, r), F.bvn(ki, 0, r)], dict(o, inputs=dict(h=hi, k=ki, r=r))
            yield "integer densities", m.binorm_pdf(hi, ki, r), phi2n(hi, ki, r), dict(o, inputs=dict(h=hi, k=ki, r=r))
            yield "arrays against a number", m.binorm_cdf(np.array([h, k, 0.5]), float(k), r), [b, F.bvn(k, k, r), F.bvn(0.5, k, r)], o
            yield "a number against arrays", m.binorm_cdf(float(h), np.array([k, 0.5]), r), [b, F.bvn(h, 0.5, r)], o
            yield "densities against a number", m.binorm_pdf(np.array([h, k]), float(k), r), [phi2n(h, k, r), phi2n(k, k, r)], o
            z = rng.normal() * 4
            yield "normal cdf", [m.norm_cdf_jit(z), m._norm_cdf(z), m.norm_cdf(z)], [F.ndtr(z)] * 3, dict(rtol=1e-9, atol=1e-14, inputs=dict(z=z))
            yield "normal cdf tails", [m._norm_cdf(40.0), m._norm_cdf(-40.0), m._norm_cdf(0.0), m._norm_cdf(7.5), m._norm_cdf(-7.5)], [1.0, 0.0, 0.5, F.ndtr(7.5), F.ndtr(-7.5)], dict(rtol=1e-4, atol=1e-15)
            if nm == "statfuncs" and abs(r) < 0.9:
                yield "older quadrature", m.binorm_cdf_old(h, k, r), b, o
                yield "five-point quadrature", m.binorm_l(h, k, r), F.bvn(-h, -k, r), dict(o, atol=2e-3 if abs(r) > 0.5 else 1e-5)
        ck.concrete("bivariate normal probability of " + nm, quad, 40)

    # ---- data and thresholds -------------------------------------------------------------
    def xy(p, q, seed=0, n=60):
        rng = np.random.default_rng(seed)
        z = rng.normal(size=(n, 2))
        z[:, 1] = 0.6 * z[:, 0] + 0.8 * z[:, 1]
        x = np.argsort(np.argsort(z[:, 0])) * p // n
        y = np.argsort(np.argsort(z[:, 1])) * q // n
        return x.astype(float), y.astype(float)

    def nll(tab, a, b, r):
        P = cells(lambda s, t: F.bvng(s, t, r), a, b)
        return -sum(tab[i][j] * np.log(P[i][j]) for i in range(len(a) - 1) for j in range(len(b) - 1))

    def jet(P, G1, H1, t):
        """terms with the given values, gradients and Hessians at t = 0: likelihoods are checked against the contract of the
        probabilities (any values, with any first and second derivatives)"""
        t = list(t)
        return P + sum(G1[..., k] * t[k] for k in range(len(t))) + sum(H1[..., k, l] * t[k] * t[l] / 2 for k in range(len(t)) for l in range(len(t)))

    def local(f, x, T, P, G1, H1, order):
        """derivatives, in x, of f(probabilities at T(x))"""
        y = T(x)
        c0 = [symvar("at%d" % k, S.lift(v).v) for k, v in enumerate(y)]
        out = f(jet(P, G1, H1, [a - b for a, b in zip(y, c0)]))
        for _ in range(order):
            out = jac(out, x) if np.ndim(x) else D(out, x)
        return substitute(out, list(zip(c0, y)))

    def symm(H):
        return (H + np.swapaxes(H, -1, -2)) / 2

    LL = lambda W: (lambda P: -sum(W[i][j] * np.log(P[i][j]) for i in range(W.shape[0]) for j in range(W.shape[1])))

    # ---- lvcorr._Polychor ------------------------------------------------------------------
    for p, q in ((2, 2), (2, 3)) + (((3, 3),) if ck.thorough else ()):
        def pc(c, a, b, w, r, p=p, q=q):
            # rows of the table are the categories of x (thresholds b), columns those of y (thresholds a)
            A, B = cat(a, c), cat(b, c)
            if c.sym:
                lv.polychor_thresh = lambda X: (A, B)
                m = lv._Polychor(*xy(p, q))
            else:
                o = lv.polychor_thresh
                lv.polychor_thresh = lambda X: (A, B)
                try:
                    m = lv._Polychor(*xy(p, q))
                finally:
                    lv.polychor_thresh = o
            m.vecx = w.reshape(-1)
            c.eq("second derivative of the bivariate normal probability", lambda: m._dphi(a[0], b[0], r), lambda: D(D(F.bvn(a[0], b[0], r), r), r))
            c.eq("second derivative at infinite thresholds", lambda: [lv._Polychor._dphi(m, t, u, 0.3) for t, u in ((1e6, 0.5), (-1e6, 0.5), (0.2, 1e6), (1e6, 1e6), (1e6, -1e6))], lambda: [0.0] * 5)
            if c.sym:
                m._dphi = G(0, 0, 2)
            P = lambda: np.array(cells(lambda s, t: F.bvng(s, t, r), B, A), dtype=object).reshape(-1)
            c.eq("cell probabilities", lambda: m.prob(r), P)
            c.eq("their derivative", lambda: m.dprob(r), lambda: [D(t, r) for t in P()])
            c.eq("their second derivative", lambda: m.gfunc(r), lambda: [D(D(t, r), r) for t in P()])
            L = lambda: nll(w, B, A, r)
            c.eq("negative log-likelihood", lambda: m.loglike(r), L)
            c.eq("gradient", lambda: m.gradient(r), lambda: D(L(), r))
            c.eq("Hessian", lambda: m.hessian(r), lambda: D(D(L(), r), r))
        ck.contract("_Polychor %dx%d" % (p, q), dict(a=incr(q - 1), b=incr(p - 1), w=pos((p, q)), r=(None, -0.7, 0.7)), pc, n=2, flips=0,
                    functions=[LV + "_Polychor." + f for f in ("__init__", "prob", "dprob", "_dphi", "gfunc", "loglike", "gradient", "hessian")], extra=lambda: (*extc(), (lv, "polychor_thresh", lv.polychor_thresh)), rtol=1e-7)

        # ---- Polychoric, PolychoricCorr --------------------------------------------------------
        for nm in ("Polychoric", "PolychoricCorr"):
            def pp(c, a, b, w, r, z, pr, dp, d2, p=p, q=q, nm=nm):
                base = getattr(lv, nm)
                x, y = xy(p, q)
                X = np.c_[x, y, (x + y) % 2]
                ths = {tuple(x): cat(a, c), tuple(y): cat(b, c)}

                class M(base):
                    def _get_threshold(self, v, outer=True):
                        return ths[tuple(v)] if tuple(v) in ths else base._get_threshold(self, np.asarray(v, dtype=float))
                m = M(pd.DataFrame(X))
                A, B = cat(a, c), cat(b, c)
                # table of variable 1 by variable 0
                for i, j in ((1, 0), (0, 1)):
                    if nm == "Polychoric":
                        m.Xtab[m.II_ind[1, 0]] = w
                        A_, B_ = (B, A) if m.IJ_ind[m.II_ind[1, 0]][0] == 1 else (A, B)
                        W = w
                    else:
                        m.xcounts[i][j] = w.reshape(-1)
                        A_, B_ = (B, A) if i == 1 else (A, B)
                        W = w if len(A_) - 1 == w.shape[0] else None
                        if W is None:
                            W = w.reshape(len(A_) - 1, len(B_) - 1)
                    if nm == "Polychoric" and w.shape != (len(A_) - 1, len(B_) - 1):
                        W = w.reshape(len(A_) - 1, len(B_) - 1)
                        m.Xtab[m.II_ind[1, 0]] = W
                    P = lambda: np.array(cells(lambda s, t: F.bvng(s, t, r), A_, B_), dtype=object)
                    L = lambda r=r: nll(W, A_, B_, r)
                    t = "(%d, %d) " % (i, j)
                    sh = (lambda v: np.asarray(v).reshape(len(A_) - 1, len(B_) - 1))
                    c.eq(t + "cell probabilities", lambda: sh(m.prob(r, i, j)), P)
                    c.eq(t + "their derivative", lambda: sh(m.dprob(r, i, j)), lambda: [[D(s, r) for s in u] for u in P()])
                    if nm == "PolychoricCorr":
                        c.eq(t + "second derivative of the bivariate normal probability", lambda: base._dphi(m, a[0], b[0], r), lambda: D(D(F.bvn(a[0], b[0], r), r), r))
                        if c.sym:
                            m._dphi = G(0, 0, 2)
                    g2 = "d2prob" if nm == "Polychoric" else "gfunc"
                    c.eq(t + "their second derivative", lambda: sh(getattr(m, g2)(r, i, j)), lambda: [[D(D(s, r), r) for s in u] for u in P()])
                    c.eq(t + "negative log-likelihood", lambda: m.loglike(r, i, j), L)
                # likelihood derivatives, for any values and derivatives of the cell probabilities
                L = LL(W)
                shp = np.shape(m.prob(r, 1, 0))
                m.prob, m.dprob = (lambda *a: pr.reshape(shp)), (lambda *a: dp.reshape(shp))
                setattr(m, g2, lambda *a: d2.reshape(shp))
                loc = lambda x, T, k: local(L, x, T, pr.reshape(W.shape), dp.reshape(W.shape + (1,)), d2.reshape(W.shape + (1, 1)), k)
                one, th = (lambda x: [x]), (lambda x: [np.tanh(x)])
                c.eq("gradient", lambda: m.gradient(r, i, j), lambda: loc(r, one, 1))
                c.eq("Hessian", lambda: m.hessian(r, i, j), lambda: loc(r, one, 2))
                c.eq("tanh gradient", lambda: m.gradient_tanh(z, i, j), lambda: loc(z, th, 1))
                c.eq("tanh Hessian", lambda: m.hessian_tanh(z, i, j), lambda: loc(z, th, 2))
                m.prob = lambda r, *a: vec([r]) if c.sym else np.array([r])
                c.eq("tanh negative log-likelihood", lambda: m.loglike_tanh(z, i, j), lambda: m.loglike(np.tanh(z), i, j))
            ck.contract("%s %dx%d" % (nm, p, q), dict(a=incr(p - 1), b=incr(q - 1), w=pos((p, q)), r=(None, -0.7, 0.7), z=(None, -0.9, 0.9), pr=((p, q), 0.05, 0.4), dp=((p, q), -1, 1), d2=((p, q), -1, 1)), pp, n=2, flips=0,
                        functions=[LV + nm + "." + f for f in ("__init__", "_init_crosstab", "prob", "dprob", "loglike", "gradient", "hessian", "loglike_tanh", "gradient_tanh", "hessian_tanh", "d2prob" if nm == "Polychoric" else "gfunc")], extra=extc, rtol=1e-7)

    # ---- Polyserial ------------------------------------------------------------------------
    for k in (2, 3):
        def ps(c, x, t, r, k=k):
            y = np.arange(5) % k
            m = lv.Polyserial(np.linspace(-1, 2, 5) ** 2, y)
            tt = ([-np.inf, *t, np.inf])
            m.x = x
            up = [tt[j + 1] for j in y]
            dn = [tt[j] for j in y]
            m.tau1, m.tau2 = (vec(dn), vec(up)) if c.sym else (np.array(dn, float), np.array(up, float))
            q = lambda r=r: np.sqrt(1 - r * r)

            def P(r=r):
                out = []
                for i in range(5):
                    hi = F.ndtr((up[i] - r * x[i]) / np.sqrt(1 - r * r)) if up[i] is not np.inf and not (isinstance(up[i], float) and np.isinf(up[i])) else 1.0
                    lo = F.ndtr((dn[i] - r * x[i]) / np.sqrt(1 - r * r)) if dn[i] is not np.inf and not (isinstance(dn[i], float) and np.isinf(dn[i])) else 0.0
                    out.append(hi - lo)
                return out
            L = lambda: -sum(np.log(v) for v in P())
            if c.sym:
                # infinite thresholds stand outside the symbolic domain: large ones in their place
                big = [-60.0, *t, 60.0]
                m.tau1, m.tau2 = vec([big[j] for j in y]), vec([big[j + 1] for j in y])
                up, dn = [big[j + 1] for j in y], [big[j] for j in y]
            c.eq("conditional probabilities", lambda: m.prob(r), lambda: P())
            c.eq("negative log-likelihood", lambda: m.loglike(r), lambda: L())
            c.eq("gradient", lambda: m.gradient(r), lambda: D(L(), r))
            c.near("Hessian (difference of gradients)", lambda: m.hessian(r), lambda: [[(m.gradient(r + 1e-5) - m.gradient(r - 1e-5)) / 2e-5]], rtol=2e-4, atol=1e-3)
        ck.contract("Polyserial %d categories" % k, dict(x=((5,), -1.5, 1.5), t=incr(k - 1, -0.9), r=(None, -0.8, 0.8)), ps, n=2, flips=0,
                    functions=[LV + "Polyserial." + f for f in ("prob", "loglike", "gradient", "hessian")], extra=extc, rtol=1e-7)

    # ---- Polychor (both versions): thresholds and correlation jointly -------------------------
    for nm, m, pre in (("polychoric", p1, P1), ("polychoric2", p2, P2)):
        for p, q in ((2, 2), (3, 2)) + (((3, 3),) if ck.thorough else ()):
            def jp(c, a, b, w, r, z, pr, g1, h1, m=m, p=p, q=q, nm=nm):
                x, y = xy(p, q)
                M = m.Polychor(pd.DataFrame(np.c_[y, x, (x + y) % 2], columns=list("abc")))
                i1, i2 = 1, 0
                M.counts[M.II_ind[i1, i2]] = w
                th = vec([*a, *b, r]) if c.sym else np.r_[a, b, r]
                A, B, _ = M.unpack_params_full(th, i1, i2)
                c.eq("parameters are thresholds of the row variable, of the column variable, then the correlation", lambda: np.concatenate([A[1:-1], B[1:-1], np.array([_], dtype=object)]), lambda: th)
                c.holds("outer thresholds are infinite for practical purposes", lambda: A[0] < -40 and B[0] < -40 and A[-1] > 40 and B[-1] > 40)
                P = lambda: np.array(cells(lambda s, t: F.bvng(s, t, r), A, B), dtype=object)
                L = lambda: nll(w, A, B, r)
                c.eq("cell probabilities", lambda: M.predicted_probs(i1, i2, params=th), P)
                c.eq("cell probabilities and their gradient [0]", lambda: M.dprob_dparams(th, i1, i2)[0], P)
                c.eq("gradient of the probabilities", lambda: M.dprob_dparams(th, i1, i2)[1], lambda: [[jac(s, th) for s in u] for u in P()])
                c.eq("Hessians of the probabilities", lambda: M.dprob_dparams(th, i1, i2, order=2)[2], lambda: [[hess(s, th) for s in u] for u in P()])
                c.eq("negative log-likelihood", lambda: M.loglike(th, i1, i2), L)
                # correlation alone, thresholds fixed
                M.tauo[i1], M.tauo[i2] = A, B
                c.eq("cell probabilities, thresholds fixed", lambda: M.predicted_probs(i1, i2, r=r), P)
                c.eq("cell probabilities, thresholds fixed [0]", lambda: M.dprob_dr(r, i1, i2)[0], P)
                c.eq("their derivative", lambda: M.dprob_dr(r, i1, i2)[1], lambda: [[D(s, r) for s in u] for u in P()])
                c.eq("their second derivative", lambda: M.dprob_dr(r, i1, i2, order=2)[2], lambda: [[D(D(s, r), r) for s in u] for u in P()])
                c.eq("two-step negative log-likelihood", lambda: M.qloglike(r, i1, i2), L)
                if nm == "polychoric2":
                    W = m._PairWorkspace(M, i1, i2, r)
                    c.eq("workspace: cell probabilities", lambda: W.prob, P)
                    c.eq("workspace: their derivative", lambda: W.dp_dr, lambda: [[D(s, r) for s in u] for u in P()])
                    c.eq("workspace: their second derivative", lambda: W.d2p_dr2, lambda: [[D(D(s, r), r) for s in u] for u in P()])
                    c.eq("workspace negative log-likelihood", lambda: W.loglike(), L)
                # likelihood derivatives, for any values and derivatives of the cell probabilities
                h2 = symm(h1)
                M.dprob_dparams = lambda params, i1, i2, order=1: (pr, g1) if order < 2 else (pr, g1, h2)
                M.dprob_dr = lambda r, i1, i2, order=1: (pr, g1[..., 0]) if order < 2 else (pr, g1[..., 0], h2[..., 0, 0])
                one, tz = (lambda x: [x]), (lambda x: [np.tanh(x)])
                loc = lambda x, T, k: local(LL(w), x, T, pr, g1[..., :1], h2[..., :1, :1], k)
                c.eq("gradient", lambda: M.gradient(th, i1, i2), lambda: local(LL(w), th, list, pr, g1, h2, 1))
                c.eq("Hessian", lambda: M.hessian(th, i1, i2), lambda: local(LL(w), th, list, pr, g1, h2, 2))
                c.eq("two-step gradient", lambda: M.qgradient(r, i1, i2), lambda: loc(r, one, 1))
                c.eq("two-step Hessian", lambda: M.qhessian(r, i1, i2), lambda: loc(r, one, 2))
                zz = vec([z]) if c.sym else np.array([z])
                c.eq("two-step gradient, tanh", lambda: M.qgradient_transformed(zz, i1, i2), lambda: [loc(z, tz, 1)])
                c.eq("two-step Hessian, tanh", lambda: M.qhessian_transformed(zz, i1, i2), lambda: [[loc(z, tz, 2)]])
                M.qloglike = lambda x, *a: np.sin(np.sum(x))
                c.eq("two-step, tanh", lambda: M.qloglike_transformed(zz, i1, i2), lambda: [np.sin(np.tanh(z))])
                if nm == "polychoric2":
                    W = m._PairWorkspace(M, i1, i2, r)
                    W.prob, W.dp_dr, W.d2p_dr2 = pr, g1[..., 0], h2[..., 0, 0]
                    c.eq("workspace gradient", lambda: W.score(), lambda: loc(r, one, 1))
                    c.eq("workspace Hessian", lambda: W.hessian(), lambda: loc(r, one, 2))
            fns = [pre + "Polychor." + f for f in ("unpack_params_full", "predicted_probs", "loglike", "qloglike", "dprob_dparams", "dprob_dr", "gradient", "hessian", "qgradient", "qhessian", "qloglike_transformed", "qgradient_transformed", "qhessian_transformed")]
            ck.contract("%s.Polychor %dx%d" % (nm, p, q), dict(a=incr(p - 1), b=incr(q - 1), w=pos((p, q)), r=(None, -0.7, 0.7), z=(None, -0.9, 0.9), pr=((p, q), 0.05, 0.4), g1=((p, q, p + q - 1), -1, 1), h1=((p, q, p + q - 1, p + q - 1), -1, 1)), jp, n=2, flips=0,
                        functions=fns + ([pre + "_PairWorkspace"] if nm == "polychoric2" else []), extra=extc, rtol=1e-6)

        def tr(c, u, f1, f2, p=2, q=2, m=m, nm=nm):
            # chain rule, for any log-likelihood with gradient f1 and Hessian f2 in thresholds and correlation
            x, y = xy(p, q)
            M = m.Polychor(pd.DataFrame(np.c_[y, x], columns=list("ab")))
            o = lambda v: [v[0]] + [v[0] + sum(np.exp(t) for t in v[1:k + 1]) for k in range(1, len(v))]
            T = lambda u: [*o(u[:p - 1]), *o(u[p - 1:p + q - 2]), np.tanh(u[-1])]
            F2 = symm(f2)
            seen = []
            M.gradient = lambda th, *a: (seen.append(th), f1)[1]
            M.hessian = lambda th, *a: (seen.append(th), F2)[1]
            M.loglike = lambda th, *a: (seen.append(th), np.sum(np.sin(th)))[1]
            lo = lambda k: local(lambda P: P, u, T, 0.0, f1, F2, k)
            c.eq("transformed negative log-likelihood", lambda: M.loglike_transformed(u, 1, 0), lambda: sum(np.sin(t) for t in T(u)))
            c.eq("transformed gradient", lambda: M.gradient_transformed(u, 1, 0), lambda: lo(1))
            c.eq("transformed Hessian", lambda: M.hessian_transformed(u, 1, 0), lambda: lo(2))
            c.eq("evaluated at the transformed parameters", lambda: np.array([seen[0], seen[1], seen[2], seen[3]], dtype=object if c.sym else float), lambda: [T(u)] * 4)
        for p, q in ((2, 2), (3, 2)):
            ck.contract("%s.Polychor transformed %dx%d" % (nm, p, q), dict(u=((p + q - 1,), -0.6, 0.4), f1=((p + q - 1,), -1, 1), f2=((p + q - 1,) * 2, -1, 1)), lambda c, u, f1, f2, p=p, q=q, tr=tr: tr(c, u, f1, f2, p, q), n=1, flips=0,
                        functions=[pre + "Polychor." + f for f in ("loglike_transformed", "gradient_transformed", "hessian_transformed")], extra=extc, rtol=1e-7)

    # ---- construction and fitting (run-time contracts) ----------------------------------------
    def data(rng, p=3, n=None, nan=False, gaps=False):
        n = int(n or rng.integers(80, 200))
        L = rng.normal(size=(p, p + 1))
        Z = rng.normal(size=(n, p + 1)) @ L.T
        Z = Z / np.sqrt((L ** 2).sum(1)) + 0.7 * rng.normal(size=(n, p))
        X = np.zeros((n, p))
        for j in range(p):
            k = int(rng.integers(2, 5))
            cuts = np.sort(rng.choice(np.arange(-1.0, 1.01, 0.25), size=k - 1, replace=False))
            X[:, j] = np.digitize(Z[:, j], cuts)
            X[:, j] = np.unique(X[:, j], return_inverse=True)[1]
            if gaps:
                X[:, j] = X[:, j] * 2 + rng.integers(-3, 3)
        if nan:
            X[rng.uniform(size=X.shape) < 0.1] = np.nan
        return X

    def thr(x):
        x = x[~np.isnan(x)]
        return F.ndtri(np.cumsum(np.unique(x, return_counts=True)[1])[:-1] / len(x))

    def probs(a, b, r):
        f = lambda s, t: (0.0 if s == -np.inf or t == -np.inf else F.ndtr(t) if s == np.inf else F.ndtr(s) if t == np.inf else F.bvn(s, t, r)) if not (s == np.inf and t == np.inf) else 1.0
        return np.array(cells(f, np.r_[-np.inf, a, np.inf], np.r_[-np.inf, b, np.inf]), dtype=float)

    def table(x, y):
        ok = ~(np.isnan(x) | np.isnan(y))
        ux, uy = np.unique(x[~np.isnan(x)]), np.unique(y[~np.isnan(y)])
        return np.array([[np.sum((x[ok] == s) & (y[ok] == t)) for t in uy] for s in ux], float)

    def prof(x, y, a=None, b=None):
        a, b = thr(x) if a is None else a, thr(y) if b is None else b
        W = table(x, y)
        # cells of probability below 1e-8 are differences of nearly equal numbers: log(probability) is not compared there
        return lambda r: -np.sum(W * np.log(np.maximum(probs(a, b, r), 1e-16))) if np.min(probs(a, b, r)) > 1e-8 else None

    def fit1(rng, i):
        X = data(rng, 2)
        m = lv._Polychor(df=X) if i % 2 else lv._Polychor(x=X[:, 0], y=X[:, 1])
        o = dict(rtol=1e-8, atol=1e-10, inputs=dict(X=X))
        f = prof(X[:, 0], X[:, 1])
        for r in (-0.85, 0.0, 0.4, 0.97):
            pr = m.prob(r)
            yield "cell probabilities of the fitted thresholds", pr, probs(thr(X[:, 0]), thr(X[:, 1]), r).reshape(-1), o
            yield "probabilities sum to one and are not negative", [np.sum(pr), min(0.0, np.min(pr))], [1.0, 0.0], dict(o, atol=1e-9)
            if f(r) is not None:
                yield "negative log-likelihood of the table", m.loglike(r), f(r), dict(o, rtol=1e-6)
        m.fit()
        r = m.rho_hat
        yield "score is zero at the estimate", m.gradient(r) / np.sqrt(m.hessian(r)), 0.0, dict(o, atol=1e-3)
        yield "standard error", m.se_rho, 1 / np.sqrt(m.hessian(r)), o
        yield "no better correlation nearby", min([0.0] + [f(r + d) - f(r) for d in (-0.02, 0.02) if abs(r + d) < 0.999 and f(r + d) is not None and f(r) is not None]), 0.0, dict(o, atol=1e-7)
    ck.concrete("_Polychor on data", fit1, 8)

    def fit2(rng, i):
        X = data(rng, 3, nan=bool(i % 2))
        if i % 4 == 3:                                       # a category without complete pairs
            X[0, 0], X[0, 1] = 9.0, np.nan
        n, p = X.shape
        o = dict(rtol=1e-8, atol=1e-10, inputs=dict(X=X))
        A, B = lv.Polychoric(pd.DataFrame(X)), lv.PolychoricCorr(pd.DataFrame(X))
        for a in range(p):
            yield "thresholds", A.Thresholds[a][1:-1], thr(X[:, a]), o
            yield "inner thresholds", A._get_threshold(X[:, a], outer=False), thr(X[:, a]), o
            yield "thresholds (PolychoricCorr)", B.taus[a][1:-1], thr(X[:, a]), o
        for a, b in ((1, 0), (2, 0), (2, 1), (0, 1), (1, 2)):
            ok = ~np.isnan(X[:, [a, b]]).any(axis=1)
            xa, xb = X[ok, a], X[ok, b]
            f, g = prof(X[:, a], X[:, b]), prof(xa, xb)
            for r in (-0.6, 0.3, 0.95):
                pb = B.prob(r, a, b)
                yield "cell probabilities (PolychoricCorr)", pb, probs(thr(xa), thr(xb), r).reshape(-1), o
                yield "probabilities sum to one (PolychoricCorr)", [np.sum(pb), min(0.0, np.min(pb))], [1.0, 0.0], dict(o, atol=1e-9)
                if g(r) is not None:
                    yield "negative log-likelihood (PolychoricCorr)", B.loglike(r, a, b), g(r), dict(o, rtol=1e-6)
                if a > b:
                    pa = A.prob(r, a, b)
                    yield "cell probabilities (Polychoric)", pa, probs(thr(X[:, a]), thr(X[:, b]), r), o
                    yield "probabilities sum to one (Polychoric)", [np.sum(pa), min(0.0, np.min(pa))], [1.0, 0.0], dict(o, atol=1e-9)
                    if f(r) is not None:
                        yield "negative log-likelihood (Polychoric)", A.loglike(r, a, b), f(r), dict(o, rtol=1e-6)
        for nm, m, lab in (("Polychoric", A, prof), ("PolychoricCorr", B, None)):
            m.fit()
            yield nm + ": symmetric with unit diagonal", [m.R - m.R.T, np.diag(np.diag(m.R) - 1)], np.zeros((2, p, p)), o
            for a in range(p):
                for b in range(a):
                    r = m.R[a, b]
                    yield nm + ": score is zero at the estimate", m.gradient(r, a, b) * m.R_se[a, b], 0.0, dict(o, atol=1e-3)
                    yield nm + ": standard error", m.R_se[a, b], 1 / np.sqrt(m.hessian(r, a, b)), o
        if i % 4 != 3:
            perm = [2, 0, 1]
            for nm, m in (("Polychoric", A), ("PolychoricCorr", B)):
                m2 = getattr(lv, nm)(pd.DataFrame(X[:, perm]))
                m2.fit()
                yield nm + ": order of the variables", m2.R, m.R[np.ix_(perm, perm)], dict(o, atol=1e-4)
    ck.concrete("Polychoric and PolychoricCorr on data", fit2, 4)

    def fit3(rng, i):
        n = int(rng.integers(60, 150))
        r0 = rng.uniform(-0.8, 0.8)
        z = rng.normal(size=n)
        k = int(rng.integers(2, 5))
        y = np.digitize(r0 * z + np.sqrt(1 - r0 ** 2) * rng.normal(size=n), np.sort(rng.choice(np.arange(-1.0, 1.01, 0.25), k - 1, replace=False)))
        x = z * 3 + 5
        m = lv.Polyserial(x, y)
        o = dict(rtol=1e-8, atol=1e-10, inputs=dict(x=x, y=y))
        t = np.r_[-np.inf, thr(y.astype(float)), np.inf]
        c = np.unique(y, return_inverse=True)[1]
        zs = (x - x.mean()) / x.std()

        def ll(r):
            s = np.sqrt(1 - r * r)
            return -np.sum(np.log(F.ndtr((t[c + 1] - r * zs) / s) - F.ndtr((t[c] - r * zs) / s)))
        for r in (-0.7, 0.0, 0.5):
            yield "negative log-likelihood of the mixed data", m.loglike(r), ll(r), o
            yield "gradient", m.gradient(r), (ll(r + 1e-6) - ll(r - 1e-6)) / 2e-6, dict(o, rtol=1e-5, atol=1e-3)
        yield "units of the continuous variable", lv.Polyserial(x * 7 - 2, y).loglike(0.3), m.loglike(0.3), o
        yield "data frame", lv.Polyserial(df=pd.DataFrame(dict(x=x, y=y))).loglike(0.3), m.loglike(0.3), o
        m.fit()
        yield "score is zero at the estimate", m.gradient(m.rho_hat) * m.se_rho, [0.0], dict(o, atol=1e-3)
        yield "standard error", m.se_rho ** -2, [(m.gradient(m.rho_hat + 1e-5) - m.gradient(m.rho_hat - 1e-5)) / 2e-5], dict(o, rtol=1e-4)
    ck.concrete("Polyserial on data", fit3, 8)

    def influence(X, m, pairs, rho):
        """per-observation influence of the two-step estimator (thresholds first, expected information)"""
        out = []
        for (i1, i2), r in zip(pairs, rho):
            a, b = thr(X[:, i1]), thr(X[:, i2])
            P = probs(a, b, r)
            e = 1e-6
            dr = (probs(a, b, r + e) - probs(a, b, r - e)) / (2 * e)
            al = dr / P
            v = np.array([al[s, t] for s, t in zip(np.unique(X[:, i1], return_inverse=True)[1], np.unique(X[:, i2], return_inverse=True)[1])])
            for x, th, side in ((X[:, i1], a, 0), (X[:, i2], b, 1)):
                code = np.unique(x, return_inverse=True)[1]
                for k in range(len(th)):
                    ek = np.zeros(len(th))
                    ek[k] = e
                    dt = (probs(a + ek, b, r) - probs(a - ek, b, r)) / (2 * e) if side == 0 else (probs(a, b + ek, r) - probs(a, b - ek, r)) / (2 * e)
                    inf = ((code <= k) - F.ndtr(th[k])) / (np.exp(-th[k] ** 2 / 2) / np.sqrt(2 * np.pi))
                    v = v - np.sum(al * dt) * inf
            out.append(v / np.sum(dr ** 2 / P))
        out = np.array(out)
        return out @ out.T / out.shape[1]

    def fit4(rng, i):
        X = data(rng, 3, gaps=bool(i % 2))
        o = dict(rtol=1e-8, atol=1e-10, inputs=dict(X=X))
        res = {}
        for nm, mod in (("polychoric", p1), ("polychoric2", p2)):
            m = mod.Polychor(pd.DataFrame(X.astype(int), columns=list("abc")))
            for a in range(3):
                yield nm + ": thresholds", m.tauo[a][1:-1], thr(X[:, a]), o
            pairs = [tuple(int(v) for v in t) for t in m.inds1]
            for k, (a, b) in enumerate(pairs):
                yield nm + ": table of the pair", m.counts[k], table(X[:, a], X[:, b]), o
                for r in (-0.6, 0.3, 0.95):
                    P = m.predicted_probs(a, b, r=r)
                    yield nm + ": cell probabilities", P, probs(thr(X[:, a]), thr(X[:, b]), r), o
                    yield nm + ": probabilities sum to one", [np.sum(P), min(0.0, np.min(P))], [1.0, 0.0], dict(o, atol=1e-9)
                    if prof(X[:, a], X[:, b])(r) is not None:
                        yield nm + ": two-step negative log-likelihood", m.qloglike(r, a, b), prof(X[:, a], X[:, b])(r), dict(o, rtol=1e-6)
            m.fit()
            rho = m.rhos if nm == "polychoric" else m.rho_hat
            res[nm] = np.array(rho)
            for k, (a, b) in enumerate(pairs):
                h = m.qhessian(rho[k], a, b)
                yield nm + ": score is zero at the estimate", m.qgradient(rho[k], a, b) / np.sqrt(h), 0.0, dict(o, atol=1e-3)
            V = influence(X, m, pairs, rho) / (len(X) if nm == "polychoric2" else 1)
            if min(np.min(probs(thr(X[:, a]), thr(X[:, b]), r)) for (a, b), r in zip(pairs, rho)) < 1e-6:
                continue
            yield nm + ": asymptotic covariance of the two-step estimates", m.acov, V, dict(o, rtol=2e-3, atol=1e-3 * np.max(V))
            if nm == "polychoric2":
                yield "standard errors", m.rho_se, np.sqrt(np.diag(m.acov)), o
                yield "loop version of the covariance", m.get_acov_loop(), m.acov, dict(o, rtol=1e-6, atol=1e-12)
                yield "correlation matrix", [m.R_hat[a, b] for a, b in pairs], rho, o
                yield "symmetric correlation matrix", m.R_hat, m.R_hat.T, o
            # thresholds and correlation jointly
            k = i % 3
            a, b = pairs[k]
            m._fit(a, b, method="onestep") if nm == "polychoric" else m._fit_fml(a, b)
            th = m.params[k] if nm == "polychoric" else m._fit_fml(a, b)[1]
            gz = m.gradient(th, a, b)
            yield nm + ": joint score is zero at the estimate", gz @ np.linalg.solve(m.hessian(th, a, b), gz), 0.0, dict(o, atol=1e-4)
        yield "two implementations agree", res["polychoric"], res["polychoric2"], dict(o, atol=1e-4)
    ck.concrete("Polychor on data", fit4, 3)
