"""C21 additive models: likelihood derivatives, implicit derivatives of the coefficients, REML criteria"""
import copy
import importlib
from math import factorial
import numpy as np
import pandas as pd
from vf.core import D, substitute
from vf.sym import F, S, SArr, symvar, symarray

G = "pystatsm/pygam/gauls.py::"
A = "pystatsm/pygam/gam.py::GAM."
GA = "pystatsm/pygam/gaussian_additive_model.py::GaussianAdditiveModel."


def vec(v):
    return np.array(list(v), dtype=object).view(SArr)


def num(a):
    """the values behind an array of terms"""
    a = np.asarray(a, dtype=object)
    return np.array([float(e.v) if isinstance(e, S) else float(e) for e in a.ravel()]).reshape(a.shape)


def d1(e, x, o=1):
    for _ in range(o):
        e = D(e, x) if isinstance(e, S) else 0.0
    return e


def at0(e, dr):
    return substitute(e, [(d, 0.0) for d in dr]) if isinstance(e, S) else e


class Pot:
    """a function of one or two predictors per observation with arbitrary derivatives up to order four at a point: the contract of
    a log-likelihood whose derivatives at that point are the values L[order][:, number of times the second predictor]"""

    def __init__(self, L, at):
        self.L, self.at = L, at

    def d(self, n, eta, p, q=0):
        a = eta[0][n] - self.at[0][n]
        b = eta[1][n] - self.at[1][n] if len(eta) > 1 else None
        out = 0.0
        for k in range(len(self.L)):
            for j in range(k + 1 if b is not None else 1):
                i = k - j
                if i < p or j < q:
                    continue
                t = self.L[k][n, j] / (factorial(i - p) * factorial(j - q))
                if i > p:
                    t = t * a ** (i - p)
                if j > q:
                    t = t * b ** (j - q)
                out = out + t
        return out


def run(ck):
    gl = importlib.import_module("pystatsm.pygam.gauls")
    gm = importlib.import_module("pystatsm.pygam.gam")
    ga = importlib.import_module("pystatsm.pygam.gaussian_additive_model")
    lk = importlib.import_module("pystatsm.pyglm.links")
    fam = importlib.import_module("pystatsm.pyglm.families")
    rng0 = np.random.default_rng(5)
    data0 = pd.DataFrame(dict(x=rng0.uniform(size=25), z=rng0.uniform(size=25)))
    data0["y"] = np.sin(4 * data0.x) + rng0.normal(size=25) * 0.3 + 3

    template = {k: k("y~1+s(x, df=4)+s(z, df=4)", data0) for k in (gm.GAM, ga.GaussianAdditiveModel)}
    template[gl.GauLS] = gl.GauLS("y~1+s(x, df=4)", "y~1+s(z, df=4)", data0)

    # ---- the log-b link ------------------------------------------------------------------
    def logb(c, mu, eta, b):
        L = gl.LogbLink(b)
        g = lambda m: np.log(1 / m - b)
        gi = lambda e: 1 / (np.exp(e) + b)
        c.eq("link", lambda: L.link(mu), lambda: g(mu))
        c.eq("inverse", lambda: L.inv_link(eta), lambda: gi(eta))
        c.eq("inverse of the link", lambda: L.inv_link(L.link(mu)), lambda: mu)
        c.eq("derivative of the inverse", lambda: L.dinv_link(eta), lambda: D(gi(eta), eta))
        for o, nm in ((2, "d2link"), (3, "d3link"), (4, "d4link")):
            c.eq(nm, lambda nm=nm: getattr(L, nm)(mu), lambda o=o: d1(g(mu), mu, o))
        L0 = gl.LogbLink()
        c.eq("default", lambda: L0.link(mu), lambda: np.log(1 / mu - 0.01))
    ck.contract("LogbLink", dict(mu=(None, 0.05, 2), eta=(None, -3, 3), b=(None, 0.01, 0.4)), logb, functions=[G + "LogbLink"])

    # ---- location-scale models ---------------------------------------------------------------
    def gauls(m_link, s_link, Xm, Xs, y, Sm=None, Ss=None, w=None, ranks=None, ld=None, mp=None):
        """a model object of the real class with the given arrays in it"""
        m = copy.copy(template[gl.GauLS])
        m.m, m.s = copy.copy(m.m), copy.copy(m.s)
        n, p = Xm.shape
        q = Xs.shape[1]
        Sm = np.zeros((0, p, p)) if Sm is None else Sm
        Ss = np.zeros((0, q, q)) if Ss is None else Ss
        m.m.X, m.s.X, m.m.y, m.y, m.w = Xm, Xs, y, y, w
        m.m.link, m.s.link = m_link, s_link
        m.X = {0: Xm, 1: Xs}
        m.Xt = np.concatenate([Xm, Xs], axis=1)
        m.ixm, m.ixs = np.arange(p), np.arange(p, p + q)
        m.nxm, m.nxs, m.nx = p, q, p + q
        m.ns_m, m.ns_s, m.ns = len(Sm), len(Ss), len(Sm) + len(Ss)
        m.m.S, m.s.S = Sm, Ss
        m.m.n_obs = m.s.n_obs = n
        Z = np.zeros((m.ns, p + q, p + q), dtype=object if any(np.asarray(t).dtype == object for t in (Sm, Ss)) else float)
        Z = Z.view(SArr) if Z.dtype == object else Z
        for i in range(len(Sm)):
            Z[i, :p, :p] = Sm[i]
        for i in range(len(Ss)):
            Z[len(Sm) + i, p:, p:] = Ss[i]
        m.S = Z
        ranks = [1] * m.ns if ranks is None else ranks
        m.ranks = list(ranks)
        m.m.ranks, m.s.ranks = list(ranks[:len(Sm)]), list(ranks[len(Sm):])
        ld = [0.0] * m.ns if ld is None else ld
        m.m.ldS, m.s.ldS = list(ld[:len(Sm)]), list(ld[len(Sm):])
        m.m.ns, m.s.ns = len(Sm), len(Ss)
        m.m.nx, m.s.nx = p, q
        m.mp = (m.nx - sum(ranks)) if mp is None else mp
        m.theta = np.ones(m.ns)
        return m

    def nll(ml, sl, u, v, y):
        mu, tau = ml.inv_link(u), sl.inv_link(v)
        return 0.5 * (y - mu) ** 2 * tau ** 2 + 0.5 * np.log(2 * F.pi) - np.log(tau)

    PAIRS = [("identity, log-b", lk.IdentityLink, gl.LogbLink, (-1, 1)), ("log, log-b", lk.LogLink, gl.LogbLink, (-1, 1)),
             ("log, log", lk.LogLink, lk.LogLink, (-1, 1)), ("identity, identity", lk.IdentityLink, lk.IdentityLink, (0.5, 1.5)), ("reciprocal, log-b", lk.ReciprocalLink, gl.LogbLink, (0.5, 1.5))]
    for nm, ml, sl, rg in PAIRS:
        def eta(c, u, v, y, w, ml=ml(), sl=sl()):
            I = np.eye(2)
            z = np.zeros((2, 2))
            for lab, ww in (("", None), ("weighted ", w)):
                m = gauls(ml, sl, I, I, y, w=ww)
                wt = [1.0, 1.0] if ww is None else w
                l = lambda n: -wt[n] * nll(ml, sl, u[n], v[n], y[n])
                b = vec([*u, *v]) if c.sym else np.r_[u, v]
                c.eq(lab + "negative log-likelihood", lambda: m.loglike(b), lambda: -sum(l(n) for n in range(2)))
                for k in range(1, 5):
                    c.eq(lab + "derivatives of order %d" % k, lambda: m.ll_eta_derivs(u, v)[k - 1],
                         lambda: [[d1(d1(l(n), u[n], k - j), v[n], j) for j in range(k + 1)] for n in range(2)])
                    c.eq(lab + "derivatives of order %d when no more are wanted" % k, lambda: m.ll_eta_derivs(u, v, deriv_order=k)[k - 1], lambda: m.ll_eta_derivs(u, v)[k - 1])
        ck.contract("derivatives with respect to the predictors: " + nm, dict(u=((2,), *((0.5, 1.5) if "reciprocal" in nm else (-1, 1))), v=((2,), *rg), y=((2,), -2, 2), w=((2,), 0.3, 2)), eta, n=2, flips=0,
                    functions=[G + "GauLS.ll_eta_derivs", G + "GauLS.loglike"])

    def real(ml, sl, X, Z, y, b0, w):
        """derivatives of the log-likelihood of each observation at the coefficients b0, by the real code"""
        m = gauls(ml, sl, num(X), num(Z), num(y), w=None if w is None else num(w))
        p = X.shape[1]
        b = num(b0)
        L = m.ll_eta_derivs(b[:p], b[p:])
        u, v = num(X) @ b[:p], num(Z) @ b[p:]
        one = [gauls(ml, sl, np.eye(1), np.eye(1), num(y)[n:n + 1], w=None if w is None else num(w)[n:n + 1]) for n in range(len(u))]
        L0 = np.array([[-o.loglike(np.array([u[n], v[n]]))] for n, o in enumerate(one)])
        return [L0, *L]

    def generic(c, m, X, Z, b0, y, w, opt=None, pre="L"):
        """symbolic mode: replace the log-likelihood by one with arbitrary derivatives up to order four (its contract), valued as the real ones"""
        if not c.sym:
            return m
        p = X.shape[1]
        L = [symarray("%s%d" % (pre, k), v) for k, v in enumerate(real(m.m.link, m.s.link, X, Z, y, b0, w))]
        if opt is not None:
            opt(L)
        P = Pot(L, (X @ b0[:p], Z @ b0[p:]))
        N = len(X)

        def derivs(bm, bs, deriv_order=4):
            e = (X @ bm, Z @ bs)
            out = [np.array([[P.d(n, e, k - j, j) for j in range(k + 1)] for n in range(N)], dtype=object).view(SArr) if k <= max(deriv_order, 1) else None for k in range(1, 5)]
            return tuple(out)
        m.ll_eta_derivs = derivs
        m.loglike = lambda b: -sum(P.d(n, (X @ b[:p], Z @ b[p:]), 0) for n in range(N))
        m.pot = P
        return m

    IDL = (lk.IdentityLink(), gl.LogbLink())
    LGL = (lk.LogLink(), gl.LogbLink())

    def betas(c, X, Z, b, y, w, pen, ls=IDL):
        n, p = X.shape
        q = Z.shape[1]
        for lab, ww in (("", None), ("weighted: ", w)):
            m = generic(c, gauls(*ls, X, Z, y, w=ww), X, Z, b, y, ww, pre="L" if ww is None else "W")
            # derivatives along the coefficients: differentiate the real negative log-likelihood (of the generic function)
            bb = [symvar("bb%d" % i, float(b[i].v)) for i in range(p + q)] if c.sym else None
            ll = (lambda: m.loglike(vec(bb))) if c.sym else None
            sub = lambda e: substitute(e, [(x, b[i]) for i, x in enumerate(bb)])
            g = lambda: vec([sub(D(ll(), x)) for x in bb])
            H = lambda: np.array([[sub(D(D(ll(), x), z)) for x in bb] for z in bb], dtype=object).view(SArr)
            c.eq(lab + "gradient", lambda: m.grad_ll_beta(b), g)
            c.eq(lab + "Hessian", lambda: m.hess_ll_beta(b), H)
            if ww is None:
                c.eq("penalised negative log-likelihood", lambda: m.penalized_loglike(b, pen), lambda: m.loglike(b) + sum(b[i] * pen[i, j] * b[j] for i in range(p + q) for j in range(p + q)) / 2)
                c.eq("penalised gradient (symmetric penalty)", lambda: m.grad_pll_beta(b, (pen + pen.T) / 2), lambda: g() + (pen + pen.T) / 2 @ b)
                c.eq("penalised Hessian", lambda: m.hess_pll_beta(b, pen), lambda: H() + pen)
    ck.contract("derivatives with respect to the coefficients", dict(X=((3, 2), -1.5, 1.5), Z=((3, 2), -1, 1), b=((4,), -1, 1), y=((3,), -2, 2), w=((3,), 0.3, 2), pen=((4, 4), -1, 1)), betas, n=2, flips=0,
                functions=[G + "GauLS." + f for f in ("grad_ll_beta", "hess_ll_beta", "penalized_loglike", "grad_pll_beta", "hess_pll_beta")])

    def penm(c, lam, Sm, Ss):
        m = gauls(*IDL, np.ones((3, 2)), np.ones((3, 2)), np.ones(3), Sm, Ss)
        c.eq("penalty matrix", lambda: m.get_penalty_mat(lam), lambda: [[sum(lam[k] * Sm[k, i, j] for k in range(2)) if i < 2 and j < 2 else sum(lam[2 + k] * Ss[k, i - 2, j - 2] for k in range(1)) if i >= 2 and j >= 2 else 0.0 for j in range(4)] for i in range(4)])
    ck.contract("penalty matrix", dict(lam=((3,), 0.1, 3), Sm=((2, 2, 2), -1, 1), Ss=((1, 2, 2), -1, 1)), penm, n=2, flips=0, functions=[G + "GauLS.get_penalty_mat"])

    def ldet(c, rho, ld):
        rk = [3, 2, 4]
        for a, b in ((2, 1), (1, 2), (0, 3), (3, 0)):
            m = gauls(*IDL, np.ones((3, 2)), np.ones((3, 2)), np.ones(3), np.zeros((a, 2, 2)), np.zeros((b, 2, 2)), ranks=rk, ld=list(ld))
            c.eq("log-determinant of the penalty, %d and %d smooth terms" % (a, b), lambda: m.logdetS(rho), lambda: sum(rk[i] * rho[i] + ld[i] for i in range(3)))
    ck.contract("log-determinant of the penalty", dict(rho=((3,), -2, 3), ld=((3,), -2, 3)), ldet, n=2, flips=0, functions=[G + "GauLS.logdetS"])

    def implicit(c, X, Z, b, y, rho, s1, s2):
        """first and second derivatives of the coefficients along the log smoothing parameters, and of the Hessian along that curve"""
        n, p = X.shape
        q = Z.shape[1]
        N = p + q
        lam = np.exp(rho)
        m = generic(c, gauls(*IDL, X, Z, y, s1.reshape(1, p, p), s2.reshape(1, q, q)), X, Z, b, y, None)
        Hp = lambda: m.hess_ll_beta(b) + m.get_penalty_mat(lam)
        b1 = m.grad_beta_rho(b, lam)
        c.eq("first derivative of the coefficients", lambda: b1, lambda: -np.stack([F.inv(Hp()) @ (m.S[i] @ b) * lam[i] for i in range(2)], axis=1).view(SArr))
        dr = [symvar("dr%d" % i, 0.0) for i in range(2)] if c.sym else None

        def curve(b1, b2=None):
            out = []
            for k in range(N):
                e = b[k] + sum(b1[k, i] * dr[i] for i in range(2))
                if b2 is not None:
                    e = e + sum(b2[i, j, k] * dr[i] * dr[j] for i in range(2) for j in range(2)) / 2
                out.append(e)
            return vec(out)

        def score(beta):
            Sl = sum(m.S[i] * (lam[i] * np.exp(dr[i])) for i in range(2))
            return m.grad_ll_beta(beta) + Sl @ beta

        def second():
            sc = score(curve(b1))
            R = [[vec([at0(D(D(sc[k], dr[i]), dr[j]), dr) for k in range(N)]) for j in range(2)] for i in range(2)]
            Hi = F.inv(Hp())
            return np.array([[-(Hi @ R[i][j]) for j in range(2)] for i in range(2)], dtype=object).view(SArr)
        c.eq("derivative of the Hessian", lambda: m.dhess(b, lam), lambda: [[[at0(D(e, dr[i]), dr) for e in row] for row in m.hess_ll_beta(curve(b1))] for i in range(2)])
        c.eq("second derivative of the coefficients", lambda: m.hess_beta_rho(b, lam), second)
    dom = dict(X=((3, 1), -1.5, 1.5), Z=((3, 1), -1, 1), b=((2,), -1, 1), y=((3,), -2, 2), rho=((2,), -0.5, 1), s1=((1, 1), 1, 3), s2=((1, 1), 3, 6))
    ck.contract("derivatives along the smoothing parameters", dom, implicit, n=2, flips=0, functions=[G + "GauLS." + f for f in ("grad_beta_rho", "dhess", "hess_beta_rho")])

    def along(c, X, Z, b, y, rho):
        """derivatives of the Hessian along any curve of coefficients: callees replaced by arbitrary first and second derivatives"""
        n, p = X.shape
        q = Z.shape[1]
        N = p + q
        lam = np.exp(rho)
        Sm, Ss = np.stack([np.eye(p), np.diag(np.arange(1.0, p + 1))])[:2], np.eye(q)[None]
        m = generic(c, gauls(*IDL, X, Z, y, Sm, Ss), X, Z, b, y, None)
        if c.sym:
            mr = gauls(*IDL, num(X), num(Z), num(y), Sm, Ss)
            b1 = symarray("b1", mr.grad_beta_rho(num(b), num(lam)))
            m.grad_beta_rho = lambda *a: b1
            v2 = mr.hess_beta_rho(num(b), num(lam))
            b2 = symarray("b2", v2)
            for i in range(3):
                for j in range(i):
                    b2[i, j] = b2[j, i]
            m.hess_beta_rho = lambda *a: b2
            dr = [symvar("dr%d" % i, 0.0) for i in range(3)]
        crv = lambda: vec([b[k] + sum(b1[k, i] * dr[i] for i in range(3)) + sum(b2[i, j, k] * dr[i] * dr[j] for i in range(3) for j in range(3)) / 2 for k in range(N)])
        c.eq("derivative of the Hessian", lambda: m.dhess(b, lam), lambda: [[[at0(D(e, dr[i]), dr) for e in row] for row in m.hess_ll_beta(crv())] for i in range(3)])
        c.eq("second derivative of the Hessian", lambda: m.d2hess(b, lam), lambda: (lambda H: [[[[at0(D(D(e, dr[i]), dr[j]), dr) for e in row] for row in H] for j in range(3)] for i in range(3)])(m.hess_ll_beta(crv())))
    ck.contract("Hessian along a curve of coefficients", dict(X=((2, 2), -1.5, 1.5), Z=((2, 1), -1, 1), b=((3,), -1, 1), y=((2,), -2, 2), rho=((3,), 0, 1)), along, n=2, flips=0, functions=[G + "GauLS.dhess", G + "GauLS.d2hess"])

    def crit(c, X, Z, y, rho, s1, s2, ld):
        n, p = X.shape
        N = 2
        lam = np.exp(rho)
        mr = gauls(*IDL, num(X), num(Z), num(y), num(s1).reshape(1, 1, 1), num(s2).reshape(1, 1, 1), ld=list(num(ld)))
        bh = num(mr.beta_rho(num(rho)))
        if not c.sym:
            m = mr
        else:
            b = symarray("bh", bh)
            lamS = [lam[0] * s1[0], lam[1] * s2[0]]

            def opt(L):
                # at the minimiser the penalised gradient vanishes
                L[1][0, 0] = (lamS[0] * b[0] - sum(X[i, 0] * L[1][i, 0] for i in range(1, n))) / X[0, 0]
                L[1][0, 1] = (lamS[1] * b[1] - sum(Z[i, 0] * L[1][i, 1] for i in range(1, n))) / Z[0, 0]
            m = generic(c, gauls(*IDL, X, Z, y, s1.reshape(1, 1, 1), s2.reshape(1, 1, 1), ld=list(ld)), X, Z, b, y, None, opt)
            base = rho
            b1 = m.grad_beta_rho(b, lam)

            def beta_rho(r):
                d = [r[i] - base[i] for i in range(2)]
                return vec([b[k] + sum(b1[k, i] * d[i] for i in range(2)) for k in range(N)])
            m.beta_rho = beta_rho
            rr = [symvar("rr%d" % i, float(rho[i].v)) for i in range(2)]
            back = lambda e: substitute(e, [(x, rho[i]) for i, x in enumerate(rr)])
        c.eq("criterion", lambda: m.reml(rho), lambda: m.penalized_loglike(b, m.get_penalty_mat(lam)) - (rho[0] + ld[0] + rho[1] + ld[1]) / 2 + np.log(F.det(m.hess_ll_beta(b) + m.get_penalty_mat(lam))) / 2 - m.mp * np.log(2 * F.pi) / 2)
        grad = lambda: [back(D(m.reml(vec(rr)), x)) for x in rr]
        c.eq("gradient", lambda: m.gradient(rho), grad, rtol=1e-5, atol=1e-6)
        c.eq("value with the derivatives", lambda: m._f_grad_hess(rho)[0], lambda: m.reml(rho))
        c.eq("gradient with the value", lambda: m._f_grad_hess(rho)[1], lambda: m.gradient(rho), rtol=1e-5, atol=1e-6)
        hs = lambda: [[back(D(e, x)) for x in rr] for e in m.gradient(vec(rr))]
        c.eq("Hessian", lambda: m.hessian(rho), hs, rtol=1e-4, atol=1e-5)
        c.eq("Hessian with the value", lambda: m._f_grad_hess(rho)[2], lambda: m.hessian(rho), rtol=1e-4, atol=1e-5)
    ck.contract("REML criterion of location-scale models", dict(X=((2, 1), 0.5, 1.5), Z=((2, 1), 0.3, 1), y=((2,), 1, 3), rho=((2,), 0, 1), s1=((1,), 1, 3), s2=((1,), 3, 6), ld=((2,), -1, 1)), crit, n=1, flips=0,
                functions=[G + "GauLS." + f for f in ("reml", "gradient", "hessian", "_f_grad_hess", "logdetS")])

    # ---- additive models of any family ---------------------------------------------------------
    def gam(f, X, y, Sp, ranks=None, ld=None, cls=None):
        cls = cls or gm.GAM
        m = copy.copy(template[cls])
        n, p = X.shape
        m.X, m.Xp, m.y, m.f = X, X[:, :1], y, f
        m.S = Sp
        m.Sj = [Sp[i] for i in range(len(Sp))]
        m.ns, m.n_obs, m.nx = len(Sp), n, p
        ranks = [1] * len(Sp) if ranks is None else ranks
        ld = [0.0] * len(Sp) if ld is None else ld
        if cls is gm.GAM:
            m.ranks = np.asarray(ranks, dtype=float)
            m.ldS = vec(ld) if any(isinstance(e, S) for e in ld) else np.asarray(ld, dtype=float)
            m.ldS_sum = m.ldS.sum()
        else:
            m.ranks, m.ldS = list(ranks), list(ld)
        m.mp = p - sum(ranks)
        return m

    FL = [("Gaussian", "IdentityLink", (-2, 2), (-1, 1)), ("Gaussian", "LogLink", (-2, 2), (-1, 1)), ("Poisson", "LogLink", (1, 6), (-1, 1)), ("Gamma", "LogLink", (0.3, 3), (-1, 1)),
          ("Gamma", "ReciprocalLink", (0.3, 3), (0.5, 1)), ("Binomial", "LogitLink", (0.1, 0.9), (-1, 1)), ("InverseGaussian", "LogLink", (0.3, 3), (-1, 1)), ("Binomial", "ProbitLink", (0.1, 0.9), (-1, 1))]
    for fn, ln, yr, br in FL:
        def dv(c, X, b, y, L, f=getattr(fam, fn)(getattr(lk, ln)()), fn=fn):
            Sm = L @ L.T
            X = np.abs(X) + 0.2 if br[0] > 0 else X
            m = gam(f, X, y, Sm[None])
            dev = lambda b: np.sum(f.deviance(y, mu=f.inv_link(X @ b))) / 2
            c.eq("gradient of half the penalised deviance", lambda: m.grad_dev_beta(b, Sm), lambda: [D(dev(b) + b @ Sm @ b / 2, b[i]) for i in range(2)])
            c.eq("Hessian of half the deviance", lambda: m.hess_dev_beta(b, Sm)[0], lambda: [[D(D(dev(b), b[i]), b[j]) for i in range(2)] for j in range(2)])
            c.eq("Hessian of half the penalised deviance", lambda: m.hess_dev_beta(b, Sm)[1], lambda: [[D(D(dev(b), b[i]), b[j]) + Sm[i, j] for i in range(2)] for j in range(2)])
            g = lambda: m.grad_dev_beta(b, np.zeros((2, 2)))
            c.eq("working weights and data", lambda: (lambda z, w: [X.T @ (w * (z - X @ b)), np.einsum("i,ij,ik->jk", w, X, X).ravel()])(*m.get_wz(X @ b)), lambda: [-g(), m.hess_dev_beta(b, Sm)[0].ravel()])
        pos = "Reciprocal" in ln
        ck.contract("derivatives with respect to the coefficients: %s, %s" % (fn, ln), dict(X=((2, 2), *((0.3, 1.5) if pos else (-1.5, 1.5))), b=((2,), *br), y=((2,), *yr), L=((2, 2), 0.3, 1.5)), dv, n=2, flips=0,
                    functions=[A + x for x in ("grad_dev_beta", "hess_dev_beta", "solve_pls", "get_wz")])

    def pls(c, X, z, w, L):
        Sm = np.diag(L)
        m = gam(fam.Gaussian(), X, z, Sm[None])
        m.get_wz = lambda eta: (z, w)
        c.eq("normal equations", lambda: (X.T @ (w[:, None] * X) + Sm) @ m.solve_pls(z, Sm), lambda: X.T @ (w * z))
    ck.contract("penalised least squares", dict(X=((2, 2), -1.5, 1.5), z=((2,), -2, 2), w=((2,), 0.2, 2), L=((2,), 0.3, 1.5)), pls, n=2, flips=0, functions=[A + "solve_pls"])

    class Fam:
        """contract of a family in symbolic mode: half the deviance is a function of the predictor with arbitrary derivatives"""

        def __init__(self, P, y, sc=None):
            self.P, self.y, self.sc = P, y, sc
        link = staticmethod(lambda mu: mu)
        inv_link = staticmethod(lambda eta: eta)
        N = property(lambda self: len(self.y))

        def _d(self, mu, o):
            return vec([self.P.d(n, (mu,), o) for n in range(self.N)])

        def deviance(self, y, X=None, beta=None, mu=None):
            return 2.0 * self._d(mu, 0)

        def dlink(self, mu):
            return vec([1.0] * self.N)

        def d2link(self, mu):
            return vec([0.0] * self.N)

        def var_func(self, X=None, beta=None, mu=None):
            return -(self.y - mu) / self._d(mu, 1)

        def dvar_dmu(self, mu):
            v = self.var_func(mu=mu)
            return (self._d(mu, 2) * v - 1.0) * v / (self.y - mu)

        def dw_deta(self, y, mu):
            return self._d(mu, 3)

        def d2w_deta2(self, y, mu):
            return self._d(mu, 4)

        def llscale(self, phi, y):
            d = phi - self.sc[0]
            return self.sc[1] + self.sc[2] * d + self.sc[3] * d * d / 2

        def dllscale(self, phi, y):
            return self.sc[2] + self.sc[3] * (phi - self.sc[0])

        def d2llscale(self, phi, y):
            return self.sc[3]

    def ggeneric(c, f, X, b, y, Sp, opt=None, scale=None, ld=None):
        m = gam(f, X, y, Sp, ld=ld)
        if not c.sym:
            return m
        n, p = X.shape
        Xn, yn, bn = num(X), num(y), num(b)
        eta = Xn @ bn
        mu = f.inv_link(eta)
        g1, v0 = f.dlink(mu), f.var_func(mu=mu)
        r = yn - mu
        w = (1 + r * (f.dvar_dmu(mu) / v0 + f.d2link(mu) / g1)) / (v0 * g1 ** 2)
        o = lambda v: num(v)[:, None] * np.ones((n, 1))
        L = [symarray("P%d" % k, o(v)) for k, v in enumerate((f.deviance(yn, mu=mu) / 2 * np.ones(n), -r / (v0 * g1) * np.ones(n), w * np.ones(n), f.dw_deta(yn, mu) * np.ones(n), f.d2w_deta2(yn, mu) * np.ones(n)))]
        if opt is not None:
            opt(L)
        P = Pot(L, (X @ b,))
        sc = None
        if scale is not None:
            sc = (scale, *[symvar("sc%d" % i, float(num(v).reshape(-1)[0]) if np.ndim(v) == 0 else float(np.sum(num(v)))) for i, v in enumerate((f.llscale(float(scale.v), yn), f.dllscale(float(scale.v), yn), f.d2llscale(float(scale.v), yn)))])
        m.f = Fam(P, y, sc)

        def hess_dev_beta(beta, Sl):
            e = (X @ beta,)
            w = vec([P.d(k, e, 2) for k in range(n)])
            D2 = (X * w[:, None]).T.dot(X)
            return D2, D2 + Sl
        m.hess_dev_beta = hess_dev_beta
        m.grad_dev_beta = lambda beta, Sl: X.T.dot(vec([P.d(k, (X @ beta,), 1) for k in range(n)])) + Sl.dot(beta)
        return m

    FAMS = [(fam.Poisson(lk.LogLink()), (1, 6)), (fam.Gamma(lk.LogLink()), (0.5, 3))]

    def gimp(c, X, b, y, rho, L1, L2, f=FAMS[1][0]):
        n, p = X.shape
        N = p
        Sp = np.stack([L1 @ L1.T, L2 @ L2.T]).view(SArr) if c.sym else np.stack([L1 @ L1.T, L2 @ L2.T])
        lam = np.exp(rho)
        m = ggeneric(c, f, X, b, y, Sp)
        Hp = lambda: m.hess_dev_beta(b, m.get_penalty_mat(lam))[1]
        c.eq("penalty matrix", lambda: m.get_penalty_mat(lam), lambda: lam[0] * Sp[0] + lam[1] * Sp[1])
        c.eq("first derivative of the coefficients", lambda: m.grad_beta_rho(b, lam), lambda: -np.stack([F.inv(Hp()) @ (Sp[i] @ b) * lam[i] for i in range(2)], axis=1).view(SArr))
        if not c.sym:
            c.eq("second derivative of the coefficients", lambda: m.hess_beta_rho(b, lam), None)
            return
        dr = [symvar("dr%d" % i, 0.0) for i in range(2)]

        def second():
            b1 = m.grad_beta_rho(b, lam)
            beta = vec([b[k] + sum(b1[k, i] * dr[i] for i in range(2)) for k in range(N)])
            Sl = sum(Sp[i] * (lam[i] * np.exp(dr[i])) for i in range(2))
            sc = m.grad_dev_beta(beta, np.zeros((p, p))) + Sl @ beta
            Hi = F.inv(Hp())
            return np.array([[-(Hi @ vec([at0(D(D(sc[k], dr[i]), dr[j]), dr) for k in range(N)])) for j in range(2)] for i in range(2)], dtype=object).view(SArr)
        c.eq("second derivative of the coefficients", lambda: m.hess_beta_rho(b, lam), second)
    gdom = lambda p, n: dict(X=((n, p), -1.5, 1.5), b=((p,), -1, 1), y=((n,), 0.5, 3), rho=((2,), -0.5, 1), L1=((p, 1), 0.5, 1.5), L2=((p, 1), -1.5, -0.5))
    ck.contract("coefficients along the smoothing parameters", gdom(2, 2), gimp, n=2, flips=0, functions=[A + x for x in ("grad_beta_rho", "hess_beta_rho", "get_penalty_mat")])

    def gthird(c, X, b, y, rho, L1, L2, f=FAMS[1][0]):
        n, p = X.shape
        Sp = np.stack([L1 @ L1.T, L2 @ L2.T]).view(SArr) if c.sym else np.stack([L1 @ L1.T, L2 @ L2.T])
        lam = np.exp(rho)
        m = ggeneric(c, f, X, b, y, Sp)
        if not c.sym:
            c.eq("third derivative of the coefficients", lambda: m.dhess_beta_rho(b, lam), None)
            return
        mr = gam(f, num(X), num(y), num(Sp))
        b1 = symarray("b1", num(mr.grad_beta_rho(num(b), num(lam))))
        b2 = symarray("b2", num(mr.hess_beta_rho(num(b), num(lam))))
        b2[1, 0] = b2[0, 1]
        m.grad_beta_rho = lambda *a: b1
        m.hess_beta_rho = lambda *a: b2
        dr = [symvar("dr%d" % i, 0.0) for i in range(2)]

        def third():
            beta = vec([b[k] + sum(b1[k, i] * dr[i] for i in range(2)) + sum(b2[i, j, k] * dr[i] * dr[j] for i in range(2) for j in range(2)) / 2 for k in range(p)])
            Sl = sum(Sp[i] * (lam[i] * np.exp(dr[i])) for i in range(2))
            sc = m.grad_dev_beta(beta, np.zeros((p, p))) + Sl @ beta
            Hi = F.inv(m.hess_dev_beta(b, m.get_penalty_mat(lam))[1])
            return np.array([[[-(Hi @ vec([at0(D(D(D(sc[k], dr[i]), dr[j]), dr[l]), dr) for k in range(p)])) for l in range(2)] for j in range(2)] for i in range(2)], dtype=object).view(SArr)
        c.eq("third derivative of the coefficients", lambda: m.dhess_beta_rho(b, lam), third)
    ck.contract("coefficients along the smoothing parameters, third order", gdom(2, 2), gthird, n=2, flips=0, functions=[A + "dhess_beta_rho"])

    def greml(c, X, y, rho, lphi, L1, L2, ld, f=FAMS[1][0], diag=False):
        if diag:
            L1, L2 = vec([L1[0, 0], 0.0]).reshape(2, 1) if c.sym else np.array([[L1[0, 0]], [0.0]]), vec([0.0, L2[1, 0]]).reshape(2, 1) if c.sym else np.array([[0.0], [L2[1, 0]]])
        n, p = X.shape
        Sp = np.stack([L1 @ L1.T, L2 @ L2.T]).view(SArr) if c.sym else np.stack([L1 @ L1.T, L2 @ L2.T])
        lam, phi = np.exp(rho), np.exp(lphi)
        theta = vec([*rho, lphi]) if c.sym else np.r_[rho, lphi]
        if not c.sym:
            m = gam(f, X, y, Sp, ld=list(ld))
        else:
            mr = gam(f, num(X), num(y), num(Sp))
            b = symarray("bh", num(mr.pirls(num(lam))[0]))
            Sl = lam[0] * Sp[0] + lam[1] * Sp[1]

            def opt(L):
                rest = Sl @ b + sum(X[i] * L[1][i, 0] for i in range(p, n)) if n > p else Sl @ b
                s = -(F.inv(X[:p].T) @ rest)
                for i in range(p):
                    L[1][i, 0] = s[i]
            m = ggeneric(c, f, X, b, y, Sp, opt, phi, ld=list(ld))
            b1 = m.grad_beta_rho(b, lam)

            def pirls(l, *a, **k):
                d = [np.log(l[i]) - rho[i] for i in range(2)]
                beta = vec([b[k] + sum(b1[k, i] * d[i] for i in range(2)) for k in range(p)])
                eta = X @ beta
                return beta, eta, eta, np.sum(m.f.deviance(y, mu=eta)) + beta @ m.get_penalty_mat(l) @ beta, True, 1
            m.pirls = pirls
            th = [symvar("th%d" % i, float(theta[i].v)) for i in range(3)]
            back = lambda e: substitute(e, [(x, theta[i]) for i, x in enumerate(th)])

        def val():
            Sl = m.get_penalty_mat(lam)
            H = m.hess_dev_beta(b, Sl)[1]
            return ((np.sum(m.f.deviance(y, mu=X @ b)) + b @ Sl @ b) / phi + np.log(F.det(H / phi)) - sum(rho[i] - lphi + ld[i] for i in range(2)) + 2 * m.f.llscale(phi, y)) / 2
        c.eq("criterion", lambda: m.reml(theta), val)
        c.eq("gradient", lambda: m.gradient(theta), lambda: [back(D(m.reml(vec(th)), x)) for x in th], rtol=1e-5, atol=1e-5)
        c.eq("Hessian", lambda: m.hessian(theta), lambda: [[back(D(e, x)) for x in th] for e in m.gradient(vec(th))], rtol=1e-4, atol=1e-4)
    rdom = lambda p, n: dict(X=((n, p), 0.4, 1.5), y=((n,), 0.5, 3), rho=((2,), -0.5, 1), lphi=(None, -1, 0.5), L1=((p, 1), 0.5, 1.5), L2=((p, 1), -1.5, -0.5), ld=((2,), -1, 1))
    for p, n in ((1, 2), (2, 2)):
        ck.contract("REML criterion of generalised additive models, %d coefficients" % p, rdom(p, n), lambda c, p=p, **k: greml(c, diag=p == 2, **k), n=1, flips=0, functions=[A + x for x in ("reml", "gradient", "hessian", "logdetS")])

    def gauss(c, X, y, rho, lphi, L1, L2, ld, b):
        n, p = X.shape
        Sp = np.stack([L1 @ L1.T, L2 @ L2.T]).view(SArr) if c.sym else np.stack([L1 @ L1.T, L2 @ L2.T])
        lam, phi = np.exp(rho), np.exp(lphi)
        m = gam(fam.Gaussian(), X, y, Sp, ld=list(ld), cls=ga.GaussianAdditiveModel)
        theta = vec([*rho, lphi]) if c.sym else np.r_[rho, lphi]
        Sl = lambda: np.exp(rho[0]) * Sp[0] + np.exp(rho[1]) * Sp[1]
        bh = lambda: F.inv(X.T @ X + Sl()) @ (X.T @ y)

        def val():
            be = bh()
            r = y - X @ be
            return ((r @ r + be @ Sl() @ be) / np.exp(lphi) + np.log(F.det(X.T @ X + Sl())) - p * lphi - sum(rho[i] - lphi + ld[i] for i in range(2)) + n * np.log(2 * F.pi) + n * lphi) / 2
        c.eq("criterion", lambda: m.reml(theta), val)
        c.eq("gradient", lambda: m.gradient(theta), lambda: [D(val(), t) for t in (*rho, lphi)])
        c.eq("Hessian", lambda: m.hessian(theta), lambda: [[D(e, t) for t in (*rho, lphi)] for e in m.gradient(theta)])
        c.eq("coefficients along the smoothing parameters", lambda: m.grad_beta_rho(b, lam), lambda: -np.stack([F.inv(X.T @ X + Sl()) @ (Sp[i] @ b) * lam[i] for i in range(2)], axis=1).view(SArr))
        c.eq("Hessian of the penalised deviance", lambda: m.hess_dev_beta(b, Sp[0]), lambda: 2 * (X.T @ X + Sp[0]))
        c.eq("penalised least squares", lambda: (X.T @ X + Sp[0] + Sp[1]) @ m.solve_pls(X @ b, Sp[0] + Sp[1]), lambda: X.T @ y)
    ck.contract("REML criterion of Gaussian additive models", dict(rdom(2, 3), b=((2,), -1, 1)), gauss, n=1, flips=0,
                functions=[GA + x for x in ("reml", "gradient", "hessian", "logdetS", "grad_beta_rho", "hess_dev_beta", "solve_pls", "get_wz", "get_penalty_mat")])

    # ---- models of data (run-time contracts) -------------------------------------------------------
    def fd(f, x, h=2e-3):
        """central differences of order eight"""
        out = []
        for i in range(len(x)):
            e = np.zeros(len(x))
            e[i] = h
            out.append(sum(w * (np.asarray(f(x + k * e)) - np.asarray(f(x - k * e))) for k, w in ((1, 4 / 5), (2, -1 / 5), (3, 4 / 105), (4, -1 / 280))) / h)
        return np.array(out)

    def pdet(S_, r):
        return np.sum(np.log(np.sort(np.linalg.eigvalsh((S_ + S_.T) / 2))[::-1][:r]))

    def lsdata(rng, i):
        n = int(rng.integers(60, 90))
        d = pd.DataFrame(dict(x=rng.uniform(size=n), z=rng.normal(size=n), g=rng.choice(list("ab"), n), v=rng.integers(1, 4, n) * 1.0))
        d["y"] = np.sin(4 * d.x) + 0.3 * d.z + rng.normal(size=n) * np.exp(-0.5 + 0.5 * d.x)
        return d
    FM = [("y~z+s(x, df=6)", "y~1+s(x, df=5, kind='cc')"), ("y~z", "y~1+s(x, df=5)"), ("y~1+s(x, df=5, kind='bs')+s(z, df=5)", "y~z"), ("y~1+s(x, df=5, by=g)", "y~1+s(z, df=5)")]

    def locscale(rng, i):
        d = lsdata(rng, i)
        fm, fs = FM[i % 4]
        kw = [dict(), dict(weights="v"), dict(weights=d.v.values / 2), dict(weights="v", weights_normalize=False)][(i // 2) % 4]
        m = gl.GauLS(fm, fs, d, **kw)
        o = dict(rtol=1e-5, atol=1e-5, inputs=dict(data=d.to_dict("list"), formulas=(fm, fs), weights=str(kw)))
        w = np.ones(len(d)) if not kw else d.v.values if kw.get("weights_normalize") is False else d.v.values / d.v.values.mean()
        rho = rng.uniform(-1, 3, m.ns)
        lam = np.exp(rho)
        S_ = m.get_penalty_mat(lam)
        yield "log-determinant of the penalty of the model", m.logdetS(rho), pdet(S_, int(np.sum(m.ranks))), o
        yield "null space of the penalty", m.mp, m.nx - np.linalg.matrix_rank(S_, tol=1e-9 * np.abs(S_).max()), o
        b = m.beta_rho(rho)
        yield "coefficients minimise the penalised criterion", m.grad_pll_beta(b, S_) / (1 + np.abs(m.hess_pll_beta(b, S_)).max()), np.zeros(m.nx), o
        mu, sd = m.m.X @ b[:m.nxm], np.exp(m.s.X @ b[m.nxm:]) + 0.01
        yield "log-likelihood of the model", m.loglike(b), np.sum(w * (0.5 * ((d.y - mu) / sd) ** 2 + np.log(sd) + 0.5 * np.log(2 * np.pi))), o
        # far from the minimiser the step of the inner iterations stops early: compare where they converge
        def near(r):
            # the minimiser reached from b: the criterion may have several
            S1 = m.get_penalty_mat(np.exp(r))
            b1 = m.outer_step(S1, b)[0]
            jump.append(np.max(np.abs(b1 - b)) > 0.5 or np.max(np.abs(m.grad_pll_beta(b1, S1))) > 1e-5)
            return b1
        jump = []
        m.beta_rho = near
        num1, num2 = fd(m.reml, rho, 0.01), fd(m.gradient, rho, 0.01)
        if np.all(np.linalg.eigvalsh(m.hess_pll_beta(b, S_)) > 1e-3) and not any(jump):
            yield "gradient of the criterion", m.gradient(rho), num1, dict(o, rtol=1e-4, atol=1e-4)
            yield "Hessian of the criterion", m.hessian(rho), num2, dict(o, rtol=1e-4, atol=1e-4)
            f, g, H = m._f_grad_hess(rho)
            yield "criterion and derivatives together", [f, g, H], [m.reml(rho), m.gradient(rho), m.hessian(rho)], o
        del m.beta_rho
        if i >= 4:
            return
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit()
        S_ = m.get_penalty_mat(np.exp(m.theta))
        H = m.hess_ll_beta(m.beta)
        if np.linalg.cond(H + S_) > 1e8:
            return      # a term penalised to a straight line: nothing can be compared to rounding
        Vb = np.linalg.inv(H + S_)
        yield "fit: stationary coefficients", m.grad_pll_beta(m.beta, S_) / (1 + np.abs(H + S_).max()), np.zeros(m.nx), o
        yield "fit: stationary smoothing parameters", m.gradient(m.theta) * (np.abs(m.theta) < 15), np.zeros(m.ns), dict(o, atol=2e-2)
        yield "fit: covariance of the coefficients", m.Vb, Vb, o
        yield "fit: effective degrees of freedom", m.edf, np.trace(Vb @ H), o
        J = m.grad_beta_rho(m.beta, np.exp(m.theta))
        yield "fit: covariance with smoothing parameter uncertainty", m.Vc, Vb + J @ np.linalg.inv(m.hessian(m.theta)) @ J.T, dict(o, rtol=1e-4)
        yield "fit: parameters and standard errors", [m.res["param"].values, m.res["SE"].values], [np.r_[m.beta, m.theta], np.sqrt(np.r_[np.diag(m.Vc), np.diag(m.Vp)])], o
        yield "fit: effective degrees of freedom of the terms", m.res_smooths["edf"].values.astype(float), [np.sum(np.diag(Vb @ H)[s["ix"]]) for s in m.smooths.values()], o
        yield "fit: residuals", [m.resids, m.tau], [d.y - m.m.X @ m.beta[:m.nxm], 1 / (np.exp(m.s.X @ m.beta[m.nxm:]) + 0.01)], o
        for key, c_ in m.get_smooth_comps(m.beta).items():
            s = m.smooths[key]
            yield "fit: term on a grid", [np.ptp(c_[:, 0]), len(c_)], [np.ptp(s["knots"]), 200], o
    ck.concrete("location-scale models of data", locscale, 8)

    def gams(rng, i):
        n = int(rng.integers(60, 90))
        d = pd.DataFrame(dict(x=rng.uniform(size=n), z=rng.normal(size=n)))
        e = np.sin(4 * d.x) + 0.2 * d.z
        f, y = [(None, e + rng.normal(size=n)), (fam.Poisson(), rng.poisson(np.exp(e + 1))), (fam.Gamma(lk.LogLink()), rng.gamma(2, np.exp(e) / 2)), (fam.Binomial(), rng.binomial(1, 1 / (1 + np.exp(-e))))][i % 4]
        d["y"] = y * 1.0
        fm = ["y~z+s(x, df=6)", "y~1+s(x, df=5, kind='bs')+s(z, df=5)", "y~1+s(x, df=5, kind='cc')+z"][i % 3]
        m = gm.GAM(fm, d, family=f) if f is not None else gm.GAM(fm, d)
        o = dict(rtol=1e-5, atol=1e-5, inputs=dict(data=d.to_dict("list"), formula=fm, family=str(f)))
        rho = rng.uniform(-1, 3, m.ns)
        th = np.r_[rho, rng.uniform(-1, 0.5) if not isinstance(f, (fam.Poisson, fam.Binomial)) else 0.0]
        lam = np.exp(rho)
        S_ = m.get_penalty_mat(lam)
        b, eta, mu, dev, conv, _ = m.pirls(lam)
        yield "coefficients minimise the penalised deviance", m.grad_dev_beta(b, S_) / (1 + np.abs(m.hess_dev_beta(b, S_)[1]).max()), np.zeros(m.nx), o
        yield "what the iterations return", [eta, mu, dev], [m.X @ b, m.f.inv_link(m.X @ b), np.sum(m.f.deviance(d.y.values, mu=mu)) + b @ S_ @ b], o
        yield "log-determinant of the penalty of the model", m.logdetS(lam, np.exp(th[-1])), pdet(S_ / np.exp(th[-1]), int(np.sum(m.ranks))), o
        if f is None:
            sg = np.exp(th[-1])
            bb = np.linalg.solve(m.X.T @ m.X + S_, m.X.T @ d.y)
            r = d.y - m.X @ bb
            want = (r @ r + bb @ S_ @ bb) / sg / 2 + np.linalg.slogdet((m.X.T @ m.X + S_) / sg)[1] / 2 - pdet(S_ / sg, int(np.sum(m.ranks))) / 2 + n / 2 * np.log(2 * np.pi * sg)
            yield "restricted likelihood, Gaussian", m.reml(th), want, o
            g = ga.GaussianAdditiveModel(fm, d)
            yield "Gaussian additive model: criterion", g.reml(th), want, o
            yield "Gaussian additive model: gradient", g.gradient(th), fd(g.reml, th), dict(o, rtol=1e-6, atol=1e-6)
            yield "Gaussian additive model: Hessian", g.hessian(th), fd(g.gradient, th), dict(o, rtol=1e-6, atol=1e-6)
        if isinstance(f, (fam.Poisson, fam.Binomial)):
            return
        k = m.ns + 1
        full = lambda t: t
        yield "gradient of the criterion", m.gradient(th)[:k], fd(lambda t: m.reml(full(t)), th[:k], 0.01), dict(o, rtol=1e-4, atol=1e-4)
        yield "Hessian of the criterion", m.hessian(th)[:k, :k], fd(lambda t: m.gradient(full(t))[:k], th[:k], 0.01), dict(o, rtol=1e-4, atol=1e-4)
        yield "third derivative of the coefficients", m.dhess_beta_rho(b, lam), np.moveaxis(fd(lambda r: m.hess_beta_rho(m.pirls(np.exp(r))[0], np.exp(r)), rho, 0.02), 0, 2), dict(o, rtol=1e-3, atol=1e-4)
        if f is None:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    g.fit()
                except np.linalg.LinAlgError:
                    return      # flat criterion: smoothing parameters without an upper limit
            S1 = g.get_penalty_mat(np.exp(g.theta[:-1]))
            if np.linalg.cond(g.X.T @ g.X + S1) > 1e8:
                return      # a term penalised to a straight line: nothing can be compared to rounding
            V = np.linalg.inv(g.X.T @ g.X + S1)
            yield "Gaussian additive model: fit", [g.beta, g.Vb, g.edf], [V @ g.X.T @ d.y, V * np.exp(g.theta[-1]), np.trace(V @ g.X.T @ g.X)], o
            J = g.grad_beta_rho(g.beta, np.exp(g.theta[:-1]))
            C = J @ np.linalg.inv(g.hessian(g.theta))[:-1, :-1] @ J.T
            yield "Gaussian additive model: covariances", [g.Vc, g.Vf], [g.Vb + C, V @ g.X.T @ g.X @ V * np.exp(g.theta[-1]) + C], dict(o, rtol=1e-4)
    ck.concrete("additive models of data", gams, 10)
