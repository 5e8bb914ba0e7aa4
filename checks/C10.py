"""C10 zero-inflated, negative-binomial and beta regression: likelihoods and exact derivatives"""
import importlib
import numpy as np
import pandas as pd
from vf.core import D, jac, hess
from vf.sym import F, SArr

INV = {"LogLink": lambda x: np.exp(x), "IdentityLink": lambda x: x + 0, "LogitLink": lambda x: 1 / (1 + np.exp(-x)), "ProbitLink": lambda x: F.ndtr(x), "CloglogLink": lambda x: 1 - np.exp(-np.exp(x))}


def stack(l):
    return np.array(l, dtype=object).view(SArr)


def zip_nll(X, Z, y, w, b, a, link, zlink):
    out = []
    for i in range(len(y)):
        lam = INV[link](np.sum(X[i] * b))
        om = INV[zlink](np.sum(Z[i] * a))
        if i < 2:
            out.append(-w[i] * np.log(om + (1 - om) * np.exp(-lam)))
        else:
            out.append(-w[i] * (np.log(1 - om) + y[i] * np.log(lam) - lam - F.gammaln(y[i] + 1)))
    return stack(out)


def zinb_nll(X, Z, y, w, b, a, k, link, zlink):
    out = []
    for i in range(len(y)):
        mu = INV[link](np.sum(X[i] * b))
        om = INV[zlink](np.sum(Z[i] * a))
        kw = k / w[i]
        if i < 2:
            out.append(-np.log(om + (1 - om) * (1 + kw * mu) ** (-1 / kw)))
        else:
            r = 1 / kw
            out.append(-np.log(1 - om) - (F.gammaln(y[i] + r) - F.gammaln(r) - F.gammaln(y[i] + 1) + y[i] * np.log(kw * mu / (1 + kw * mu)) - r * np.log(1 + kw * mu)))
    return stack(out)


def cat(c, *parts):
    r = np.concatenate([np.asarray(x, dtype=object if c.sym else float) for x in parts])
    return r.view(SArr) if c.sym else r


def run(ck):
    zm = importlib.import_module("pystatsm.pyglm2.zinf")
    lm2 = importlib.import_module("pystatsm.pyglm2.links")
    fm2 = importlib.import_module("pystatsm.pyglm2.families")
    lm1 = importlib.import_module("pystatsm.pyglm.links")
    zi = importlib.import_module("pystatsm.pyglm.zimodels")
    nbm = importlib.import_module("pystatsm.pyglm.nb2")
    brm = importlib.import_module("pystatsm.pyglm.betareg")
    p, q, n = 2, 2, 4
    base = dict(X=((n, p), 0.3, 0.9), Z=((n, q), -1.0, 1.0), yp=((n - 2,), 1.0, 5.0), w=((n,), 0.5, 3.0), t=((p + q,), 0.2, 0.9))
    P = zm.ZeroInflatedPoisson
    B = zm.ZeroInflatedNBinom
    pz = "pystatsm/pyglm2/zinf.py::"
    for link in ("LogLink", "IdentityLink"):
        for zlink in ("LogitLink", "ProbitLink", "CloglogLink"):
            L, ZL = getattr(lm2, link)(), getattr(lm2, zlink)()
            f = fm2.NegativeBinomial(link=getattr(lm2, link)())

            def zip_(c, X, Z, yp, w, t):
                y = cat(c, [0.0, 0.0], yp)
                d = (X, Z, y, w)
                nll = lambda: zip_nll(X, Z, y, w, t[:p], t[p:], link, zlink)
                tot = lambda: np.sum(nll())
                a = (t, d, L, ZL)
                c.eq("per-observation log-likelihood", lambda: P._loglike_i(*a), nll)
                c.eq("log-likelihood", lambda: P._loglike(*a), tot)
                c.eq("gradient", lambda: P._gradient(*a), lambda: jac(tot(), t))
                c.eq("scores per observation", lambda: P._gradient_i(*a), lambda: jac(nll(), t))
                c.eq("hessian", lambda: P._hessian(*a), lambda: hess(tot(), t))

                def hw():
                    H = hess(tot(), t)
                    return H
                c.eq("hessian weights assemble the hessian", lambda: asm(P._hessian_weights(*a), X, Z), hw)
            ck.contract("ZIP %s/%s" % (link, zlink), base, zip_, n=1, flips=0, functions=[pz + "ZeroInflatedPoisson." + s for s in ("_loglike_i", "_loglike", "_gradient", "_gradient_i", "_hessian", "_hessian_weights")])

            def zinb_(c, X, Z, yp, w, t, tau):
                y = cat(c, [0.0, 0.0], yp)
                d = (X, Z, y, w)
                th = cat(c, t, [tau])
                nll = lambda: zinb_nll(X, Z, y, w, t[:p], t[p:], np.exp(tau), link, zlink)
                tot = lambda: np.sum(nll())
                a = (th, d, ZL, f)
                c.eq("per-observation log-likelihood", lambda: B._loglike_i(*a), nll)
                c.eq("log-likelihood", lambda: B._loglike(*a), tot)
                c.eq("gradient", lambda: B._gradient(*a), lambda: jac(tot(), th))
                c.eq("scores per observation", lambda: B._gradient_i(*a), lambda: jac(nll(), th))
                c.eq("hessian per observation", lambda: B._hessian_i(*a), lambda: hess(nll(), th))
                c.eq("hessian", lambda: B._hessian(*a), lambda: hess(tot(), th))
            ck.contract("ZINB %s/%s" % (link, zlink), dict(base, tau=(None, -0.7, 0.7)), zinb_, n=1, flips=0, functions=[pz + "ZeroInflatedNBinom." + s for s in ("_loglike_i", "_loglike", "_gradient", "_gradient_i", "_hessian", "_hessian_i")])

    def gen(c, X, Z, yp, t, tau):
        y = cat(c, [0.0, 0.0], yp)
        w = np.ones(n)
        th = cat(c, t, [tau])
        f = fm2.NegativeBinomial(link=lm2.LogLink())
        c.eq("generic per-observation log-likelihood", lambda: zm.ZeroInflatedModel._generic_loglike_i(th, (X, Z, y, w), p, q, True, f, lm2.LogitLink()), lambda: zinb_nll(X, Z, y, w, t[:p], t[p:], np.exp(tau), "LogLink", "LogitLink"))
    ck.contract("generic zero-inflated likelihood", dict({k: base[k] for k in ("X", "Z", "yp", "t")}, tau=(None, -0.7, 0.7)), gen, n=2, flips=0, functions=[pz + "ZeroInflatedModel._generic_loglike_i"])

    def ozip(c, X, Z, yp, t):
        y = cat(c, [0.0, 0.0], yp)
        m = zi.ZIP.__new__(zi.ZIP)
        m.X, m.Z, m.y = X, Z, y
        m.ix0 = np.array([True, True] + [False] * (n - 2))
        m.ix1 = ~m.ix0
        m.y0, m.y1 = y[:2], y[2:]
        m.X0, m.X1, m.Z0, m.Z1 = X[:2], X[2:], Z[:2], Z[2:]
        m._llc = F.gammaln(y[2:] + 1) if c.sym else __import__("scipy.special").special.gammaln(y[2:] + 1)
        tot = lambda: np.sum(zip_nll(X, Z, y, np.ones(n), t[:p], t[p:], "LogLink", "LogitLink"))
        c.eq("log-likelihood", lambda: m.loglike(t), tot)
        c.eq("gradient", lambda: m.gradient(t), lambda: jac(tot(), t))
        c.eq("hessian", lambda: m.hessian(t), lambda: hess(tot(), t))
        lam, om = lambda: np.exp(np.dot(X, t[:p])), lambda: 1 / (1 + np.exp(-np.dot(Z, t[p:])))
        c.eq("predicted mean and variance", lambda: m.predict(t), lambda: (lam() * (1 - om()), lam() * (1 - om()) * (1 + lam() * om())))
    ck.contract("pyglm ZIP", {k: base[k] for k in ("X", "Z", "yp", "t")}, ozip, n=2, flips=0, functions=["pystatsm/pyglm/zimodels.py::ZIP." + s for s in ("loglike", "gradient", "hessian", "predict")])

    def nb(c, X, y, b, tau):
        m = nbm.NegativeBinomial.__new__(nbm.NegativeBinomial)
        m.X, m.y, m.Y = X, y, y
        th = cat(c, b, [tau])
        mu, k = np.exp(np.dot(X, b)), np.exp(tau)
        tot = lambda: -np.sum(F.gammaln(y + 1 / k) - F.gammaln(1 / k) - F.gammaln(y + 1) + y * np.log(k * mu / (1 + k * mu)) - (1 / k) * np.log(1 + k * mu))
        c.eq("log-likelihood", lambda: m.loglike(th), tot)
        c.eq("gradient", lambda: m.gradient(th), lambda: jac(tot(), th))
        c.eq("hessian", lambda: m.hessian(th), lambda: hess(tot(), th))
        c.eq("design argument", lambda: (m.loglike(th, X), m.gradient(th, X), m.hessian(th, X)), lambda: (tot(), jac(tot(), th), hess(tot(), th)))
        c.eq("deviance", lambda: m.deviance(th), lambda: 2 * np.sum(y * np.log(y / mu) - (y + 1 / k) * np.log((1 + k * y) / (1 + k * mu))))
        c.eq("predicted mean", lambda: m.predict(params=th), lambda: mu)
    ck.contract("nb2 NegativeBinomial", dict(X=((3, p), -0.9, 0.9), y=((3,), 0.4, 6.0), b=((p,), -0.9, 0.9), tau=(None, -0.7, 0.7)), nb, n=2, functions=["pystatsm/pyglm/nb2.py::NegativeBinomial." + s for s in ("loglike", "gradient", "hessian", "deviance", "predict")])
    for ml in ("LogitLink", "ProbitLink", "CloglogLink"):
        for sl in ("LogLink", "IdentityLink"):
            def br(c, X, Z, y, b, a):
                m = brm.BetaReg.__new__(brm.BetaReg)
                m.X, m.Z, m.y = X, Z, y
                m.m_link, m.s_link = getattr(lm1, ml)(), getattr(lm1, sl)()
                m.ys, m.logy, m.log1y = np.log(y / (1.0 - y)), np.log(y), np.log(1.0 - y)
                th = cat(c, b, a)

                def nll():
                    mu, ph = INV[ml](np.dot(X, b)), INV[sl](np.dot(Z, a))
                    return -(F.gammaln(ph) - F.gammaln(mu * ph) - F.gammaln((1 - mu) * ph) + (mu * ph - 1) * np.log(y) + ((1 - mu) * ph - 1) * np.log(1 - y))
                c.eq("per-observation log-likelihood", lambda: m.loglike_elementwise(th), nll)
                c.eq("log-likelihood", lambda: m.loglike(th), lambda: np.sum(nll()))
                c.eq("gradient", lambda: m.gradient(th), lambda: jac(np.sum(nll()), th))
                c.eq("hessian", lambda: m.hessian(th), lambda: hess(np.sum(nll()), th))
                c.eq("prediction", lambda: m.predict(th), lambda: (INV[ml](np.dot(X, b)), INV[sl](np.dot(Z, a))))
            ck.contract("BetaReg %s/%s" % (ml, sl), dict(X=((3, p), -0.9, 0.9), Z=((3, q), 0.3, 1.2), y=((3,), 0.1, 0.9), b=((p,), -0.7, 0.7), a=((q,), 0.4, 1.2)), br, n=1,
                        functions=["pystatsm/pyglm/betareg.py::BetaReg." + s for s in ("loglike_elementwise", "loglike", "gradient", "hessian", "predict")])

    def models(rng, i):
        N = 120
        df = pd.DataFrame(rng.normal(size=(N, 3)), columns=["a", "b", "c"])
        om = 1 / (1 + np.exp(-(0.2 + 0.6 * df["c"].values)))
        mu = np.exp(0.8 + 0.4 * df["a"].values)
        pois = i % 2 == 0
        cnt = rng.poisson(mu) if pois else rng.negative_binomial(2.0, 2.0 / (2.0 + mu))
        df["y"] = np.where(rng.uniform(size=N) < om, 0, cnt).astype(float)
        w = rng.uniform(0.5, 2.0, N) if i % 4 > 1 else None
        cls = P if pois else B
        m = cls("y ~ a + b", "~ c", data=df, weights=w)
        wv = np.ones(N) if w is None else w
        X = np.column_stack([np.ones(N), df["a"], df["b"]])
        Z = np.column_stack([np.ones(N), df["c"]])
        y = df["y"].values
        nm = "[%s]" % cls.__name__
        yield "design and data " + nm, list(m.model_data), [X, Z, y, wv]
        t = rng.uniform(-0.4, 0.4, 5 if pois else 6)
        d = (X, Z, y, wv)
        extra = (m.link, m.zero_link) if pois else (m.link, m.f)
        for s in ("loglike", "loglike_i", "gradient", "gradient_i", "hessian") + (() if pois else ("hessian_i",)):
            yield "method %s %s" % (s, nm), getattr(m, s)(t), getattr(cls, "_" + s)(t, d, *extra)
        m.fit()
        yield "fitted model is stationary " + nm, float(np.max(np.abs(m.gradient(m.params))) < 1e-2), 1.0
        H = m.hessian(m.params)
        yield "covariance is the inverse Hessian " + nm, m.params_cov @ H, np.eye(len(H)), dict(atol=1e-5)
        yield "standard errors " + nm, m.params_se, np.sqrt(np.diag(m.params_cov))
        yield "reported likelihood " + nm, m.llf, m.loglike(m.params)
        yield "null model has intercepts only " + nm, m.lln, getattr(cls, "_loglike")(m.null_params, (np.ones((N, 1)), np.ones((N, 1)), y, wv), *extra)
        yield "null model fits no better " + nm, float(m.lln >= m.llf - 1e-6), 1.0
    ck.concrete("zero-inflated models from data frames", models, n=8, functions=[pz + c + s for c in ("ZeroInflatedPoisson.", "ZeroInflatedNBinom.") for s in ("__init__", "loglike", "loglike_i", "gradient", "gradient_i", "hessian", "fit", "_fit")])

    def old(rng, i):
        N = 80
        X = np.column_stack([np.ones(N), rng.normal(size=N)])
        Z = np.column_stack([np.ones(N), rng.normal(size=N)])
        y = np.where(rng.uniform(size=N) < 0.3, 0, rng.poisson(np.exp(X @ [0.8, 0.4]))).astype(float)
        m = zi.ZIP(X, y.reshape(-1, 1) if i % 2 else y, Z if i % 3 else None)
        ZZ = Z if i % 3 else np.ones((N, 1))
        t = rng.uniform(-0.4, 0.4, 2 + ZZ.shape[1])
        d = (X, ZZ, y, np.ones(N))
        L, ZL = lm2.LogLink(), lm2.LogitLink()
        for s in ("loglike", "gradient", "hessian"):
            yield "ZIP from arrays: " + s, getattr(m, s)(t), getattr(P, "_" + s)(t, d, L, ZL)
        df = pd.DataFrame(dict(x=X[:, 1], y=y))
        nbo = nbm.NegativeBinomial("y ~ x", df)
        t = rng.uniform(-0.4, 0.4, 3)
        f = fm2.NegativeBinomial()
        yield "nb2 from formula", nbo.loglike(t), np.sum(f._full_loglike(y, np.exp(X @ t[:2]), 1.0, 1.0, np.exp(t[2])))
        mu = np.exp(X @ t[:2])
        k = np.exp(t[2])
        dev = np.where(y > 0, y * np.log(np.where(y > 0, y, 1) / mu), 0) - (y + 1 / k) * np.log((1 + k * y) / (1 + k * mu))
        yield "nb2 deviance with zero counts", nbo.deviance(t), 2 * dev.sum()
        df["u"] = rng.uniform(0.05, 0.95, N)
        df["z"] = Z[:, 1]
        b1 = brm.BetaReg(m_formula="u ~ x", s_formula="u ~ z", data=df)
        b2 = brm.BetaReg(X=X, Z=Z, y=df["u"].values)
        t = rng.uniform(-0.4, 0.4, 4)
        import scipy.stats
        mu, ph = 1 / (1 + np.exp(-X @ t[:2])), np.exp(Z @ t[2:])
        ll = -scipy.stats.beta(mu * ph, (1 - mu) * ph).logpdf(df["u"].values)
        for b, nm in ((b1, "formula"), (b2, "arrays")):
            yield "BetaReg from " + nm, b.loglike_elementwise(t), ll
            yield "BetaReg total from " + nm, b.loglike(t), ll.sum()
    ck.concrete("models from arrays", old, n=8, functions=["pystatsm/pyglm/zimodels.py::ZIP.__init__", "pystatsm/pyglm/nb2.py::NegativeBinomial.__init__", "pystatsm/pyglm/betareg.py::BetaReg.__init__"])


def asm(hw, X, Z):
    we, wp, wc = hw
    a = np.dot((X * we[:, None]).T, X)
    b = np.dot((Z * wc[:, None]).T, X)
    d = np.dot((Z * wp[:, None]).T, Z)
    return np.concatenate([np.concatenate([a, b.T], axis=1), np.concatenate([b, d], axis=1)], axis=0)
