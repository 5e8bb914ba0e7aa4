"""C09 ordinal regression: category probabilities, likelihood and its derivatives"""
import importlib
import numpy as np
import pandas as pd
from vf.core import D, jac, hess
from vf.sym import F, SArr, has_sym

O1, O2 = 6.0, 7.0  # offsets standing in for an infinite threshold in the proof contracts (the model encodes 300 and -1e6)
LINKS = ["LogitLink", "ProbitLink", "CloglogLink"]
CDF = {"LogitLink": lambda x: 1 / (1 + np.exp(-x)), "ProbitLink": lambda x: F.ndtr(x), "CloglogLink": lambda x: 1 - np.exp(-np.exp(x))}


def patterns(q):
    # category of each row; all q + 1 categories occur
    return [list(range(q + 1)), list(range(q, -1, -1)) if q < 3 else [q, 0, 1, 2]]


def data_for(cats, q, X, w, O1=O1, O2=O2):
    n = len(cats)
    Y = np.zeros((n, q + 1))
    Y[np.arange(n), cats] = 1.0
    B1, B2 = np.concatenate([Y[:, :-1], -X], axis=1), np.concatenate([Y[:, 1:], -X], axis=1)
    o1, o2 = Y[:, -1] * O1, Y[:, 0] * -O2
    return (B1, B2, o1, o2, o1 != 0, w)


def spec_nll(c, cats, q, link, pars, X, w, exact):
    """sum_i -w_i log P(category_i); exact: lowest/highest category use 0 and 1, else the encoded offsets"""
    Fc = CDF[link]
    out = []
    for i, k in enumerate(cats):
        xb = np.sum(X[i] * pars[q:])
        hi = 1 if k == q else Fc(pars[k] - xb)
        lo = Fc(-xb - O2) if k == 0 else Fc(pars[k - 1] - xb)
        out.append(-w[i] * np.log(hi - lo))
    return np.array(out, dtype=object).view(SArr) if c.sym else np.array(out)


def spec_ll_encoded(cats, q, link, pars, X, w):
    Fc = CDF[link]
    s = 0
    for i, k in enumerate(cats):
        xb = np.sum(X[i] * pars[q:])
        hi = Fc(-xb + O1) if k == q else Fc(pars[k] - xb)
        lo = Fc(-xb - O2) if k == 0 else Fc(pars[k - 1] - xb)
        s = s - w[i] * np.log(hi - lo)
    return s


def thresholds(rng, q, p):
    return np.concatenate([np.sort(rng.uniform(-1.6, 1.6, q)) + 0.25 * np.arange(q), rng.uniform(-0.5, 0.5, p)]).round(6)


def run(ck):
    cm = importlib.import_module("pystatsm.pyglm2.clm")
    rm = importlib.import_module("pystatsm.pyglm2.regression_model")
    om = importlib.import_module("pystatsm.pyglm.clm")
    CLM, OT = cm.CLM, cm.OrderedTransform
    p = 2
    pth = "pystatsm/pyglm2/clm.py::CLM."
    for q in (1, 2, 3):
        def rvs(y, q=q):
            out = [y[0]]
            for j in range(1, q):
                out.append(out[-1] + np.exp(y[j]))
            return np.array(out + [y[i] for i in range(q, len(y))], dtype=object).view(SArr)

        def fwd(x, q=q):
            return np.array([x[0]] + [np.log(x[j] - x[j - 1]) for j in range(1, q)] + [x[i] for i in range(q, len(x))], dtype=object).view(SArr)

        def ot(c, x, y, q=q):
            c.eq("thresholds from free coordinates", lambda: OT._rvs(y, q), lambda: rvs(y))
            c.eq("free coordinates from thresholds", lambda: OT._fwd(x, q), lambda: fwd(x))
            c.eq("round trip from free coordinates", lambda: OT._fwd(OT._rvs(y, q), q), lambda: y)
            c.eq("round trip from thresholds", lambda: OT._rvs(OT._fwd(x, q), q), lambda: x)
            c.eq("Jacobian of thresholds", lambda: OT._jac_rvs(y[:q], q), lambda: jac(rvs(y)[:q], y[:q]))
            c.eq("Hessian of thresholds", lambda: OT._hess_rvs(y[:q], q), lambda: hess(rvs(y)[:q], y[:q]))
            c.eq("Jacobian of free coordinates", lambda: OT._jac_fwd(x[:q], q), lambda: jac(fwd(x)[:q], x[:q]))
            c.eq("Hessian of free coordinates", lambda: OT._hess_fwd(x[:q], q), lambda: hess(fwd(x)[:q], x[:q]))
        ck.contract("ordered thresholds q=%d" % q, dict(x=lambda r: thresholds(r, q, p), y=((q + p,), -1.0, 1.0)), ot, n=2,
                    functions=["pystatsm/pyglm2/clm.py::OrderedTransform." + s for s in ("_rvs", "_fwd", "_jac_rvs", "_hess_rvs", "_jac_fwd", "_hess_fwd")])
        for link in LINKS:
            lk2 = getattr(importlib.import_module("pystatsm.pyglm2.links"), link)()
            lk1 = getattr(importlib.import_module("pystatsm.pyglm.links"), link)()
            for cats in patterns(q):
                n = len(cats)

                def body(c, t, X, w, free):
                    data = data_for(cats, q, X, w)
                    if c.sym:
                        data = tuple(d.view(SArr) if has_sym(d) else d for d in data)
                    a = (t, data, lk2, q)
                    nll = lambda th: spec_nll(c, cats, q, link, th, X, w, True)
                    tot = lambda th: np.sum(nll(th))
                    c.eq("negative log-likelihood", lambda: CLM._loglike(*a), lambda: spec_ll_encoded(cats, q, link, t, X, w))
                    c.eq("gradient", lambda: CLM._gradient(*a), lambda: jac(tot(t), t))
                    c.eq("scores per observation", lambda: CLM._gradient_i(*a), lambda: jac(nll(t), t))
                    c.eq("hessian", lambda: CLM._hessian(*a), lambda: hess(tot(t), t))
                    u = (free, data, lk2, q)
                    c.eq("free negative log-likelihood", lambda: CLM._loglike_unconstrained(*u), lambda: spec_ll_encoded(cats, q, link, rvs(free), X, w))
                    c.eq("free gradient", lambda: CLM._gradient_unconstrained(*u), lambda: jac(tot(rvs(free)), free))
                    c.eq("free scores per observation", lambda: CLM._gradient_unconstrained_i(*u), lambda: jac(nll(rvs(free)), free))
                    c.eq("free hessian", lambda: CLM._hessian_unconstrained(*u), lambda: hess(tot(rvs(free)), free))
                    m = om.CLM.__new__(om.CLM)
                    m.B1, m.B2, m.o1, m.o2, m.ix, m.W = data
                    m.f = lk1
                    c.eq("pyglm negative log-likelihood", lambda: m.loglike(t), lambda: spec_ll_encoded(cats, q, link, t, X, w))
                    c.eq("pyglm gradient", lambda: m.gradient(t), lambda: jac(tot(t), t))
                    c.eq("pyglm hessian", lambda: m.hessian(t), lambda: hess(tot(t), t))
                ck.contract("%s q=%d rows %s" % (link, q, cats), dict(t=lambda r: thresholds(r, q, p), X=((n, p), -1.0, 1.0), w=((n,), 0.5, 3.0), free=((q + p,), -0.8, 0.6)), body, n=1, flips=0,
                            functions=[pth + s for s in ("_loglike", "_gradient", "_gradient_i", "_hessian", "_loglike_unconstrained", "_gradient_unconstrained", "_gradient_unconstrained_i", "_hessian_unconstrained")] +
                            ["pystatsm/pyglm/clm.py::CLM." + s for s in ("loglike", "gradient", "hessian")])

    def model(rng, i):
        q = 1 + i % 4
        N = 60
        labels = [np.arange(q + 1.0), np.arange(q + 1.0) * 2 - 3, np.sort(rng.choice(50, q + 1, replace=False)).astype(float)][i % 3]
        X = pd.DataFrame(rng.normal(size=(N, p)), columns=["a", "b"])
        if i % 2:
            X["g"] = rng.choice(list("uvw"), N)
        lat = X["a"].values * 0.7 + rng.logistic(size=N)
        cut = np.quantile(lat, np.linspace(0, 1, q + 2)[1:-1])
        k = np.searchsorted(cut, lat)
        df = X.copy()
        df["y"] = labels[k]
        df = df.sample(frac=1.0, random_state=int(rng.integers(1 << 30)))
        y = df["y"].values
        link = LINKS[i % 3]
        lk = getattr(importlib.import_module("pystatsm.pyglm2.links"), link)
        w = rng.uniform(0.5, 2.0, N) if i % 2 else None
        m = CLM("y ~ a + b" + (" + g" if i % 2 else ""), df, link=lk, weights=w)
        wv = np.ones(N) if w is None else w
        Xd = df[["a", "b"]].values
        if i % 2:
            Xd = np.column_stack([df["g"].values == "v", df["g"].values == "w", Xd]).astype(float)
        nm = "[%s q=%d]" % (link, q)
        yield "design " + nm, m.X, Xd
        kk = np.searchsorted(labels, y)
        B1, B2, o1, o2, ix, ww = m.model_data
        e1, e2, eo1, eo2, eix, ew = data_for(list(kk), q, Xd, wv, 300.0, 1e6)
        yield "encoded categories " + nm, [B1, B2, o1, o2, ix.astype(float), ww], [e1, e2, eo1, eo2, eix.astype(float), ew]
        t = np.concatenate([np.sort(rng.normal(size=q)), rng.normal(size=Xd.shape[1]) * 0.4])
        Fc = lambda x: np.asarray(lk().inv_link(x), dtype=float)
        eta = t[:q][None] - (Xd @ t[q:])[:, None]
        cp = np.column_stack([np.zeros(N), Fc(eta), np.ones(N)])
        P = np.diff(cp, axis=1)
        yield "loglike is the weighted sum of minus log probabilities " + nm, m.loglike(t), -np.sum(wv * np.log(P[np.arange(N), kk]))
        fr = OT._fwd(t, q)
        yield "loglike in free coordinates " + nm, m.loglike_unconstrained(fr), m.loglike(t)
        d = (e1, e2, eo1, eo2, eix, wv)
        for meth, st in (("gradient", "_gradient"), ("gradient_i", "_gradient_i"), ("hessian", "_hessian")):
            yield "method %s %s" % (meth, nm), getattr(m, meth)(t), getattr(CLM, st)(t, d, m.link, q)
        for meth, st in (("gradient_unconstrained", "_gradient_unconstrained"), ("gradient_unconstrained_i", "_gradient_unconstrained_i"), ("hessian_unconstrained", "_hessian_unconstrained")):
            yield "method %s %s" % (meth, nm), getattr(m, meth)(fr), getattr(CLM, st)(fr, d, m.link, q)
        V = np.eye(len(t)) * 0.1 + 0.02
        lin, pr, cpr = m.predict(params=t, params_cov=V)
        yield "predicted probabilities " + nm, pr["mean"].values, P
        yield "predicted cumulative probabilities " + nm, cpr["mean"].values, cp[:, 1:-1]
        yield "predicted probabilities sum to one " + nm, pr["mean"].values.sum(axis=1), np.ones(N)
        yield "predicted probabilities are non-negative " + nm, float((pr["mean"].values >= 0).all()), 1.0
        G = [np.concatenate([np.eye(q)[[j] * N], -Xd], axis=1) for j in range(q)]
        se = np.column_stack([np.sqrt(np.einsum("ij,jk,ik->i", g, V, g)) for g in G])
        yield "predictor standard errors " + nm, lin["se"].values, se
        yield "new-data prediction " + nm, m.predict(params=t, params_cov=V, X=Xd[:7])[1]["mean"].values, P[:7]
        mo = om.CLM("y ~ a + b - 1", df, link=getattr(importlib.import_module("pystatsm.pyglm.links"), link))
        t2 = np.concatenate([t[:q], t[-2:]])
        Po = np.diff(np.column_stack([np.zeros(N), Fc(t2[:q][None] - (df[["a", "b"]].values @ t2[q:])[:, None]), np.ones(N)]), axis=1)
        yield "pyglm loglike " + nm, mo.loglike(t2), -np.sum(np.log(Po[np.arange(N), kk]))
        yield "pyglm ordering constraints " + nm, [float(cc["fun"](t2)) for cc in mo.constraints], list(np.diff(t2[:q]))
    ck.concrete("models from data frames", model, n=24, functions=[pth + s for s in ("__init__", "loglike", "gradient", "gradient_i", "hessian", "loglike_unconstrained", "gradient_unconstrained", "gradient_unconstrained_i", "hessian_unconstrained", "predict")] +
                ["pystatsm/pyglm2/regression_model.py::OrdinalModelData." + s for s in ("from_formulas", "drop_intercept", "compute_ordinal_matrices")] + ["pystatsm/pyglm/clm.py::CLM.__init__"])

    def fits(rng, i):
        q = 1 + i % 3
        N = 150
        df = pd.DataFrame(rng.normal(size=(N, p)), columns=["a", "b"])
        lat = df["a"].values * 0.7 + rng.logistic(size=N)
        df["y"] = np.searchsorted(np.quantile(lat, np.linspace(0, 1, q + 2)[1:-1]), lat).astype(float)
        w = rng.uniform(0.5, 2.0, N) if i % 2 else None
        m = CLM("y ~ a + b", df, weights=w)
        m.fit()
        yield "fitted model is stationary", float(np.max(np.abs(m.gradient(m.params))) < 1e-3), 1.0
        yield "fitted thresholds are ordered", float(np.all(np.diff(m.params[:q]) > 0)), 1.0
        yield "covariance is the inverse Hessian", m.params_cov, np.linalg.inv(m.hessian(m.params))
        yield "standard errors", m.params_se, np.sqrt(np.diag(np.linalg.inv(m.hessian(m.params))))
        yield "reported likelihood", m.llf, m.loglike(m.params)
        wv = np.ones(N) if w is None else w
        k = df["y"].values.astype(int)
        tot = np.array([wv[k == j].sum() for j in range(q + 1)])
        yield "null likelihood is that of the marginal proportions", m.lln, -np.sum(tot * np.log(tot / tot.sum())), dict(rtol=1e-5)
    ck.concrete("fitted models", fits, n=6, functions=[pth + "fit", pth + "_fit"])
