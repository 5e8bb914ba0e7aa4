"""C12 information criteria, likelihood based tests, standard errors and confidence limits"""
import importlib
import numpy as np
import pandas as pd
import scipy.optimize
import scipy.stats as st
from vf.sym import F
from checks.C07 import LINKS, mk
from checks.C08 import fitted


def crit(nll, k, n):
    return [2 * nll + 2 * k, 2 * nll + 2 * k + 2 * k * (k + 1) / (n - k - 1), 2 * nll + k * np.log(n), 2 * nll + k * (np.log(n) + 1)]


def pseudo(l, l0, k, n):
    """textbook definitions; l and l0 are the log-likelihoods of model and null model"""
    lr = 2 * (l - l0)
    cs = 1 - np.exp(2 / n * (l0 - l))
    return [cs, cs / (1 - np.exp(2 / n * l0)), 1 - l / l0, 1 - (l - k) / l0, 1 - (l / l0) ** (-2 * l0 / n), 1 - ((l - k) / l0) ** (-2 * l0 / n),
            lr / (lr + n), lr / (lr + n) * (n - 2 * l0) / (-2 * l0), lr]


PNAMES = ["R2_CS", "R2_NK", "R2_MC", "R2_MB", "R2_ES", "R2_EA", "R2_AN", "R2_VZ", "LLR"]


def restricted(nll, grad, x0, zero):
    free = np.setdiff1d(np.arange(len(x0)), zero)

    def full(v):
        x = np.zeros(len(x0))
        x[free] = v
        return x
    f, g = (lambda v: nll(full(v))), (lambda v: grad(full(v))[free])
    best = None
    for m, kw in (("BFGS", dict(gtol=1e-9)), ("L-BFGS-B", dict(ftol=1e-15, gtol=1e-10)), ("trust-constr", dict(gtol=1e-10, xtol=1e-14, maxiter=2000)), ("SLSQP", dict(ftol=1e-15, maxiter=1000))):
        o = scipy.optimize.minimize(f, np.array(x0)[free] if best is None else best, jac=g, method=m, options=kw)
        if np.all(np.isfinite(o.x)) and (best is None or not f(o.x) > f(best)):
            best = o.x
        if np.abs(g(best)).max() < 1e-6:
            return full(best)
    return None


def run(ck):
    lk = importlib.import_module("pystatsm.pyglm2.likelihood_model")
    om = importlib.import_module("pystatsm.pyglm.linear_model")
    gm = importlib.import_module("pystatsm.pyglm2.glm")
    cm = importlib.import_module("pystatsm.pyglm2.clm")
    zm = importlib.import_module("pystatsm.pyglm2.zinf")
    fm = importlib.import_module("pystatsm.pyglm2.families")
    lm = importlib.import_module("pystatsm.pyglm2.links")
    ou = importlib.import_module("pystatsm.utilities.optimizer_utils")
    out = importlib.import_module("pystatsm.utilities.output")
    f0 = "pystatsm/pyglm2/likelihood_model.py::LikelihoodModel."
    for mn, M in (("pyglm2", lk.LikelihoodModel), ("pyglm", om.LikelihoodModel)):
        def info(c, l, l0, M=M, mn=mn):
            # the reported likelihood is the negative log-likelihood throughout the package
            for k, n in ((1, 7), (3, 20), (6, 150)):
                for j, nm in enumerate(("AIC", "AICC", "BIC", "CAIC")):
                    c.eq("%s k=%d n=%d" % (nm, k, n), lambda j=j, k=k, n=n: M._get_information(l, k, n)[j], lambda j=j, k=k, n=n: crit(l, k, n)[j])
                want = PNAMES if mn == "pyglm2" else PNAMES[:4] + ["LLR"]
                for j, nm in enumerate(want):
                    c.eq("%s k=%d n=%d" % (nm, k, n), lambda j=j, k=k, n=n: M._get_pseudo_rsquared(l, l + l0, k, n)[j],
                         lambda nm=nm, k=k, n=n: pseudo(-l, -l - l0, k, n)[PNAMES.index(nm)])
        ck.contract("criteria " + mn, dict(l=(None, 2.0, 60.0), l0=(None, 8.0, 40.0)), info, n=3, functions=[f0 + "_get_information", f0 + "_get_pseudo_rsquared"])

        def tests(c, th, th0, A, B, C, g, l, d, M=M):
            S = A.dot(A.T)      # symmetric arguments, as the callers pass
            G = B.dot(B.T)
            for q in (1, 2):
                Cq = C[:q]
                mid = lambda Cq=Cq: F.inv(Cq.dot(S).dot(G).dot(S).dot(Cq.T))
                w = lambda Cq=Cq: Cq.dot(th - th0)
                s = lambda Cq=Cq: Cq.dot(S).dot(g)
                c.eq("Wald statistic q=%d" % q, lambda Cq=Cq: M._wald_test(th, th0, Cq, S, G, return_dataframe=False)["Stat"], lambda w=w, mid=mid: w().dot(mid()).dot(w()))
                c.eq("Wald df q=%d" % q, lambda Cq=Cq: M._wald_test(th, th0, Cq, S, G, return_dataframe=False)["df"], lambda q=q: q)
                c.eq("score statistic q=%d" % q, lambda Cq=Cq: M._score_test(g, Cq, S, G, return_dataframe=False)["Stat"], lambda s=s, mid=mid: s().dot(mid()).dot(s()))
                c.eq("score df q=%d" % q, lambda Cq=Cq: M._score_test(g, Cq, S, G, return_dataframe=False)["df"], lambda q=q: q)
                c.eq("Wald p-value q=%d" % q, lambda Cq=Cq: M._wald_test(th, th0, Cq, S, G, return_dataframe=False)["P Value"], lambda w=w, mid=mid, q=q: F.chi2_sf(w().dot(mid()).dot(w()), q))
                c.eq("score p-value q=%d" % q, lambda Cq=Cq: M._score_test(g, Cq, S, G, return_dataframe=False)["P Value"], lambda s=s, mid=mid, q=q: F.chi2_sf(s().dot(mid()).dot(s()), q))
                c.eq("likelihood ratio q=%d" % q, lambda q=q: M._lr_test(l + d, l, q, return_dataframe=False)["Stat"], lambda: 2 * d)
                c.eq("likelihood ratio df q=%d" % q, lambda q=q: M._lr_test(l + d, l, q, return_dataframe=False)["df"], lambda q=q: q)
                c.eq("likelihood ratio p-value q=%d" % q, lambda q=q: M._lr_test(l + d, l, q, return_dataframe=False)["P Value"], lambda q=q: F.chi2_sf(2 * d, q))
        ck.contract("test statistics " + mn, dict(th=((2,), -1.0, 1.0), th0=((2,), -1.0, 1.0), A=((2, 2), -1.5, 1.5), B=((2, 2), -1.5, 1.5), C=((2, 2), -1.0, 1.0), g=((2,), -1.0, 1.0), l=(None, -20.0, -5.0), d=(None, 0.1, 4.0)), tests, n=2,
                    functions=[f0 + "_wald_test", f0 + "_score_test", f0 + "_lr_test"])

        def cons(c, x, v, M=M):
            for ix in ([0, 2], [1], [3, 0, 1], np.array([True, False, True, True]), np.array([False, True, False, False])):
                pos = np.where(ix)[0] if getattr(ix, "dtype", None) == bool else np.array(ix)
                k = len(pos)

                def got(ix=ix, k=k):
                    cs = M._make_constraints(ix, v[:k])
                    r = [q["fun"](x) for q in cs]
                    return np.array(r, dtype=object) if c.sym else np.array(r)
                c.eq("constraints fix exactly the named parameters %s" % list(pos), got, lambda pos=pos, k=k: x[pos] - v[:k])
        ck.contract("constraint builder " + mn, dict(x=((4,), -2.0, 2.0), v=((3,), -2.0, 2.0)), cons, n=2, functions=[f0 + "_make_constraints"])

        def prof(rng, i, M=M):
            p = int(rng.integers(3, 6))
            R = rng.normal(size=(p, p))
            H = R @ R.T + np.eye(p)
            m = rng.normal(size=p)
            c0 = rng.normal()
            ll = lambda t: c0 + 0.5 * (t - m) @ H @ (t - m)
            gr = lambda t: H @ (t - m)
            he = lambda t: H
            k = int(rng.integers(1, p))
            ind = rng.permutation(p)[:k]
            par = m[ind] + rng.normal(size=k)
            fr = np.setdiff1d(np.arange(p), ind)
            t = m.copy()
            t[ind] = par
            t[fr] = m[fr] - np.linalg.solve(H[np.ix_(fr, fr)], H[np.ix_(fr, ind)] @ (par - m[ind]))
            for nm, f in (("restricted", M._profile_loglike_restricted), ("constrained", M._profile_loglike_constrained)):
                v = f(par, ind, m + 0.1, ll, gr, he)
                yield "%s profile of a quadratic" % nm, v, ll(t), dict(rtol=1e-4, atol=1e-5)
                o = f(par, ind, m + 0.1, ll, gr, he, return_info=True)
                x = o.x if len(o.x) == p else None
                if x is None:
                    x = np.zeros(p)
                    x[ind], x[fr] = par, o.x
                yield "%s profile minimiser" % nm, x, t, dict(rtol=1e-3, atol=2e-3)
            j = int(rng.integers(0, p))
            se = np.sqrt(np.linalg.inv(H)[j, j])
            z = st.norm.ppf(0.975)
            pl = lambda v: c0 + 0.5 * ((v - m[j]) / se) ** 2
            for meth in ("root", "lstq"):
                lo, hi = M._solve_interval(lambda v: float(np.squeeze(pl(v))), m[j], se, c0 + z ** 2 / 2, method=meth)
                yield "profile interval (%s)" % meth, [float(np.squeeze(lo)), float(np.squeeze(hi))], [m[j] - z * se, m[j] + z * se], dict(rtol=1e-3, atol=1e-3)
            # a strongly skewed profile needs the bracket search
            sk = lambda v: np.exp(v - m[j]) - (v - m[j]) - 1
            lv = rng.uniform(0.5, 3)
            lo, hi = M._solve_interval(sk, m[j], 0.5, lv)
            yield "profile interval end points are on the contour", [sk(lo), sk(hi)], [lv, lv], dict(rtol=1e-6)
            yield "profile interval straddles the estimate", float(lo < m[j] < hi), 1.0
        ck.concrete("profile likelihood " + mn, prof, n=8, functions=[f0 + x for x in ("_profile_loglike_restricted", "_profile_loglike_constrained", "_solve_interval")])

    def zc(c, x):
        for ix in ([0], [2, 1], [0, 1, 3]):
            z = ou.ZeroConstraint(4, np.array(ix))
            c.eq("zero constraint value %s" % ix, lambda z=z: z.func(x), lambda ix=ix: x[np.array(ix)])
            c.eq("zero constraint Jacobian %s" % ix, lambda z=z: z.grad(x).dot(x), lambda ix=ix: x[np.array(ix)])
    ck.contract("zero constraint", dict(x=((4,), -2.0, 2.0)), zc, n=2, functions=["pystatsm/utilities/optimizer_utils.py::ZeroConstraint"])

    def table(rng, i):
        p = int(rng.integers(1, 6))
        b, se = rng.normal(size=p), rng.uniform(0.1, 2, p)
        for df, dist in ((None, st.norm), (7, st.t(7)), (2.5, st.t(2.5))):
            for al in (0.05, 0.1, 0.32):
                t = out.get_param_table(b, se, df, ["a%d" % j for j in range(p)], alpha=al)
                q = dist.ppf(1 - al / 2)
                yield "estimates and standard errors", t.iloc[:, :2].to_numpy(), np.column_stack([b, se])
                yield "t", t["t"].to_numpy(), b / se
                yield "p", t["p"].to_numpy(), 2 * dist.sf(abs(b / se))
                yield "limits", t.iloc[:, 4:].to_numpy(), np.column_stack([b - q * se, b + q * se])
                yield "limit labels", float(t.columns[4] == "LowerCI%g" % (100 * (1 - al)) and t.columns[5] == "UpperCI%g" % (100 * (1 - al))), 1.0
        n, nb = 15, 60
        th = rng.normal(size=p)
        jk, bt = th + 0.1 * rng.gamma(1.0, size=(n, p)), th + 0.3 * rng.normal(size=(nb, p)) + 0.05
        al = [0.05, 0.2][i % 2]
        got = out.compute_bias_corrected_bootstrap_intervals(th, jk, bt, alpha=al)
        want = np.zeros((p, 2))
        for j in range(p):
            z0 = st.norm.ppf(np.mean(bt[:, j] < th[j]))
            d = jk[:, j].mean() - jk[:, j]
            a = (d ** 3).sum() / (6 * (d ** 2).sum() ** 1.5)
            for s, pr in enumerate((al / 2, 1 - al / 2)):
                z = z0 + st.norm.ppf(pr)
                want[j, s] = np.quantile(bt[:, j], st.norm.cdf(z0 + z / (1 - a * z)))
        if np.all(np.isfinite(want)):
            yield "BCa interval", got, want
    ck.concrete("parameter table and bootstrap limits", table, n=10, functions=["pystatsm/utilities/output.py::get_param_table", "pystatsm/utilities/output.py::compute_bias_corrected_bootstrap_intervals"])

    def summary(nm, m, nll, nll0, k, n):
        s = m.sumstats["Statistic"]
        yield nm + " log-likelihoods", [s["LLF"], s["LLN"]], [nll, nll0], dict(rtol=1e-5, atol=1e-4)
        yield nm + " information criteria", s[["AIC", "AICC", "BIC", "CAIC"]].to_numpy(dtype=float), crit(s["LLF"], k, n)
        ps = pseudo(-s["LLF"], -s["LLN"], k, n)
        for nme, v in zip(PNAMES, ps):
            yield nm + " " + nme, float(s[nme]), v
        yield nm + " attributes", [m.aic, m.aicc, m.bic, m.caic, m.llr], list(s[["AIC", "AICC", "BIC", "CAIC", "LLR"]])

    def ptab(nm, m, k, n):
        cov = np.linalg.inv(m.hessian(m.params))
        se = np.sqrt(np.diag(cov))
        yield nm + " covariance", m.params_cov, cov, dict(rtol=1e-4, atol=1e-7)
        yield nm + " standard errors", m.res["SE"].to_numpy(), se, dict(rtol=1e-4)
        q = st.t(n - k).ppf(0.975)
        yield nm + " parameter p-values", m.res["p"].to_numpy(), 2 * st.t(n - k).sf(abs(m.params / m.params_se))
        yield nm + " confidence limits", m.res.iloc[:, 4:6].to_numpy(), np.column_stack([m.params - q * m.params_se, m.params + q * m.params_se])

    NL = {"Gaussian": lambda y, mu, w, ph, k: -np.sum(st.norm.logpdf(y, mu, np.sqrt(ph / w))),
          "Gamma": lambda y, mu, w, ph, k: -np.sum(st.gamma.logpdf(y, w / ph, scale=mu * ph / w)),
          "InverseGaussian": lambda y, mu, w, ph, k: -np.sum(0.5 * np.log(w / (2 * np.pi * ph * y ** 3)) - w * (y - mu) ** 2 / (2 * ph * y * mu ** 2)),
          "Poisson": lambda y, mu, w, ph, k: -np.sum(w * st.poisson.logpmf(y, mu)),
          "Binomial": lambda y, mu, w, ph, k: -np.sum(w * st.bernoulli.logpmf(y, mu)),
          "NegativeBinomial": lambda y, mu, w, ph, k: -np.sum(st.nbinom.logpmf(y, w / k, 1 / (1 + mu * k / w)))}
    fg = "pystatsm/pyglm2/glm.py::GLM."

    def glm(rng, i):
        fam = ["Gaussian", "Poisson", "Binomial", "Gamma", "InverseGaussian", "NegativeBinomial"][i % 6]
        link = {"InverseGaussian": "LogLink", "Gamma": "LogLink", "NegativeBinomial": "LogLink"}.get(fam, LINKS[fam][0])
        wt = (i // 6) % 2 == 1
        scale = "fixed" if fam in ("Poisson", "Binomial") else ("NR", "M")[(i // 12) % 2]
        if fam == "NegativeBinomial":
            scale, wt = "NR", False
        m, X, y, w = fitted(gm.GLM, fm, lm, fam, link, scale, wt, rng)
        m.fit()
        nm = "%s/%s%s" % (fam, scale, " weighted" if wt else "")
        n, p = X.shape
        npar = p + (scale == "NR")
        mu = m.f.inv_link(X @ m.beta)
        if fam == "NegativeBinomial":
            kap = np.exp(m.params[-1])
            nll = NL[fam](y, mu, w, 1, kap)
            o = scipy.optimize.minimize(lambda t: NL[fam](y, np.exp(t[0]), w, 1, np.exp(t[1])), [np.log(y.mean()), 0.0], method="Nelder-Mead", options=dict(xatol=1e-7, fatol=1e-9, maxiter=4000))
            nll0 = o.fun
        elif fam in ("Poisson", "Binomial"):
            nll = NL[fam](y, mu, w, 1, 1)
            o = scipy.optimize.minimize_scalar(lambda t: NL[fam](y, t, w, 1, 1), bounds=(1e-4, 0.9999 if fam == "Binomial" else y.max() + 1), method="bounded", options=dict(xatol=1e-9))
            nll0 = o.fun
        else:
            ph = np.exp(m.params[-1]) if scale == "NR" else np.sum(w * (y - mu) ** 2 / m.f.var_func(mu=mu)) / (n - p)
            yield nm + " dispersion", m.phi if scale == "M" else ph, ph
            nll = NL[fam](y, mu, w, ph, 1)
            o = scipy.optimize.minimize_scalar(lambda t: NL[fam](y, t, w, ph, 1), bounds=(1e-3 if fam != "Gaussian" else y.min(), y.max()), method="bounded", options=dict(xatol=1e-10))
            nll0 = o.fun
        yield from summary(nm, m, nll, nll0, npar, n)
        yield from ptab(nm, m, npar, n)
        yield nm + " deviance", float(m.sumstats["Statistic"]["Deviance"]), float(np.sum(m.f.deviance(y=y, mu=mu, phi=1.0, dispersion=m.dispersion, weights=w)))
        yield nm + " chi2", float(m.sumstats["Statistic"]["Chi2"]), np.sum(w * (y - mu) ** 2 / m.f.var_func(mu=mu, dispersion=m.dispersion))
        yield nm + " R squared", float(m.sumstats["Statistic"]["R2_SS"]), 1 - np.sum((y - mu) ** 2) / np.sum((y - y.mean()) ** 2)
        Xn = X[:5] + 0.01
        for lev in (0.95, 0.8, 90):
            r = gm.GLM._predict(m.beta, Xn, m.f, coefs_cov=m.beta_cov, mean_ci_level=lev, predicted_ci=False)
            eta = Xn @ m.beta
            se = np.sqrt(np.diag(Xn @ m.beta_cov @ Xn.T))
            z = st.norm.ppf(0.5 + (lev / 100 if lev > 1 else lev) / 2)
            yield nm + " predictor, its standard error and mean", [r["eta"], r["eta_se"], r["mu"]], [eta, se, m.f.inv_link(eta)]
            yield nm + " confidence limits of the mean", [r["eta_lower_ci"], r["eta_upper_ci"], r["mu_lower_ci"], r["mu_upper_ci"]], [eta - z * se, eta + z * se, m.f.inv_link(eta - z * se), m.f.inv_link(eta + z * se)]
    ck.concrete("generalised linear models", glm, n=24, functions=[fg + "fit", fg + "_predict"])

    def frame(rng, n):
        df = pd.DataFrame(rng.normal(size=(n, 2)), columns=["a", "b"])
        df["g"] = pd.Categorical.from_codes(rng.permutation(np.arange(n) % 3), ["u", "v", "w"])
        df["w"] = rng.uniform(0.5, 2, n)
        return df

    TERMS = {"a": 1, "b": 1, "g": 2}

    def rob(m, nll, grad, gi, he, th, name, zero, tabw, tabs):
        k = len(th)
        C = np.zeros((len(zero), k))
        C[np.arange(len(zero)), zero] = 1
        t0 = restricted(nll, grad, th, zero)
        if t0 is None:      # the oracle's own optimiser did not converge: nothing to compare with
            return
        A, G = np.linalg.inv(he(th)), gi(th)
        V = C @ A @ (G.T @ G) @ A @ C.T
        wald = (C @ th) @ np.linalg.solve(V, C @ th)
        A0, G0 = np.linalg.inv(he(t0)), gi(t0)
        V0 = C @ A0 @ (G0.T @ G0) @ A0 @ C.T
        u = C @ A0 @ G0.sum(0)
        sc = u @ np.linalg.solve(V0, u)
        for kind, tab, v in (("Wald", tabw, wald), ("score", tabs, sc)):
            r = tab.loc[name].iloc[0]
            yield "%s statistic" % kind, float(r["Stat"]), v, dict(rtol=2e-2, atol=1e-3)
            yield "%s degrees of freedom" % kind, float(r["df"]), len(zero)
            yield "%s p-value" % kind, float(r["P Value"]), st.chi2(len(zero)).sf(float(r["Stat"])), dict(atol=1e-12)

    def ll(rng, i):
        n = 120
        df = frame(rng, n)
        terms = [["a", "g"], ["g", "a", "b"], ["b", "g"]][i % 3]
        eta = 0.4 * df.a - 0.3 * (df.g == "v") + 0.2
        kind = ["glm", "nb", "clm", "zip"][i % 4]
        wts = df.w.to_numpy() if i % 2 else None
        if kind in ("glm", "nb"):
            df["y"] = rng.poisson(np.exp(eta)) if kind == "glm" else rng.negative_binomial(2, 2 / (2 + np.exp(eta)))
            m = gm.GLM("y~" + "+".join(terms), df, family=fm.Poisson() if kind == "glm" else fm.NegativeBinomial(), weights=wts if kind == "glm" else None, scale_estimator="fixed" if kind == "glm" else "NR")
            if kind == "nb":
                m = gm.GLM("y~" + "+".join(terms), df, family=fm.NegativeBinomial(link=lm.LogLink), scale_estimator="NR")
            off, lead = 0, 1
        elif kind == "clm":
            z = eta + rng.logistic(size=n)
            df["y"] = np.digitize(z, np.quantile(z, [0.3, 0.6])).astype(float)
            m = cm.CLM("y~" + "+".join(terms), df, weights=wts)
            off, lead = m.q, 0
        else:
            df["y"] = np.where(rng.uniform(size=n) < 0.3, 0, rng.poisson(np.exp(eta + 0.7)))
            m = zm.ZeroInflatedPoisson("y~" + "+".join(terms), "~1+b", df, weights=wts)
        m.fit()
        th = np.asarray(m.params, dtype=float)
        if kind == "clm":
            yield "CLM parameter count", m.n_params, m.q + sum(TERMS[t] for t in terms)
            W = np.ones(n) if wts is None else wts
            tot = np.array([W[df.y.to_numpy() == v].sum() for v in np.unique(df.y)])
            B1, B2, o1, o2 = m.model_data.data[:4]
            nll = -np.sum(W * np.log(1 / (1 + np.exp(-(B1 @ th + o1))) - 1 / (1 + np.exp(-(B2 @ th + o2)))))
            yield from summary("CLM", m, nll, -np.sum(tot * np.log(tot / W.sum())), len(th), n)
            yield from ptab("CLM", m, len(th), n)
        if kind == "zip":
            W = np.ones(n) if wts is None else wts
            yy = df.y.to_numpy(dtype=float)

            def z(lam, om_):
                return -np.sum(W * np.where(yy == 0, np.log(om_ + (1 - om_) * np.exp(-lam)), np.log(1 - om_) + st.poisson.logpmf(yy, lam)))
            p1 = m.X.shape[1]
            nll = z(np.exp(m.X @ th[:p1]), 1 / (1 + np.exp(-m.Z @ th[p1:])))
            o = scipy.optimize.minimize(lambda t: z(np.exp(t[0]), 1 / (1 + np.exp(-t[1]))), [0.5, -0.5], method="Nelder-Mead", options=dict(xatol=1e-8, fatol=1e-10, maxiter=4000))
            yield from summary("ZIP", m, nll, o.fun, len(th), n)
            yield from ptab("ZIP", m, len(th), n)
            m.ll_tests2(ll=m.loglike)
            m.make_termwise_constraint_matrices2()
            pos = 0
            for ai, ts in enumerate((terms, ["b"])):
                q = pos + 1
                # terms in design order
                for t in m.design_info[ai].term_names:
                    if t == "Intercept":
                        continue
                    zero = np.arange(q, q + TERMS[t])
                    q += TERMS[t]
                    C = np.zeros((len(zero), len(th)))
                    C[np.arange(len(zero)), zero] = 1
                    yield "ZIP constraint matrix", m.constraint_matrices[ai][t], C
                    for lab, *r in rob(m, m.loglike, m.gradient, m.gradient_i, m.hessian, th, "array_%d_%s" % (ai, t), zero, m.wald_tests, m.score_tests):
                        yield ("ZIP term " + lab, *r)
                pos = q
            return
        kw = dict(ll=m.loglike, offset=off)
        if kind == "nb":
            kw["scale"] = True
        m.ll_tests(**kw)
        m.make_termwise_constraint_matrices(offset=off)
        pos = off + lead
        for t in m.x_design_info.term_names:
            if t == "Intercept":
                continue
            zero = np.arange(pos, pos + TERMS[t])
            pos += TERMS[t]
            C = np.zeros((len(zero), len(th)))
            C[np.arange(len(zero)), zero] = 1
            yield "%s constraint matrix" % kind, m.constraint_matrices[t], C
            for lab, *r in rob(m, m.loglike, m.gradient, m.gradient_i, m.hessian, th, t, zero, m.wald_tests, m.score_tests):
                yield ("%s term %s" % (kind, lab), *r)
    ck.concrete("termwise tests", ll, n=12, functions=["pystatsm/pyglm2/regression_model.py::RegressionMixin." + x for x in ("ll_tests", "ll_tests2", "make_termwise_constraint_matrices", "make_termwise_constraint_matrices2")] +
                ["pystatsm/pyglm2/clm.py::CLM.fit", "pystatsm/pyglm2/zinf.py::ZeroInflatedPoisson.fit"])

    def zinb(rng, i):
        n = 150
        df = frame(rng, n)
        mu = np.exp(0.4 * df.a + 1.0)
        yy = np.where(rng.uniform(size=n) < 0.25, 0, rng.negative_binomial(3, 3 / (3 + mu))).astype(float)
        df["y"] = yy
        m = zm.ZeroInflatedNBinom("y~a", "~1", df)
        m.fit()
        th = np.asarray(m.params, dtype=float)

        def z(m1, om_, k):
            P = st.nbinom.pmf(yy, 1 / k, 1 / (1 + m1 * k))
            return -np.sum(np.log(np.where(yy == 0, om_, 0) + (1 - om_) * P))
        nll = z(np.exp(m.X @ th[:2]), 1 / (1 + np.exp(-m.Z @ th[2:3])), np.exp(th[3]))
        o = scipy.optimize.minimize(lambda t: z(np.exp(t[0]), 1 / (1 + np.exp(-t[1])), np.exp(t[2])), [1.0, -1.0, -1.0], method="Nelder-Mead", options=dict(xatol=1e-8, fatol=1e-10, maxiter=6000))
        yield from summary("ZINB", m, nll, o.fun, 4, n)
        yield from ptab("ZINB", m, 4, n)
    ck.concrete("zero-inflated negative binomial summary", zinb, n=2, functions=["pystatsm/pyglm2/zinf.py::ZeroInflatedNBinom.fit"])
