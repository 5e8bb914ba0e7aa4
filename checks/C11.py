"""C11 linear regression: normal equations, exact statistics, likelihood derivatives"""
import importlib
import numpy as np
import pandas as pd
import scipy.stats
from vf.core import D, jac, hess
from vf.sym import F, SArr


def vec(xs):
    return np.array(xs, dtype=object).view(SArr)


def run(ck):
    om = importlib.import_module("pystatsm.pyglm2.ols")
    mm = importlib.import_module("pystatsm.pyglm2.mvols")
    rm = importlib.import_module("pystatsm.pyglm2.regression_model")
    lm = importlib.import_module("pystatsm.pyglm.linear_model")
    R = rm.RegressionMixin

    def gauss_nll(e, lv, m):
        return m / 2 * (np.log(2 * F.pi) + lv) + np.exp(-lv) * np.sum(e * e) / 2

    for nm, C in (("OLS", om.OLS), ("LinearModel", lm.LinearModel)):
        fp = ("pystatsm/pyglm2/ols.py::OLS." if nm == "OLS" else "pystatsm/pyglm/linear_model.py::LinearModel.")
        for n, p in ((3, 2), (5, 1), (5, 3)):
            for reml in (True, False):
                def ll(c, X, y, t, C=C, n=n, p=p, reml=reml):
                    d = (X, y)
                    m = n - p if reml else n

                    def nll():
                        return gauss_nll(y - X.dot(t[:p]), t[p], m)
                    c.eq("negative Gaussian log-likelihood", lambda: C._loglike(t, d, reml=reml), nll)
                    c.eq("gradient", lambda: C._gradient(t, d, reml=reml), lambda: jac(nll(), t))
                    c.eq("Hessian", lambda: C._hessian(t, d, reml=reml), lambda: hess(nll(), t))
                ck.contract("%s likelihood %dx%d reml=%s" % (nm, n, p, reml), dict(X=((n, p), -2.0, 2.0), y=((n,), -2.0, 2.0), t=((p + 1,), -1.0, 1.0)), ll, n=2,
                            functions=[fp + x for x in ("_loglike", "_gradient", "_hessian")])

                def ft(c, X, y, C=C, n=n, p=p, reml=reml):
                    d = (X, y)
                    m = n - p if reml else n
                    for meth in ("_fit1", "_fit2"):
                        def f(i, meth=meth):
                            return lambda: getattr(C, meth)(None, d, reml=reml)[i]

                        def e(meth=meth):
                            return y - X.dot(getattr(C, meth)(None, d, reml=reml)[5])
                        c.eq(meth + " normal equations", lambda e=e: X.T.dot(e()), lambda: np.zeros(p))
                        c.eq(meth + " cross-product matrix", f(0), lambda: X.T.dot(X))
                        c.eq(meth + " inverse", lambda f=f: f(1)().dot(X.T.dot(X)), lambda: np.eye(p))
                        c.eq(meth + " factor", lambda f=f: f(2)().dot(f(2)().T), lambda: X.T.dot(X))
                        c.eq(meth + " inverse factor", lambda f=f: f(2)().dot(f(3)()), lambda: np.eye(p))
                        c.eq(meth + " residual sum of squares", f(4), lambda e=e: np.sum(e() ** 2))
                        c.eq(meth + " parameters", lambda f=f: f(6)()[:p], f(5))
                        c.eq(meth + " log variance", lambda f=f: np.exp(f(6)()[p]), lambda e=e: np.sum(e() ** 2) / m)
                if p < 3:
                    ck.contract("%s fit %dx%d reml=%s" % (nm, n, p, reml), dict(X=((n, p), -2.0, 2.0), y=((n,), -2.0, 2.0)), ft, n=2,
                                functions=[fp + "_fit1", fp + "_fit2"])

        def con(rng, i, C=C):
            n, p = int(rng.integers(6, 30)), int(rng.integers(2, 5))
            k = int(rng.integers(1, p))
            X, y = rng.normal(size=(n, p)), rng.normal(size=n)
            A, d = rng.normal(size=(k, p)), rng.normal(size=k)
            b = np.linalg.lstsq(X, y, rcond=None)[0]
            sse = np.sum((y - X @ b) ** 2)
            pars = np.append(b, 0.3)
            for dd in (d, None):
                rhs = np.zeros(k) if dd is None else dd
                K = np.block([[X.T @ X, A.T], [A, np.zeros((k, k))]])
                w = np.linalg.solve(K, np.concatenate([X.T @ y, rhs]))[:p]
                L = np.linalg.cholesky(X.T @ X)
                for how, kw in (("data", {}), ("L", dict(L=L)), ("Linv", dict(Linv=np.linalg.inv(L)))):
                    g, s = C._get_coef_constrained(pars, sse, (X, y), A, d=dd, **kw)
                    yield "constrained coefficients minimise under C b = d (%s)" % how, g, w
                    yield "constrained residual sum of squares (%s)" % how, s, np.sum((y - X @ w) ** 2)
        ck.concrete("%s constrained least squares" % nm, con, n=10, functions=[fp + "_get_coef_constrained"])

    def frame(rng, n, p, q=1):
        df = pd.DataFrame(rng.normal(size=(n, p)), columns=["x%d" % j for j in range(p)])
        df["g"] = pd.Categorical.from_codes(np.arange(n) % 3, ["a", "b", "c"])
        for j in range(q):
            df["y%d" % j] = df.x0 * (1 + j) - 0.3 * j + rng.normal(size=n)
        return df

    def whole(rng, i):
        n, p = int(rng.integers(12, 40)), int(rng.integers(1, 4))
        df = frame(rng, n, p)
        w = None if i % 3 == 0 else rng.uniform(0.2, 3, n)
        rhs = "+".join("x%d" % j for j in range(p)) + ("+g" if i % 2 else "")
        if i % 4 == 3:
            m = om.OLS(X=np.column_stack([np.ones(n), df[["x%d" % j for j in range(p)]].to_numpy()]), y=df.y0.to_numpy(), weights=w)
        else:
            m = om.OLS(formula="y0~" + rhs, data=df, weights=w)
        reml = bool(i % 5)
        m.fit(reml=reml)
        X, y = m.X, df.y0.to_numpy()
        W = np.ones(n) if w is None else w
        k = X.shape[1]
        b = np.linalg.solve(X.T @ (W[:, None] * X), X.T @ (W * y))
        e = y - X @ b
        sse = np.sum(W * e * e)
        yield "weighted normal equations", X.T @ (W * (y - X @ m.beta)), np.zeros(k), dict(atol=1e-8)
        yield "coefficients", m.beta, b
        yield "SSE", m.sse, sse
        yield "scale", m.scale, np.sqrt(sse / (n - k if reml else n))
        yield "ML scale", m.scale_ml, np.sqrt(sse / n)
        yield "unbiased scale", m.scale_unbiased, np.sqrt(sse / (n - k))
        s2 = m.scale ** 2
        cov = s2 * np.linalg.inv(X.T @ (W[:, None] * X))
        yield "covariance of the coefficients", m.params_cov[:k, :k], cov
        yield "standard errors", m.params_se[:k], np.sqrt(np.diag(cov))
        yield "fitted values", m.yhat, X @ b
        yb = np.sum(W * y) / np.sum(W)
        sst = np.sum(W * (y - yb) ** 2)
        ss = m.ssq
        yield "residual sum of squares table", ss.iloc[0].to_numpy(dtype=float), [sse, n - k, sse / (n - k)]
        ssm = np.sum(W * (X @ b - yb) ** 2)
        yield "model sum of squares table", ss.iloc[1].to_numpy(dtype=float), [ssm, k - 1, ssm / (k - 1)]
        yield "total sum of squares table", ss.iloc[2].to_numpy(dtype=float), [sst, n - 1, sst / (n - 1)]
        yield "sums of squares add up", ssm + sse, sst
        st = m.sumstats["Statistic"].to_numpy(dtype=float)
        fv = ssm / (k - 1) / (sse / (n - k))
        yield "R squared, adjusted, F", st, [1 - sse / sst, 1 - sse / (n - k) / (sst / (n - 1)), fv]
        yield "F p-value", float(m.sumstats["P"].iloc[2]), scipy.stats.f(k - 1, n - k).sf(fv)
        r = m.res
        t = m.params / m.params_se
        yield "t statistics", r["t"].to_numpy(), t
        yield "t p-values", r["p"].to_numpy(), 2 * scipy.stats.t(n - k).sf(abs(t))
        q = scipy.stats.t(n - k).ppf(0.975)
        yield "confidence limits", r.iloc[:, 4:6].to_numpy(), np.column_stack([m.params - q * m.params_se, m.params + q * m.params_se])
        dd = m.params + rng.normal(size=k + 1) * 0.2
        for rl in (True, False):
            nn = n - k if rl else n
            ee = y - X @ dd[:k]
            yield "model log-likelihood reml=%s" % rl, m.loglike(dd, reml=rl), nn / 2 * (np.log(2 * np.pi) + dd[k]) + np.sum(W * ee ** 2) * np.exp(-dd[k]) / 2
            yield "model gradient reml=%s" % rl, m.gradient(dd, reml=rl), np.append(-np.exp(-dd[k]) * X.T @ (W * ee), nn / 2 - np.sum(W * ee ** 2) * np.exp(-dd[k]) / 2)
        yield "stationary at the fit", m.gradient(m.params, reml=reml), np.zeros(k + 1), dict(atol=1e-7)
        yield "prediction", m.predict(X[:3] * 2), 2 * X[:3] @ b
    ck.concrete("OLS fitted model", whole, n=16, functions=["pystatsm/pyglm2/ols.py::OLS." + x for x in ("__init__", "_fit", "fit", "loglike", "gradient", "hessian", "predict")])

    # leverage and sandwich meat
    def lev(c, X, G):
        n, p = np.shape(X)
        c.eq("leverage through Cholesky", lambda: R._compute_leverage_cholesky(X), lambda: np.diag(X.dot(F.inv(X.T.dot(X))).dot(X.T)))
        c.eq("leverage from a given factor", lambda: R._compute_leverage_cholesky(X, Linv=G), lambda: np.diag(X.dot(G.T.dot(G)).dot(X.T)))
        c.eq("leverage from a given basis", lambda: R._compute_leverage_qr(Q=X), lambda: np.diag(X.dot(X.T)))
    for n, p in ((3, 1), (3, 2), (4, 2)):
        ck.contract("leverage %dx%d" % (n, p), dict(X=((n, p), -2.0, 2.0), G=((p, p), -1.0, 1.0)), lev, n=2,
                    functions=["pystatsm/pyglm2/regression_model.py::RegressionMixin._compute_leverage_cholesky"])

        def levs(c, X, M=R):
            c.eq("leverage through QR", lambda: M._compute_leverage_qr(X), lambda: np.diag(X.dot(F.inv(X.T.dot(X))).dot(X.T)))
        ck.contract("QR leverage %dx%d" % (n, p), dict(X=((n, p), -2.0, 2.0)), levs, n=2,
                    functions=["pystatsm/pyglm2/regression_model.py::RegressionMixin._compute_leverage_qr"])

    def levq(rng, i):
        n, p = int(rng.integers(4, 30)), int(rng.integers(1, 4))
        X = rng.normal(size=(n, p))
        for M in (R, lm.RegressionMixin):
            yield "QR leverage", M._compute_leverage_qr(X), np.diag(X @ np.linalg.pinv(X))
            yield "Cholesky leverage", M._compute_leverage_cholesky(X), np.diag(X @ np.linalg.pinv(X))
    ck.concrete("leverage through QR", levq, n=10, functions=["pystatsm/pyglm2/regression_model.py::RegressionMixin._compute_leverage_qr"])

    def meat(c, X, g, h, M=R):
        n, p = np.shape(X)
        om_ = {"HC0": lambda: g ** 2, "HC1": lambda: g ** 2 * n / (n - p), "HC2": lambda: g ** 2 / (1 - h), "HC3": lambda: g ** 2 / (1 - h) ** 2}
        for k, f in om_.items():
            c.eq(k, lambda k=k: M.sandwich_cov(g, X, leverage=h, kind=k), lambda f=f: (X * f()[:, None]).T.dot(X))
        c.near("HC4", lambda: M.sandwich_cov(g, X, leverage=h, kind="HC4"),
               lambda: (X * (g ** 2 / (1 - h) ** np.minimum(4, n * h / np.sum(h)))[:, None]).T.dot(X))
    for mn, M in (("pyglm2", R), ("pyglm", lm.RegressionMixin)):
        ck.contract("robust covariance meat " + mn, dict(X=((4, 2), -2.0, 2.0), g=((4,), -2.0, 2.0), h=((4,), 0.05, 0.9)),
                    lambda c, X, g, h, M=M: meat(c, X, g, h, M), n=3, functions=["pystatsm/pyglm2/regression_model.py::RegressionMixin.sandwich_cov"])

        def rsq(c, y, m, M=M):
            c.eq("R squared", lambda: M._rsquared(y, m), lambda: 1 - np.sum((y - m) ** 2) / np.sum((y - np.sum(y) / len(y)) ** 2))
        ck.contract("R squared " + mn, dict(y=((4,), -2.0, 2.0), m=((4,), -2.0, 2.0)), rsq, n=2, functions=["pystatsm/pyglm2/regression_model.py::RegressionMixin._rsquared"])

    # multivariate regression
    MV, PK = mm.MVOLS, mm.MMRParameterPacker
    fm = "pystatsm/pyglm2/mvols.py::"
    for n, p, q in ((3, 2, 2), (3, 1, 3), (2, 2, 1), (3, 2, 3)):
        pk = PK(p, q)
        nt = p * q + q * (q + 1) // 2

        def tri(t, p=p, q=q):
            L = np.zeros((q, q), dtype=object).view(SArr)
            k = p * q
            for r in range(q):
                for s in range(r + 1):
                    L[r, s] = np.exp(t[k]) if r == s else t[k]
                    k += 1
            return L

        def Bof(t, p=p, q=q):
            return vec([[t[j * p + i] for j in range(q)] for i in range(p)])

        def nlls(X, Y, w, t, n=n, p=p, q=q):
            """per-row weighted negative log density of N(B'x, (L L')^-1)"""
            L, B = tri(t), Bof(t)
            out = []
            for i in range(n):
                u = (Y[i] - X[i].dot(B)).dot(L)
                out.append(w[i] * (q * np.log(2 * F.pi) / 2 - sum(t[p * q + r * (r + 1) // 2 + r] for r in range(q)) + np.sum(u * u) / 2))
            return vec(out)

        def mv(c, X, Y, w, t, pk=pk, n=n, p=p, q=q):
            d = (X, Y, w)
            c.eq("negative log-likelihood", lambda: MV._loglike(t, d, pk), lambda: np.sum(nlls(X, Y, w, t)))
            c.eq("gradient", lambda: MV._gradient(t, d, pk), lambda: jac(np.sum(nlls(X, Y, w, t)), t))
            c.eq("scores", lambda: MV._gradient_i(t, d, pk), lambda: jac(nlls(X, Y, w, t), t))
            if n * p * q < 18 or ck.thorough:
                c.eq("Hessian", lambda: MV._hessian(t, d, pk), lambda: hess(np.sum(nlls(X, Y, w, t)), t))
            c.eq("unpacked coefficients", lambda: pk.unpack(t)[0], lambda: Bof(t))
            c.eq("unpacked factor", lambda: pk.unpack(t)[1], lambda: tri(t))
            c.eq("pack after unpack", lambda: pk.pack(*pk.unpack(t)), lambda: t)

            def stack():
                L = pk.unpack(t)[1]
                O = L.dot(L.T)
                return vec([[[D(O[i, j], t[p * q + a]) for j in range(q)] for i in range(q)] for a in range(nt - p * q)])
            c.eq("derivative of the precision matrix", lambda: mm._omega_first_stack(pk.unpack(t)[1], pk)[0], stack)
        ck.contract("MVOLS likelihood n=%d p=%d q=%d" % (n, p, q), dict(X=((n, p), -1.5, 1.5), Y=((n, q), -1.5, 1.5), w=((n,), 0.3, 2.0), t=((nt,), -0.7, 0.7)), mv, n=2,
                    functions=[fm + x for x in ("MVOLS._loglike", "MVOLS._gradient", "MVOLS._gradient_i", "MVOLS._hessian", "MMRParameterPacker.pack", "MMRParameterPacker.unpack", "_omega_first_stack")])

    def sscp(c, B, Gi, E, L, M):
        q = np.shape(B)[1]

        def want(M_):
            lb = L.dot(B) if M_ is None else L.dot(B).dot(M_)
            return lb.T.dot(F.inv(L.dot(Gi).dot(L.T))).dot(lb)
        c.eq("hypothesis SSCP", lambda: MV._hypothesis_sscp(B, Gi, E, L)[0], lambda: want(None))
        c.eq("error SSCP", lambda: MV._hypothesis_sscp(B, Gi, E, L)[1], lambda: E)
        c.eq("hypothesis SSCP, transformed", lambda: MV._hypothesis_sscp(B, Gi, E, L, M)[0], lambda: want(M))
        c.eq("error SSCP, transformed", lambda: MV._hypothesis_sscp(B, Gi, E, L, M)[1], lambda: M.T.dot(E).dot(M))
    ck.contract("MANOVA cross-products", dict(B=((3, 2), -1.5, 1.5), Gi=((3, 3), -1.5, 1.5), E=((2, 2), -1.5, 1.5), L=((2, 3), -1.5, 1.5), M=((2, 2), -1.5, 1.5)), sscp, n=2,
                functions=[fm + "MVOLS._hypothesis_sscp"])

    def ftests(c, lam, ny, dfh, dfe, s):
        m_, n_ = (abs(ny - dfh) - 1) / 2, (dfe - ny - 1) / 2
        c.eq("Pillai", lambda: mm._pillai_ftest(lam, s, m_, n_), lambda: ((2 * n_ + s + 1) / (2 * m_ + s + 1) * lam / (s - lam), s * (2 * m_ + s + 1), s * (2 * n_ + s + 1)))
        c.eq("Roy", lambda: mm._roy_ftest(lam, ny, dfh, dfe), lambda: (lam * (dfe - max(ny, dfh) + dfh) / max(ny, dfh), max(ny, dfh), dfe - max(ny, dfh) + dfh))

        def hot():
            b = (ny + 2 * n_) * (dfh + 2 * n_) / (2 * (2 * n_ + 1) * (n_ - 1))
            d2 = 4 + (ny * dfh + 2) / (b - 1)
            return (d2 / (ny * dfh) * lam * 2 * n_ / (d2 - 2), ny * dfh, d2)
        c.eq("Hotelling (n > 0)", lambda: mm._hotelling_ftest(lam, s, m_, n_, ny, dfh), hot)
        c.eq("Hotelling (n <= 0)", lambda: mm._hotelling_ftest(lam, s, m_, -0.5, ny, dfh), lambda: ((s * (-0.5 * s + 1)) / (s * (2 * m_ + s + 1)) / s * lam, s * (2 * m_ + s + 1), s * (-0.5 * s + 1)))
    for ny, dfh, dfe in ((2, 3, 11), (3, 1, 12), (1, 2, 9), (4, 2, 15)):
        ck.contract("MANOVA F approximations ny=%d dfh=%d" % (ny, dfh), dict(lam=(None, 0.1, 0.8)), lambda c, lam, ny=ny, dfh=dfh, dfe=dfe: ftests(c, lam, ny, dfh, dfe, min(ny, dfh)), n=2,
                    functions=[fm + x for x in ("_pillai_ftest", "_hotelling_ftest", "_roy_ftest")])

    def wilks(rng, i):
        ny, dfh, dfe, lam = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(8, 30)), rng.uniform(0.05, 0.95)
        f, d1, d2 = mm._wilks_ftest(lam, ny, dfh, dfe)
        yield "numerator df", d1, ny * dfh
        if min(ny, dfh) == 1:          # exact F
            k = max(ny, dfh)
            dd = dfe if ny == 1 else dfe - ny + 1
            yield "exact denominator df", d2, dd
            yield "exact F", f, (1 - lam) / lam * dd / k
        elif min(ny, dfh) == 2:        # exact F in sqrt(lambda)
            k = max(ny, dfh)
            dd = 2 * (dfe - 1) if ny == 2 else 2 * (dfe - ny + 1)
            yield "exact denominator df", d2, dd
            yield "exact F", f, (1 - np.sqrt(lam)) / np.sqrt(lam) * dd / (2 * k)
        else:
            t = np.sqrt((ny ** 2 * dfh ** 2 - 4) / (ny ** 2 + dfh ** 2 - 5))
            dd = (dfe - (ny - dfh + 1) / 2) * t - (ny * dfh - 2) / 2
            yield "Rao denominator df", d2, dd
            yield "Rao F", f, (1 - lam ** (1 / t)) / lam ** (1 / t) * dd / (ny * dfh)
    ck.concrete("Wilks F approximation", wilks, n=60, functions=[fm + "_wilks_ftest"])

    def mvwhole(rng, i):
        n, p, q = int(rng.integers(30, 60)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
        df = frame(rng, n, p, q)
        w = None if i % 3 == 0 else rng.uniform(0.3, 2.5, n)
        rhs = "+".join("x%d" % j for j in range(p)) + ("+g" if i % 2 else "")
        m = MV(formula="+".join("y%d" % j for j in range(q)) + "~" + rhs, data=df, weights=w)
        if q > 1 or True:
            Y = df[["y%d" % j for j in range(q)]].to_numpy()
            if i % 5 == 4 or q > 1:  # array interface (a formula left side adds nothing new for q = 1)
                X0 = m.X
                m = MV(X=X0, y=Y, weights=w)
        m.fit()
        X = m.X
        W = np.ones(n) if w is None else w
        k = X.shape[1]
        Gm = X.T @ (W[:, None] * X)
        B = np.linalg.solve(Gm, X.T @ (W[:, None] * Y))
        E = Y - X @ B
        S = E.T @ (W[:, None] * E)
        yield "weighted normal equations", X.T @ (W[:, None] * (Y - X @ m.beta)), np.zeros((k, q)), dict(atol=1e-8)
        yield "coefficients", m.beta, B
        yield "residuals", m.residuals, E
        yield "fitted", m.fitted_values, X @ B
        yield "ML covariance", m.sigma_mle, S / W.sum()
        yield "precision", m.precision @ (S / W.sum()), np.eye(q), dict(atol=1e-7)
        yield "residual SSCP", m.resid_sscp, S
        yield "unbiased covariance", m.sigma_unbiased, S / (n - k)
        yield "covariance of the coefficients", m.coefs_cov, np.kron(S / W.sum(), np.linalg.inv(Gm)), dict(rtol=1e-5, atol=1e-9)
        yield "standard errors", m.coefs_se, np.sqrt(np.diag(np.kron(S / W.sum(), np.linalg.inv(Gm)))), dict(rtol=1e-5)
        yb = np.average(Y, axis=0, weights=W)
        T = (Y - yb).T @ (W[:, None] * (Y - yb))
        yield "total SSCP", m.total_sscp, T
        yield "R squared per response", m.rsquared["R2"].to_numpy(), 1 - np.diag(S) / np.diag(T)
        yield "adjusted R squared", m.rsquared["R2_adj"].to_numpy(), 1 - (np.diag(S) / (n - k)) / (np.diag(T) / (n - 1))
        yield "R squared (trace)", m.r2_trace, 1 - np.trace(S) / np.trace(T)
        ll = -W.sum() / 2 * (q * np.log(2 * np.pi) + np.linalg.slogdet(S / W.sum())[1] + q)
        yield "log-likelihood", m.llf, ll
        npar = k * q + q * (q + 1) // 2
        yield "information criteria", [m.aic, m.aicc, m.bic, m.caic], [-2 * ll + 2 * npar, -2 * ll + 2 * npar * n / (n - npar - 1), -2 * ll + npar * np.log(n), -2 * ll + npar * (np.log(n) + 1)]
        yield "stationary at the fit", m.gradient(m.params), np.zeros(npar), dict(atol=1e-6)
        yield "scores add up", m.gradient_i(m.params).sum(0), np.zeros(npar), dict(atol=1e-6)
        yield "prediction", m.predict(X[:2] * 3), 3 * X[:2] @ B
        # all-slopes hypothesis: T = H + S when an intercept is present
        ev = np.sort(np.linalg.eigvals(np.linalg.solve(S, T - S)).real)[::-1]
        ev = ev[ev > 1e-8]
        tab = m.assoc["Value"]
        s = min(q, k - 1)
        wl, pl, hl, ro = np.prod(1 / (1 + ev)), np.sum(ev / (1 + ev)), ev.sum(), ev.max()
        yield "association measures", tab.to_numpy(), [wl, pl, hl, ro, 1 - wl, 1 - wl ** (1 / s), pl / s, hl / s / (1 + hl / s), ro / (1 + ro), np.mean(ev / (1 + ev))]
        yield "canonical correlations", m.canonical_corr, np.sqrt(ev / (1 + ev))
        mt = m.mv_tests
        yield "joint test of all slopes", (mt.loc["Regression"] if "Regression" in mt.index.get_level_values(0) else mt)["Value"].to_numpy()[:4], [wl, pl, hl, ro]
        L = rng.normal(size=(1, k))
        lb = L @ B
        H = lb.T @ lb / float(L @ np.linalg.inv(Gm) @ L.T)
        fst = np.trace(np.linalg.solve(S, H)) * (n - k - q + 1) / q
        th = m.test_hypothesis(L)
        yield "one-row hypothesis: exact F of all four statistics", th["F Value"].to_numpy()[:2], [fst, fst]
        yield "one-row hypothesis p-value", th["P Value"].to_numpy()[:2], [scipy.stats.f(q, n - k - q + 1).sf(fst)] * 2, dict(atol=1e-9)
        if i % 4 == 0:
            m2 = MV(X=X, y=Y, weights=w)
            m2.fit(method="mle")
            yield "iterative fit agrees with the closed form", m2.beta, B, dict(rtol=1e-3, atol=1e-3)
    ck.concrete("MVOLS fitted model", mvwhole, n=16, functions=[fm + "MVOLS." + x for x in ("__init__", "_closed_form_theta", "fit", "_store_estimates", "_store_sscp", "test_hypothesis", "multivariate_tests", "_measures_of_association", "_response_rsquared", "_store_summary", "predict")])

    def data(rng, i):
        n = int(rng.integers(5, 12))
        X, Z, y = rng.normal(size=(n, 2)), rng.normal(size=(n, 1)), rng.normal(size=n)
        w = rng.uniform(0.5, 2, n)
        miss = rng.choice(n, 2, replace=False)
        X[miss[0], 1] = np.nan
        Z[miss[1], 0] = np.nan
        md = rm.ModelData(X.copy(), Z.copy(), y.reshape(-1, 1).copy(), weights=w.copy())
        ix = rng.integers(0, n, 4)
        got = md[ix]
        for g, s in zip(got, (X, Z, y.reshape(-1, 1), w)):
            yield "selected rows", np.nan_to_num(g), np.nan_to_num(s[ix])
        md.drop_missing()
        keep = ~(np.isnan(X).any(1) | np.isnan(Z).any(1))
        for g, s in zip(md, (X, Z, y.reshape(-1, 1), w)):
            yield "complete rows kept together", g, s[keep]
        md.flatten_y()
        yield "flattened response", md.data[-1], y[keep]
        md.add_weights()
        yield "default weights", md.weights, np.ones(keep.sum())
        yield "length", len(md), 4
    ck.concrete("model data container", data, n=8, functions=["pystatsm/pyglm2/regression_model.py::ModelData"])
