"""C14 linear mixed models: criterion, gradients and effects of LMM2 (pylmm/re_mod) against the marginal model"""
import importlib
import types
import numpy as np
import pandas as pd
import scipy
import scipy.linalg
import scipy.sparse
import scipy.stats
from vf import spsym as SP
from vf.core import D, jac
from vf.sym import F, S, SArr, oarr

P = "pystatsm/pylmm/re_mod.py::"
WARM = ("pystatsm.pylmm.re_mod",)


def vec(v):
    return np.array(list(v), dtype=object).view(SArr)


def levels(z):
    seen = {}
    return np.array([seen.setdefault(v, len(seen)) for v in z]), len(seen)


def unvech(t):
    n = int((np.sqrt(8 * len(t) + 1) - 1) // 2)
    M = np.zeros((n, n), dtype=object if any(isinstance(v, S) for v in t) else float)
    k = 0
    for j in range(n):
        for i in range(j, n):
            M[i, j] = M[j, i] = t[k]
            k += 1
    return M.view(SArr) if M.dtype == object else M


def design(A, g):
    """dense random effects design: the levels in order of appearance, within a level the columns of A"""
    l, m = levels(g)
    n, nv = A.shape
    Z = np.zeros((n, m * nv), dtype=A.dtype)
    for i in range(n):
        Z[i, l[i] * nv:(l[i] + 1) * nv] = A[i]
    return Z.view(SArr) if A.dtype == object else Z, m


def vech(M):
    return [M[i, j] for j in range(len(M)) for i in range(j, len(M))]


def parts(theta, nvs):
    out, k = [], 0
    for nv in nvs:
        q = nv * (nv + 1) // 2
        out.append(unvech(list(theta[k:k + q])))
        k += q
    return out


def bdiag(ms):
    n = sum(len(m) for m in ms)
    M = np.zeros((n, n), dtype=object if any(np.asarray(m).dtype == object for m in ms) else float)
    if M.dtype == object:
        M[...] = 0.0
    k = 0
    for m in ms:
        M[k:k + len(m), k:k + len(m)] = m
        k += len(m)
    return M.view(SArr) if M.dtype == object else M


def val(a):
    """the numbers behind an array of terms: the obligation is for this design"""
    return np.array([float(e.v) for e in np.asarray(a, dtype=object).ravel()]).reshape(a.shape)


def krn(A, B):
    n, m = len(A), len(B)
    return np.array([[A[i // m, j // m] * B[i % m, j % m] for j in range(n * m)] for i in range(n * m)], dtype=object).view(SArr) if np.asarray(A).dtype == object or np.asarray(B).dtype == object else np.kron(A, B)



class Dense:
    """the marginal model of given columns per term, in floating point"""

    def __init__(s, X, y, terms, th):
        """terms: (columns, levels, relationship or None)"""
        s.X, s.y, s.n, s.th = X, y, len(y), th
        s.t = []
        for A, g, K in terms:
            l, m = levels(g)
            Z = np.zeros((s.n, m * A.shape[1]))
            for i in range(s.n):
                Z[i, l[i] * A.shape[1]:(l[i] + 1) * A.shape[1]] = A[i]
            s.t.append((Z, np.eye(m) if K is None else K, A.shape[1], m))
        G, k = [], 0
        for Z, K, nv, m in s.t:
            q = nv * (nv + 1) // 2
            G.append(unvech(list(th[k:k + q])))
            k += q
        s.G0, s.s2 = G, th[-1]
        s.Z = np.hstack([Z for Z, *_ in s.t])
        s.finish()

    def finish(s):
        X, y, G = s.X, s.y, s.G0
        s.G = scipy.linalg.block_diag(*[np.kron(K, g) for (Z, K, nv, m), g in zip(s.t, G)])
        s.V = s.Z @ s.G @ s.Z.T + s.s2 * np.eye(s.n)
        s.Vi = np.linalg.inv(s.V)
        s.T = X.T @ s.Vi @ X
        s.C = np.linalg.inv(s.T)
        s.b = s.C @ (X.T @ s.Vi @ y)
        s.r = y - X @ s.b
        s.u = s.G @ s.Z.T @ s.Vi @ s.r
        s.P = s.Vi - s.Vi @ X @ s.C @ X.T @ s.Vi

    def dV(s):
        out = []
        for Z, K, nv, m in s.t:
            for j in range(nv):
                for i in range(j, nv):
                    E = np.zeros((nv, nv))
                    E[i, j] = E[j, i] = 1.0
                    out.append(Z @ np.kron(K, E) @ Z.T)
        return out + [np.eye(s.n)]

    def crit(s, reml):
        return np.linalg.slogdet(s.V)[1] + s.y @ s.P @ s.y + (np.linalg.slogdet(s.T)[1] if reml else 0.0)

    def grad(s, reml):
        Q, Py = (s.P if reml else s.Vi), s.P @ s.y
        return np.array([np.sum(Q * V) - Py @ V @ Py for V in s.dV()])

    def hess(s, reml):
        """second derivatives of the criterion"""
        Q, Py, P = (s.P if reml else s.Vi), s.P @ s.y, s.P
        dv = s.dV()
        return np.array([[-np.sum((Q @ a @ Q) * b) + 2 * Py @ a @ P @ b @ Py for b in dv] for a in dv])

    def se(s):
        return np.sqrt(np.diag(s.G - s.G @ s.Z.T @ s.P @ s.Z @ s.G))

    def dC(s):
        return np.array([s.C @ s.X.T @ s.Vi @ V @ s.Vi @ s.X @ s.C for V in s.dV()])


def central(f, t, h=1e-5):
    out = []
    for i in range(len(t)):
        a, b = t.copy(), t.copy()
        a[i] += h
        b[i] -= h
        out.append((np.asarray(f(a)) - np.asarray(f(b))) / (2 * h))
    return np.array(out)


def concrete(ck, R):
    names = np.array(list("qwertyuiop"))
    shapes = [("y~1+x+(1|g)", [("g", "1")]), ("y~1+x+(1+x|g)", [("g", "1x")]), ("y~1+x+(1|g)+(1+z|h)", [("g", "1"), ("h", "1z")]), ("y~1+x+(1+w|g)", [("g", "1w")]),
              ("y~1+x+(0+w|g)+(1|h)", [("g", "w"), ("h", "1")]), ("y~1+x+(1+x+z|g)+(1|h)", [("g", "1xz"), ("h", "1")]), ("y~1+x+w+(1+d|g)", [("g", "1d")]), ("y~1+x+(1|g)+(1|h)+(1|k)", [("g", "1"), ("h", "1"), ("k", "1")])]

    def frame(rng, i, n=None, ms=(5, 4, 3)):
        n = n or int(rng.integers(18, 45))
        lab = ("int", "str", "cat", "float")[i % 4]
        df = pd.DataFrame({"x": rng.normal(size=n), "w": rng.integers(0, 2, size=n) * 1.0, "z": rng.normal(size=n)})

        def g(m):
            v = np.concatenate([rng.permutation(m), rng.integers(0, m, size=n - m)])
            rng.shuffle(v)
            return {"int": v * 3 - 4, "str": names[v], "cat": pd.Categorical(names[v], categories=names[:m]), "float": v * 1.5}[lab]
        df["g"], df["h"], df["k"] = [g(m) for m in ms]
        df["d"] = df.z - df.groupby("g", observed=True).z.transform("mean") if lab != "cat" else np.round(df.z)
        df["y"] = np.round(df.x + rng.normal(size=n), 3)
        if i % 5 == 4:
            df.index = rng.permutation(n) + 100
        return df

    def cols(df, c):
        return np.column_stack([np.ones(len(df)) if k == "1" else df[k].to_numpy() for k in c])

    def fe(df, form):
        return cols(df, "1xw" if form.startswith("y~1+x+w+") else "1x")

    def theta(rng, nvs, s=1.0):
        out = []
        for nv in nvs:
            B = rng.normal(size=(nv, nv))
            out += vech(B @ B.T + 0.3 * np.eye(nv))
        return np.array(out + [rng.uniform(0.3, 2)]) * s

    def checks(fn, mme, O, rng, i, two):
        inp = dict(theta=O.th)
        for r in (True, False):
            yield "criterion, restricted %s" % r, mme._loglike(O.th, r), O.crit(r), dict(inputs=inp)
            yield "gradient, restricted %s" % r, mme._gradient(O.th, r), O.grad(r), dict(inputs=inp)
            yield "second gradient, restricted %s" % r, mme._gradient_v2(O.th, r), O.grad(r), dict(inputs=inp)
        L = mme.update_chol(O.th)
        L = [a.toarray() if hasattr(a, "toarray") else np.asarray(a) for a in L[:3]]
        M = np.block([[L[0], np.zeros((len(L[0]), L[2].shape[1]))], [L[1], L[2]]])
        Xy = np.column_stack([O.X, O.y])
        yield "factor of the equations", M @ M.T, np.block([[O.Z.T @ O.Z / O.s2 + np.linalg.inv(O.G), O.Z.T @ Xy / O.s2], [Xy.T @ O.Z / O.s2, Xy.T @ Xy / O.s2]])
        saved = mme.re_mod.tterms[-1]

        class Trace:
            def __getattr__(s, k):
                return getattr(saved, k)

            def accumulate_gradient(s, mm, th, reml, grad, **k):
                mm._resid_gradient_trace(th, reml, grad, **k)
        mme.re_mod.tterms[-1] = Trace()
        for r in ((True, False) if two else ()):
            g = mme._gradient(O.th, r)
            yield "residual gradient by traces, restricted %s" % r, g, O.grad(r)
        mme.re_mod.tterms[-1] = saved
        yield "covariance of the random effects", mme.re_mod.update_gcov(O.th).toarray(), O.G
        yield "inverse covariance of the random effects", mme.re_mod.update_gcov(O.th, inv=True).toarray(), np.linalg.inv(O.G)
        yield "log-determinants", (mme.re_mod.lndet_gmat(O.th), mme.re_mod.lndet_rmat(O.th)), (np.linalg.slogdet(O.G)[1], O.n * np.log(O.s2))

    def df_oracle(L, O, A):
        """F statistic and Fai and Cornelius' denominator degrees of freedom"""
        LCL = L @ O.C @ L.T
        Lb = L @ O.b
        q = len(L)
        F_ = Lb @ np.linalg.solve(LCL, Lb) / q
        d, U = np.linalg.eigh(LCL)
        nu = []
        for k in range(q):
            x = U[:, k] @ L
            g = np.array([x @ M @ x for M in O.dC()])
            nu.append(2 * d[k] ** 2 / (g @ A @ g))
        nu = np.array(nu)
        E = np.sum(nu[nu > 2] / (nu[nu > 2] - 2))
        return F_, q, (2 * E / (E - q) if E > q else np.nan)

    def lmm(rng, i):
        form, ts = shapes[i % len(shapes)]
        df = frame(rng, i)
        th = theta(rng, [len(c) for g, c in ts])
        O = Dense(fe(df, form), df.y.to_numpy(), [(cols(df, c), df[g].to_numpy(), None) for g, c in ts], th)
        m = R.LMM2(form, df, mme_kws=dict(sparse_threshold=(0.0, 0.4, 1.1)[i % 3]))
        yield "designs", (m.mme.X, m.mme.y[:, 0] if hasattr(m.mme, "y") else O.y, m.mme.Z.toarray()), (O.X, O.y, O.Z)
        rp = m.mme.re_mod.reparam
        if i % 2:
            yield "criterion at other parameters first", m.loglike(th * 2, True), at(O, th * 2).crit(True)
        for x in checks(lmm, m.mme, O, rng, i, False):
            yield x
        eta = rp.fwd(th)
        yield "unconstrained coordinates", rp.rvs(eta), th
        J = central(rp.rvs, eta).T
        for r in (True, False):
            yield "criterion and gradients of the model, restricted %s" % r, np.concatenate([[m.loglike(th, r)], m.gradient(th, r), m.gradient_v2(th, r)]), np.concatenate([[O.crit(r)], O.grad(r), O.grad(r)])
            yield "criterion in unconstrained coordinates, restricted %s" % r, m.loglike_reparam(eta, r), O.crit(r)
            for nm in ("gradient_reparam", "gradient_v2_reparam"):
                yield "%s, restricted %s" % (nm, r), getattr(m, nm)(eta, r), O.grad(r) @ J, dict(rtol=1e-6, atol=1e-6)
        b, C, u = m.compute_effects(th)
        yield "fixed effects", b, O.b
        yield "covariance of the fixed effects", C, O.C
        yield "random effects", u, O.u
        m.theta, m.beta, m.XtVinvX_inv, m.u = th * 1.7, O.b, O.C, O.u
        yield "products with the inverse covariance", m.vinvcrossprod(O.X, O.y[:, None], th), O.X.T @ O.Vi @ O.y[:, None]
        yield "products with the inverse covariance, current parameters", m.vinvcrossprod(O.X, O.X), at(O, th * 1.7).T
        yield "predictions", m.predict(), O.X @ O.b + O.Z @ O.u
        X2, Z2 = O.X[:4] * 2, O.Z[:4]
        yield "predictions at new designs", m.predict(X=X2, Z=Z2, beta=O.b + 1, u=O.u * 2), X2 @ (O.b + 1) + Z2 @ (O.u * 2)
        yield "prediction errors", m.random_effects_se(th), O.se()
        ZVX = O.G @ O.Z.T @ O.Vi @ O.X
        yield "prediction errors due to the fixed effects", m.random_effects_se(th, full=False), np.sqrt(np.diag(ZVX @ O.C @ ZVX.T))
        m.theta = th
        yield "prediction errors, current parameters", m.random_effects_se(), O.se()
        m.compute_effects(th)
        yield "product with the inverse covariance", m.mme.vinv_apply(O.y, th), O.Vi @ O.y
        yield "product with the projection", m.mme.p_apply(O.y, th, O.C), O.P @ O.y
        vd = m.variance_decomposition()
        ve = [np.trace(Z @ np.kron(K, g) @ Z.T) / O.n for (Z, K, nv, q), g in zip(O.t, O.G0)]
        vf, tot = np.var(O.X @ O.b), np.var(O.X @ O.b) + sum(ve) + O.s2
        yield "variance decomposition", np.array([vd["v_fe"], *vd["v_re"].values(), vd["v_resid"]]), np.array([vf, *ve, O.s2])
        r2 = m.r_squared()
        yield "r squared", np.array([r2["marginal"], r2["conditional"], *r2["per_term"].values(), r2["total"]]), np.array([vf / tot, (vf + sum(ve)) / tot, *[v / tot for v in ve], tot])
        yield "derivatives of the covariance of the fixed effects", np.array(m._dC_dtheta(th, O.C)), O.dC()
        yield "derivatives of the covariance by differences", O.dC(), central(lambda t: at(O, t).C, th), dict(rtol=1e-5, atol=1e-6)
        vc = R._VarCorrReparam(m.mme.re_mod)
        tau = vc.fwd(th)
        want, k = th.copy(), 0
        for g in O.G0:
            for jj in range(len(g)):
                for ii in range(jj, len(g)):
                    if ii != jj:
                        want[k] = np.arctanh(g[ii, jj] / np.sqrt(g[ii, ii] * g[jj, jj]))
                    k += 1
        yield "variance and correlation coordinates", tau, want
        yield "variance and correlation coordinates, back", vc.rvs(tau), th
        yield "jacobian of the variance and correlation coordinates", vc.jacobian(tau), central(vc.rvs, tau).T, dict(rtol=1e-5, atol=1e-6)
        A = np.diag(rng.uniform(0.001, 0.003, size=len(th)))
        m.Hinv_theta = A
        Ls = [np.eye(O.X.shape[1])[[1]], np.eye(O.X.shape[1])[:2]]
        for L, o in zip(Ls, m.approx_degfree(Ls)):
            F_, d1, d2 = df_oracle(L, O, A)
            yield "approximate F test of %d contrasts" % len(L), np.array([o["F"], o["df1"], o["df2"], o["p"]]), np.array([F_, d1, d2, scipy.stats.f(d1, d2).sf(F_) if np.isfinite(d2) else np.nan])
        yield "criterion afterwards", m.loglike(th, True), O.crit(True)
        tabs = m.random_effects("per_term")
        k = 0
        sl = []
        for q, (Z, K, nv, lv) in enumerate(O.t):
            yield "random effects of term %d" % q, tabs[q].to_numpy(), O.u[k:k + nv * lv].reshape(lv, nv)
            sl.append((k, nv, lv))
            k += nv * lv
        lg, mt, se = m.random_effects("long"), m.random_effects("multi"), O.se()
        yield "random effects, long", (lg["estimate"].to_numpy(), lg["SE"].to_numpy(), m.random_effects_array()), (O.u, se, O.u)
        yield "random effects, long: labels", [tuple(x) for x in lg.index] == [(q, l, "v%d" % v) for q, (a, nv, lv) in enumerate(sl) for l in range(lv) for v in range(nv)], True
        yield "random effects, stacked", np.concatenate([mt.loc[[q]].to_numpy()[:, :nv].ravel() for q, (a, nv, lv) in enumerate(sl)]), O.u
    ck.concrete("LMM2 against the marginal model", lmm, n=24, functions=[P + "LMM2." + k for k in ("__init__", "loglike", "gradient", "gradient_v2", "loglike_reparam", "gradient_reparam", "gradient_v2_reparam", "compute_effects", "predict", "vinvcrossprod", "random_effects", "random_effects_se", "variance_decomposition", "r_squared", "_dC_dtheta", "approx_degfree")] + [P + "_VarCorrReparam." + k for k in ("fwd", "rvs", "jacobian")])

    def rel(rng, i):
        n = int(rng.integers(15, 35))
        df = frame(rng, 4 * i, n)
        ts = ([("g", "1")], [("g", "1x")], [("g", "1x"), ("h", "1")], [("h", "1"), ("g", "1z")])[i % 4]
        kind = ("dense", "tridiagonal", "sparse inverse", "sparse inverse, sparse storage", "none and dense")[i % 5]
        acs, Ks = [], []
        for k, (g, c) in enumerate(ts):
            m = levels(df[g].to_numpy())[1]
            T = np.eye(m) * 2 + np.eye(m, k=1) * 0.7 + np.eye(m, k=-1) * 0.7
            if kind == "none and dense" and k == 0 and len(ts) > 1:
                acs.append(None)
                Ks.append(None)
                continue
            if kind.endswith("dense"):
                B = rng.normal(size=(m, m))
                K = B @ B.T + np.eye(m)
                acs.append(K)
            elif kind == "tridiagonal":
                K = T
                acs.append(scipy.sparse.csc_matrix(K))
            else:
                K = np.linalg.inv(T)
                acs.append(scipy.sparse.csc_matrix(K) if kind.endswith("storage") else K)
            Ks.append(K)
        th = theta(rng, [len(c) for g, c in ts])
        X, y = cols(df, "1x"), df.y.to_numpy()
        O = Dense(X, y, [(cols(df, c), df[g].to_numpy(), K) for (g, c), K in zip(ts, Ks)], th)
        rm = R.RandomEffects([("+".join(c), g) for g, c in ts], df, acs)
        for x in checks(rel, R.MMEBlocked(X, y[:, None], rm, sparse_threshold=(0.0, 0.4, 1.1)[i % 3]), O, rng, i, True):
            yield x
    ck.concrete("relationship matrices against the marginal model", rel, n=20, functions=[P + k for k in ("KronAG.accumulate_gradient", "KronAG._update_gdata", "_resolve_a", "MMEBlocked.update_chol", "MMEBlocked._resid_gradient_trace")])

    def cov(rng, i):
        nv, m = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        B = rng.normal(size=(nv, nv))
        G0 = B @ B.T + 0.2 * np.eye(nv)
        p = np.array(vech(G0))
        T = np.eye(m) * 2 + np.eye(m, k=1) * 0.7 + np.eye(m, k=-1) * 0.7
        K = (T, np.linalg.inv(T), np.eye(m))[i % 3]
        for nm, t, full in (("KronIG", R.KronIG(nv, m), lambda G: np.kron(np.eye(m), G)), ("KronAG", R.KronAG(nv, m, *R._resolve_a(K if i % 2 else scipy.sparse.csc_matrix(K))), lambda G: np.kron(K, G))):
            for inv in (False, True):
                M = np.linalg.inv(full(G0)) if inv else full(G0)
                g = t.update_gcov(p, inv=inv)
                yield "%s: covariance, inverse %s" % (nm, inv), g.toarray(), M
            yield "%s: covariance of the parameters" % nm, t.params_to_cov(p).toarray() if hasattr(t.params_to_cov(p), "toarray") else t.params_to_cov(p), full(G0)
            yield "%s: log-determinant" % nm, t.get_logdet(p), np.linalg.slogdet(full(G0))[1]
            k = 0
            for b in range(nv):
                for a in range(b, nv):
                    E = np.zeros((nv, nv))
                    E[a, b] = E[b, a] = 1.0
                    d = t.dcov_dparams(p, k)
                    yield "%s: derivative %d" % (nm, k), d.toarray(), full(E)
                    yield "%s: stored derivative %d" % (nm, k), t.G_derivs[k].toarray(), full(E)
                    k += 1
        uc = R.UnstructuredCovariance(nv)
        yield "unstructured covariance", (uc.params_to_cov(p), uc.get_logdet(p)), (G0, np.linalg.slogdet(G0)[1])
    ck.concrete("covariance structures", cov, n=12, functions=[P + k + "." + f for k in ("KronIG", "KronAG") for f in ("update_gcov", "get_logdet", "dcov_dparams", "params_to_cov")])

    def fits(rng, i):
        form, ts = [shapes[0], shapes[1], shapes[2], shapes[7]][i % 4]
        n = 130
        df = frame(rng, 4 * i + i % 3, n, (10, 9, 8))
        y = 1 + 0.5 * df.x.to_numpy() + rng.normal(size=n)
        for g, c in ts:
            l, m = levels(df[g].to_numpy())
            u = rng.normal(size=(m, len(c)))
            u = np.linalg.qr(u - u.mean(0))[0] * np.sqrt(m) * 1.2
            y = y + np.sum(cols(df, c) * u[l], axis=1)
        df["y"] = np.round(y, 4)
        reml = bool(i % 2 == 0)
        m = R.LMM2(form, df).fit(reml=reml)
        th = m.theta
        O = Dense(fe(df, form), df.y.to_numpy(), [(cols(df, c), df[g].to_numpy(), None) for g, c in ts], th)
        p = O.X.shape[1]
        if min(np.linalg.eigvalsh(g)[0] for g in O.G0) > 0.02:
            yield "stationary at the estimates", O.grad(reml), 0 * th, dict(atol=2e-2, rtol=0)
        yield "estimates", np.concatenate([m.beta, m.se_beta, m.u, m.XtVinvX_inv.ravel()]), np.concatenate([O.b, np.sqrt(np.diag(O.C)), O.u, O.C.ravel()])
        if reml:
            ll = -(O.crit(True) + (n - p) * np.log(2 * np.pi)) / 2
            ne, d = n - p, len(th)
        else:
            ll = scipy.stats.multivariate_normal(O.X @ O.b, O.V).logpdf(O.y)
            ne, d = n, len(th) + p
        w = np.array([-2 * ll, ll, -2 * ll + 2 * d, -2 * ll + 2 * d * ne / (ne - d - 1), -2 * ll + d * np.log(ne), -2 * ll + d * (np.log(ne) + 1)])
        yield "log-likelihood and criteria", (m.sumstats["value"].to_numpy(), np.array([m.ll, m.llf, m.AIC, m.AICC, m.BIC, m.CAIC])), (w, w)
        if min(np.linalg.eigvalsh(g)[0] for g in O.G0) > 0.1 and np.linalg.eigvalsh(O.hess(reml))[0] > 1e-2:
            yield "covariance of the covariance parameters", m.Hinv_theta, np.linalg.inv(O.hess(reml) / 2), dict(rtol=1e-3, atol=1e-5)
        sp_ = np.concatenate([m.se_beta, m.se_theta])
        pr = np.concatenate([O.b, th])
        yield "table", (m.res["estimate"].to_numpy(), m.res["SE"].to_numpy(), m.res["t"].to_numpy(), m.se_theta), (pr, sp_, pr / sp_, np.sqrt(np.diag(m.Hinv_theta)))
        q = scipy.stats.t(n - p).ppf(0.95)
        yield "confidence intervals", m.confint(0.1).to_numpy(), np.column_stack([O.b - q * m.se_beta, O.b + q * m.se_beta])
        for k, g in enumerate(O.G0):
            s = np.sqrt(np.diag(g))
            yield "covariance of term %d" % k, (m.re_covs[k], m.re_corrs[k]), (g, g / np.outer(s, s))
        nm = list(m.fe_names) + ["%s:G[%d][%d]" % (g, a, b) for g, c in ts for b in range(len(c)) for a in range(b, len(c))] + ["resid_cov"]
        yield "labels", list(m.res.index) == nm, True
        Ls = [np.eye(p)[[k]] for k in range(p)]
        if np.all(np.isfinite(m.Hinv_theta)):
            for L, o in zip(Ls, m.approx_degfree()):
                F_, d1, d2 = df_oracle(L, O, m.Hinv_theta)
                yield "approximate F test", np.array([o["F"], o["df1"], o["df2"]]), np.array([F_, d1, d2]), dict(rtol=1e-6)
        if i == 1:
            m0 = R.LMM2("y~1+x+(1|g)", df).fit(reml=reml)
            t = m.lrt(m0)
            yield "likelihood ratio statistic", t[["stat", "df", "p"]].to_numpy()[0], np.array([m0.ll - m.ll, 2, scipy.stats.chi2(2).sf(m0.ll - m.ll)])
        if i == 0:
            import contextlib, io
            with contextlib.redirect_stderr(io.StringIO()):
                T, zz, ix = m.profile(n_points=5, tb=1.5)
            for k in range(len(T)):
                Ok = at(O, T[k])
                yield "profile criterion", zz[k] ** 2, max(Ok.crit(reml) - O.crit(reml), 0.0), dict(rtol=1e-5, atol=1e-6)
            yield "profile: fixed parameter", np.array([np.ptp(T[ix == j, j]) > 0 for j in range(len(th))]).all(), True
            ci = m.profile_confint(T, zz, ix, 0.3).to_numpy()
            z = scipy.stats.norm.ppf(0.85)
            for j in range(len(th)):
                a = np.argsort(zz[ix == j])
                if zz[ix == j].min() < -z and zz[ix == j].max() > z:
                    yield "profile interval", ci[j], np.interp([-z, z], zz[ix == j][a], T[ix == j, j][a])
    ck.concrete("fitted LMM2", fits, n=4, functions=[P + "LMM2." + k for k in ("fit", "_post_fit", "confint", "lrt", "profile", "profile_confint", "_fit_with_fixed_tau")])


def at(O, th):
    o2 = object.__new__(Dense)
    G, k = [], 0
    for Z, K, nv, m in O.t:
        q = nv * (nv + 1) // 2
        G.append(unvech(list(th[k:k + q])))
        k += q
    o2.__dict__.update(O.__dict__)
    o2.th, o2.G0, o2.s2 = th, G, th[-1]
    o2.finish()
    return o2


def run(ck):
    R = importlib.import_module("pystatsm.pylmm.re_mod")
    lo = importlib.import_module("pystatsm.utilities.linalg_operations")
    concrete(ck, R)
    logpdet = R.logpdet

    def dmatrix(formula, data=None, return_type=None):
        cols = [t for t in formula.split("+") if t != "0"]
        return types.SimpleNamespace(values=oarr(data[cols].values).view(SArr), columns=cols)

    def ext():
        class Fake:
            sparse = SP.Sparse

            def __getattr__(s, k):
                return getattr(lo.sp, k)
        fake = Fake()
        return [(R, k, v) for k, v in SP.KERNELS.items() if hasattr(R, k)] + [(R, "sp", fake), (R, "logpdet", lambda A: np.log(F.det(A)) if np.asarray(A).dtype == object else logpdet(A)), (R, "patsy", types.SimpleNamespace(dmatrix=dmatrix))]

    def frame(As, gs):
        d, terms = {}, []
        for k, (A, g) in enumerate(zip(As, gs)):
            A = np.asarray(A)
            for j in range(A.shape[1]):
                d["c%d%d" % (k, j)] = A[:, j]
            d["g%d" % k] = g
            terms.append(("0+" + "+".join("c%d%d" % (k, j) for j in range(A.shape[1])), "g%d" % k))
        return pd.DataFrame(d), terms

    def model(c, X, y, As, gs, acs=None, thr=0.4):
        df, terms = frame(As, gs)
        m = R.LMM2.__new__(R.LMM2)
        if acs is not None and c.sym:
            acs = [None if a is None else SP.CSC(a) for a in acs]
        m.mme = R.MMEBlocked(X, y[:, None], R.RandomEffects(terms, df, acs), sparse_threshold=thr)
        m.fe_names = ["b%d" % j for j in range(X.shape[1])]
        return m

    class Marg:
        """the marginal model: y ~ N(X b, V), V = sum_k Z_k (A_k x G_k) Z_k' + s2 I"""

        def __init__(s, X, y, As, gs, theta, acs=None):
            s.X, s.y, s.n = X, y, len(y)
            s.nvs = [A.shape[1] for A in As]
            s.Zs = [design(A, g) for A, g in zip(As, gs)]
            s.G0 = parts(theta, s.nvs)
            s.s2 = theta[-1]
            s.acs = acs or [None] * len(As)
            s.Gs = [krn(np.eye(m) if a is None else a, G) for (Z, m), G, a in zip(s.Zs, s.G0, s.acs)]
            V = s.s2 * np.eye(s.n)
            if np.asarray(V).dtype == object:
                V = V.view(SArr)
            for (Z, m), G in zip(s.Zs, s.Gs):
                V = V + Z.dot(G).dot(Z.T)
            s.V = V
            s.Z = np.hstack([Z for Z, m in s.Zs])

        def G(s):
            return bdiag(s.Gs)

        def rest(s):
            inv = s.inv = F.inv if s.V.dtype == object else np.linalg.inv
            s.Vi = inv(s.V)
            s.T = X_ = s.X.T.dot(s.Vi).dot(s.X)
            s.Ti = inv(s.T)
            s.b = s.Ti.dot(s.X.T.dot(s.Vi.dot(s.y)))
            s.r = s.y - s.X.dot(s.b)
            s.u = s.G().dot(s.Z.T.dot(s.Vi.dot(s.r)))
            s.yPy = s.r.dot(s.Vi.dot(s.r))
            s.P = s.Vi - s.Vi.dot(s.X).dot(s.Ti).dot(s.X.T).dot(s.Vi)
            return s

        def C(s):
            return s.Z.T.dot(s.Z) / s.s2 + s.Ginv()

        def Ginv(s):
            return bdiag([krn(np.eye(m) if a is None else F.inv(a), F.inv(G)) for (Z, m), G, a in zip(s.Zs, s.G0, s.acs)])

    def theta_of(ts, nvs):
        """covariance parameters from diagonal and off-diagonal inputs"""
        return ts

    def good(nvs):
        def f(t, **k):
            return all(np.all(np.linalg.eigvalsh(np.asarray(G, dtype=float)) > 0.15) for G in parts(t, nvs)) and t[-1] > 0.1
        return f

    def tgen(nvs):
        def f(rng):
            t = []
            for nv in nvs:
                B = rng.uniform(-0.5, 0.5, size=(nv, nv))
                t += vech(B @ B.T + rng.uniform(0.4, 1.2) * np.eye(nv))
            return np.round(np.array(t + [rng.uniform(0.4, 1.5)]), 4)
        return f

    def As_of(a, nvs):
        """columns of the terms: an intercept, then the columns of a"""
        out, k = [], 0
        for nv in nvs:
            A = np.ones((len(a), nv), dtype=a.dtype)
            A[:, 1:] = a[:, k:k + nv - 1]
            out.append(A.view(SArr) if A.dtype == object else A)
            k += nv - 1
        return out

    # ---- criterion -----------------------------------------------------------------------------
    def crit(c, X, y, a, t, nvs, gs, thr, kin=None, K=None):
        acs = None if kin is None else [K if k else None for k in kin]
        As = As_of(a, nvs)
        m = model(c, X, y, As, gs, acs, thr)
        mg = lambda: Marg(X, y, As, gs, t, acs)
        M = {}

        def get():
            if not M:
                M["m"] = mg().rest()
            return M["m"]
        mme = m.mme
        c.eq("design matrix", lambda: mme.Z.toarray(), lambda: get().Z)
        # criterion: the pieces, each an exact function of the inputs ...
        lc = lambda r: mme._loglike(t, r)
        mme.update_crossprods(t)
        R.cs_add_inplace(mme.ZtRZ, mme.re_mod.update_gcov(t, inv=True, G=mme.G), mme.C)
        Xy = np.column_stack([X, y])
        c.eq("mixed model equations", lambda: (mme.C.toarray(), mme.ZtRXy, mme.XytRXy), lambda: (get().C(), get().Z.T.dot(Xy) / t[-1], Xy.T.dot(Xy) / t[-1]))
        c.eq("log-determinants of the covariances", lambda: (mme.re_mod.lndet_gmat(t), mme.re_mod.lndet_rmat(t)), lambda: (lg(get()), get().n * np.log(t[-1])))
        g = mg()
        if c.sym:
            # the equations are those of the marginal model
            c.poly("determinant identity", F.det(g.C()) * F.det(g.G()) * t[-1] ** g.n, F.det(g.V))
            Ci, zx = F.inv(g.C()), g.Z.T.dot(Xy) / t[-1]
            c.poly("Schur complement", Xy.T.dot(Xy) / t[-1] - zx.T.dot(Ci).dot(zx), Xy.T.dot(F.inv(g.V)).dot(Xy))
        else:
            g.rest()
            lv = np.linalg.slogdet(g.V)[1] + g.yPy
            c.near("criterion against the marginal covariance", (lc(False), lc(True)), (lv, lv + np.linalg.slogdet(g.T)[1]))

    lg = lambda g: sum((np.log(F.det(G)) * mm + (0.0 if A is None else np.log(F.det(A)) * len(G))) for (Z, mm), G, A in zip(g.Zs, g.G0, g.acs))

    def factor(c, L, q, p, sparse):
        """criterion from given mixed model equations"""
        M = L.dot(L.T)
        C, U, W = M[:q, :q], M[:q, q:], M[q:, q:]
        m = R.MMEBlocked.__new__(R.MMEBlocked)
        m.ZtRXy, m.XytRXy = U, W
        Cs = SP.CSC(C) if c.sym else scipy.sparse.csc_array(C)
        if not c.sym:
            Cs.indices, Cs.indptr = Cs.indices.astype(np.int32), Cs.indptr.astype(np.int32)
        m.chol_fac = R.analyze(Cs, ordering_method="best")
        m._p = np.argsort(m.chol_fac.P())
        ld, d = m._chol_sparse_diag(Cs) if sparse else m._chol_dense_diag(Cs)
        T = lambda: W - U.T.dot(F.inv(C)).dot(U)
        c.eq("log-determinant of the equations", lambda: ld, lambda: np.log(F.det(C)))
        c.eq("residual criterion", lambda: d[-1] ** 2, lambda: F.det(T()) / F.det(T()[:-1, :-1]))
        c.eq("information of the fixed effects", lambda: np.prod(d[:-1]) ** 2, lambda: F.det(T()[:-1, :-1]))
        full = m._chol_sparse if sparse else m._chol_dense
        def blocks():
            a, b, e = full(Cs)
            return a.dot(a.T), a.dot(b.T), b.dot(b.T) + e.dot(e.T)
        c.eq("factor of the equations", blocks, lambda: (C, U, W))
        # composition
        sd = np.abs(L[:, 0]) + 1
        m.update_chol_diag = lambda theta: (L[0, 0], sd)
        m.re_mod = types.SimpleNamespace(lndet_gmat=lambda t: L[1, 0] * t, lndet_rmat=lambda t: L[1, 1] * t)
        c.eq("criterion from its parts", lambda: (m._loglike(2.0, False), m._loglike(2.0, True)),
             lambda: (lambda a: (a, a + 2 * sum(np.log(e) for e in sd[:-1])))(L[0, 0] + 2 * L[1, 0] + 2 * L[1, 1] + sd[-1] ** 2))
    for q, p in ((1, 1), (2, 1), (2, 2)):
        for sparse in (False, True):
            def low(rng, k=q + p + 1):
                return np.round(np.tril(rng.uniform(-0.8, 0.8, size=(k, k)), -1) + np.diag(rng.uniform(0.5, 1.5, size=k)), 3)
            ck.contract("factorisation %d random, %d fixed, %s" % (q, p, "sparse" if sparse else "dense"), dict(L=low), lambda c, L, q=q, p=p, sparse=sparse: factor(c, np.tril(L).view(SArr) if c.sym else np.tril(L), q, p, sparse),
                        n=1, flips=0, extra=ext, functions=[P + x for x in ("MMEBlocked._chol_sparse_diag", "MMEBlocked._chol_dense_diag", "MMEBlocked._chol_sparse", "MMEBlocked._chol_dense", "BaseMME._loglike")])

    def grads(c, X, y, a, t, nvs, gs, thr, kin=None, K=None):
        acs = None if kin is None else [K if k else None for k in kin]
        As = As_of(a, nvs)
        m = model(c, X, y, As, gs, acs, thr)
        M = {}

        def dcrit(reml):
            """d/dt_j: tr(Q V_j) - y' P V_j P y with Q = V^-1 (P if restricted)"""
            if "m" not in M:
                M["m"] = Marg(X, y, As, gs, t, acs).rest()
                M["Py"] = M["m"].Vi.dot(M["m"].r)
            g, Py = M["m"], M["Py"]
            Q = g.P if reml else g.Vi
            out = []
            for j in range(len(t)):
                Vj = jac(g.V, t[j])
                out.append(np.sum(Q * Vj) - Py.dot(Vj.dot(Py)))
            return vec(out)
        for r in (True, False):
            nm = "restricted" if r else "maximum likelihood"
            c.eq("gradient, " + nm, lambda: m.gradient(t, r), lambda: dcrit(r))
            c.eq("second gradient, " + nm, lambda: m.gradient_v2(t, r), lambda: dcrit(r))

    # ---- the gradient of a term from its inputs, and those inputs ------------------------------
    def csc(c, M, pattern):
        r, q = np.nonzero(pattern)
        d = np.asarray(M)[r, q]
        if c.sym:
            return SP.CSC((d, (r, q)), M.shape)
        m = scipy.sparse.csc_array((d, (r, q)), shape=M.shape)
        m.indices, m.indptr = m.indices.astype(np.int32), m.indptr.astype(np.int32)
        m.sort_indices()
        return m

    def termgrad(c, W, L, T, v, Ti, K, nv, ng, rel):
        N, q = W.shape[0], nv * ng
        W, Ti, K = W + W.T, Ti + Ti.T, K + K.T
        sl = slice(1, 1 + q)
        pat = np.ones((N, N))
        if not rel:
            pat[sl, sl] = np.kron(np.eye(ng), np.ones((nv, nv)))
        if rel:
            K = K + 3 * np.eye(ng)
            t = R.KronAG(nv, ng, *R._resolve_a(SP.CSC(K) if c.sym else K))
        else:
            t = R.KronIG(nv, ng)
        Wm = csc(c, W, pat)
        t.precompute_grad_caches(Wm, sl)
        k = t.unstructured_cov.n_pars
        Lz = csc(c, L, np.ones(L.shape))

        def got(reml, part):
            g = np.zeros(k + 3) if not c.sym else np.array([0.0] * (k + 3), dtype=object).view(SArr)
            t.accumulate_gradient(2, sl, Wm, None if part else Lz, T, v, Ti, reml, g, **(dict(L_zz_sl=Lz[sl, :]) if part else {}))
            return g

        def want(reml):
            M = W[sl, sl] * pat[sl, sl] - L[sl].dot(L[sl].T) - v[sl].dot(v[sl].T)
            if reml:
                M = M - T[sl].dot(Ti).dot(T[sl].T)
            E = [(i, j) for j in range(nv) for i in range(j, nv)]
            out = []
            for i, j in E:
                G0 = np.zeros((nv, nv))
                G0[i, j] = G0[j, i] = 1.0
                out.append(np.sum(krn(K if rel else np.eye(ng), G0) * M))
            return vec([0.0, 0.0] + out + [0.0])
        for reml in (True, False):
            for part in (False, True):
                c.eq("gradient of a term, restricted %s, %s" % (reml, "rows of the term" if part else "all rows"), lambda: got(reml, part), lambda: want(reml))
    for nv, ng in ((1, 2), (1, 3), (2, 2), (3, 2)):
        for rel in (False, True):
            N = nv * ng + 2
            ck.contract("term gradient %d variables, %d levels%s" % (nv, ng, ", relationship" if rel else ""),
                        dict(W=((N, N), -1.0, 1.0), L=((N, 2), -1.0, 1.0), T=((N, 2), -1.0, 1.0), v=((N, 1), -1.0, 1.0), Ti=((2, 2), -1.0, 1.0), K=((ng, ng), -0.5, 0.5)),
                        lambda c, W, L, T, v, Ti, K, a=(nv, ng, rel): termgrad(c, W, L, T, v, Ti, K, *a), n=1, flips=0, extra=ext,
                        functions=[P + x for x in ("KronIG.accumulate_gradient", "KronIG.precompute_grad_caches", "BaseProductCovariance.accumulate_gradient", "KronIG.dcov_dparams", "KronAG.dcov_dparams", "BaseProductCovariance.precompute_derivatives")])

    def inputs(c, X, y, a, t, nvs, gs, thr, kin=None, K=None):
        """what the gradients hand to the terms, in terms of the marginal model"""
        acs = None if kin is None else [K if k else None for k in kin]
        m = model(c, X, y, As_of(a, nvs), gs, acs, thr)
        M = {}

        def get():
            if not M:
                M["m"] = Marg(X, y, As_of(a, nvs), gs, t, acs).rest()
            return M["m"]
        rm = m.mme.re_mod
        for f in ("_gradient", "_gradient_v2"):
            log = []
            for k, tm in enumerate(rm.gterms):
                def rec(off, sl, ZtRZ, L_zz, T_zx, v_y, T_xx_inv, reml, grad, L_zz_sl=None, k=k):
                    L = L_zz[sl] if L_zz_sl is None else L_zz_sl
                    log.append((k, off, sl, ZtRZ.toarray(), L.toarray() if hasattr(L, "toarray") else L, T_zx, v_y, T_xx_inv, reml))
                    grad[off] = 7.0 + k
                tm.cov_structure.accumulate_gradient = rec
            last = []
            rm.tterms[-1].accumulate_gradient = lambda mme, th, reml, grad, **kw: last.append((th, reml, kw))
            g = getattr(m.mme, f)(t, True)
            off = start = 0
            want = [0.0] * len(t)
            for k, nv in enumerate(nvs):
                q = nv * design(As_of(a, nvs)[k], gs[k])[1]
                kk, o, sl, W, L, Tz, vy, Ti, reml = log[k]
                if not c.sym:
                    c.near("%s: slots of term %d" % (f, k), (kk, o, sl.start, sl.stop, reml), (k, off, start, start + q, True))
                c.eq("%s: cross-product of term %d" % (f, k), lambda: L.dot(L.T), lambda sl=sl: (lambda z: z[sl].dot(F.inv(get().C())).dot(z[sl].T))(get().Z.T.dot(get().Z) / t[-1]))
                want[off] = 7.0 + k
                off, start = off + nv * (nv + 1) // 2, start + q
            c.eq("%s: random design in the inverse covariance" % f, lambda: (W, Tz, vy, Ti), lambda: (get().Z.T.dot(get().Z) / t[-1], get().Z.T.dot(get().Vi).dot(X), get().Z.T.dot(get().Vi.dot(get().r))[:, None], get().Ti))
            c.eq("%s: residual term" % f, lambda: (last[0][2]["T_xx_inv"], last[0][2]["u_xy"], last[0][2]["v_y"]), lambda: (get().Ti, X.T.dot(get().Vi.dot(y))[:, None], get().Z.T.dot(get().Vi.dot(get().r))[:, None]))
            c.eq("%s: result" % f, lambda: g, lambda: vec(want))
        if c.sym:
            g = get()
            zz = g.Z.T.dot(g.Z) / t[-1]
            c.poly("random design in the inverse covariance", zz - zz.dot(F.inv(g.C())).dot(zz), g.Z.T.dot(g.Vi).dot(g.Z))

    def resid(c, X, y, a, t, nvs, gs, thr, kin=None, K=None):
        """the residual variance entry, given those of the other parameters"""
        acs = None if kin is None else [K if k else None for k in kin]
        m = model(c, X, y, As_of(a, nvs), gs, acs, thr)
        g = Marg(X, y, As_of(a, nvs), gs, t, acs).rest()
        Py = g.Vi.dot(g.r)
        for reml in (True, False):
            Q = g.P if reml else g.Vi
            k = len(t) - 1
            M = g.Z.T.dot(Q).dot(g.Z)
            vy = g.Z.T.dot(Py)
            dG, gr, st = [], [], 0
            for nv, (Z, mm), A in zip(nvs, g.Zs, g.acs):
                for j in range(nv):
                    for i in range(j, nv):
                        E = np.zeros((nv, nv))
                        E[i, j] = E[j, i] = 1.0
                        B = krn(np.eye(mm) if A is None else A, E)
                        sl = slice(st, st + nv * mm)
                        gr.append(np.sum(B * M[sl, sl]) - vy[sl].dot(B.dot(vy[sl])))
                st += nv * mm
            gv = vec(gr + [0.0]) if c.sym else np.array(gr + [0.0])
            m.mme.re_mod.tterms[-1].accumulate_gradient(m.mme, t, reml, gv, g.Ti, X.T.dot(g.Vi.dot(y))[:, None], vy[:, None])
            c.eq("residual variance entry, restricted %s" % reml, lambda: gv, lambda: vec(gr + [sum(Q[i, i] for i in range(g.n)) - Py.dot(Py)]))

    def effects(c, X, y, a, t, nvs, gs, thr, kin=None, K=None):
        acs = None if kin is None else [K if k else None for k in kin]
        As = As_of(a, nvs)
        m = model(c, X, y, As, gs, acs, thr)
        M = {}

        def get():
            if not M:
                M["m"] = Marg(X, y, As, gs, t, acs).rest()
            return M["m"]
        c.eq("fixed effects", lambda: m.compute_effects(t)[0], lambda: get().b)
        c.eq("covariance of the fixed effects", lambda: m.compute_effects(t)[1], lambda: get().Ti)
        c.eq("random effects", lambda: m.compute_effects(t)[2], lambda: get().u)
        c.eq("cross-products in the inverse covariance", lambda: m.vinvcrossprod(X, y[:, None], t), lambda: X.T.dot(get().Vi.dot(y[:, None])))
        m.compute_effects(t)
        c.eq("product with the inverse covariance", lambda: m.mme.vinv_apply(y, t), lambda: get().Vi.dot(y))
        c.eq("product with the projection", lambda: m.mme.p_apply(y, t, get().Ti if not c.sym else Marg(X, y, As, gs, t, acs).rest().Ti), lambda: get().P.dot(y))
        m.theta, m.beta, m.XtVinvX_inv, m.u = t * 2, X[0] * 0 + 1, None, None

        def pev():
            g = get()
            G = g.G()
            H = G - G.dot(g.Z.T.dot(g.P).dot(g.Z)).dot(G)
            return np.diag(H)
        c.eq("prediction error variances", lambda: m.random_effects_se(t) ** 2, pev)
        c.eq("derivatives of the covariance of the fixed effects", lambda: np.stack(m._dC_dtheta(t, F.inv(m.vinvcrossprod(X, X, t)) if c.sym else np.linalg.inv(m.vinvcrossprod(X, X, t)))),
             lambda: np.stack([(lambda Vj: get().Ti.dot(X.T.dot(get().Vi.dot(Vj).dot(get().Vi.dot(X)))).dot(get().Ti))(jac(get().V, t[j])) for j in range(len(t))]))

    G = {"one intercept": (3, 1, (1,), (("b", "a", "b"),), None), "two levels, no fixed intercept": (4, 1, (1,), ((7, 3, 3, 7),), None),
         "crossed": (3, 1, (1, 1), ((0, 1, 1), (5, 5, 2)), None), "slope": (3, 1, (2,), ((1, 0, 1),), None), "slope and crossed intercept": (4, 1, (2, 1), ((1, 0, 1, 0), (0, 0, 2, 2)), None),
         "two fixed effects": (3, 2, (1,), ((2, 2, 1),), None), "relationship": (3, 1, (1,), ((0, 1, 0),), (True,))}
    for nm, (n, p, nvs, gs, kin) in G.items():
        q = max(sum(nvs) - len(nvs), 1)
        big = nm == "slope and crossed intercept"
        dom = dict(X=((n, p), -1.5, 1.5), y=((n,), -1.5, 1.5), a=((n, q), 0.4, 1.5), t=tgen(nvs))
        if kin:
            dom["K"] = lambda rng: np.round((lambda B: B @ B.T + 0.6 * np.eye(2))(rng.uniform(-0.6, 0.6, size=(2, 2))), 3)
        fix = nvs != (1,)
        fx = lambda rng, n=n, k=p: np.round(rng.uniform(-1.5, 1.5, size=(n, k)), 1)
        fa = lambda rng, n=n, k=q: np.round(rng.uniform(-1.5, 1.5, size=(n, k)), 1)
        for what, f, fns in (("criterion", crit, ("BaseMME._loglike", "MMEBlocked.update_chol_diag", "MMEBlocked._chol_sparse_diag", "MMEBlocked._chol_dense_diag", "RandomEffects.lndet_gmat", "RandomEffects.lndet_rmat", "RandomEffectTerm._make_z_matrix", "make_zinds")),
                             ("gradient", grads, ("MMEBlocked._gradient", "MMEBlocked._gradient_v2", "KronIG.accumulate_gradient", "KronIG.precompute_grad_caches", "BaseProductCovariance.accumulate_gradient", "DiagResidualCovTerm.accumulate_gradient")),
                             ("gradient inputs", inputs, ("MMEBlocked._gradient", "MMEBlocked._gradient_v2")), ("residual gradient", resid, ("DiagResidualCovTerm.accumulate_gradient",)),
                             ("effects", effects, ("LMM2.compute_effects", "LMM2.vinvcrossprod", "LMM2.random_effects_se", "LMM2._dC_dtheta", "MMEBlocked.vinv_apply", "MMEBlocked.p_apply"))):
            if what == "gradient" and nm not in ("one intercept", "two levels, no fixed intercept") or big and what in ("effects", "gradient inputs"):
                continue
            for thr in ((0.0, 1.1) if what == "criterion" else (0.4,)):
                if kin:
                    def g(c, X, y, a, t, K, f=f, nvs=nvs, gs=gs, thr=thr, kin=kin):
                        K = (K + K.T) / 2
                        f(c, X, y, a, t, nvs, gs, thr, kin, K)
                else:
                    def g(c, X, y, a, t, f=f, nvs=nvs, gs=gs, thr=thr):
                        f(c, X, y, a, t, nvs, gs, thr)
                if fix and what != "criterion":
                    def g(c, X, y, a, t, g=g):
                        if c.sym:
                            X, a = val(X), val(a)
                        g(c, X, y, a, t)
                ck.contract("%s, %s%s" % (what, nm, "" if what != "criterion" else ", dense" if thr == 0.0 else ", sparse"), dict(dom, X=fx, a=fa) if fix and what != "criterion" else dom, g, n=1, flips=1, budget=400000, extra=ext,
                            requires=good(nvs), functions=[P + x for x in fns])
