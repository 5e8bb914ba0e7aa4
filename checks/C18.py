"""C18 elastic net: proximal map, coordinate updates, objectives and derivatives, optimality of converged solutions"""
import contextlib
import importlib
import io
import numpy as np
import pandas as pd
from vf.core import D, jac, hess, substitute
from vf.sym import F, S, SArr
from checks.C07 import NLL, LINKS, mk

P = "pystatsm/pyglmnet/"


def soft(u, t):
    return np.where(np.abs(u) <= t, 0 * u, u - t * np.sign(u))


def pen(b, lam, al):
    return lam * (al * np.sum(np.abs(b)) + (1 - al) / 2 * np.sum(b * b))


def sigm(e):
    return 1 / (1 + np.exp(-e))


def sweep(X, r, v, b, b0, la, dla, idx, sc=1.0, with_b0=True):
    """exact coordinate minimisers of  sum v (r/v - X (b+d) ...)^2 / 2 sc + dla b^2/2 + la |b|, one after the other; every residual is
    computed from scratch"""
    b, b1 = list(b), b0
    dl, d0 = [0.0] * len(b), 0.0
    res = lambda: r - v * sum(X[:, k] * dl[k] for k in range(len(b))) - v * d0
    step = []
    for j in idx:
        xj = X[:, j]
        h = np.sum(v * xj * xj) / sc
        u = np.sum(xj * (res() + v * xj * b[j])) / sc
        new = soft(u, la) / (h + dla)
        d = new - b[j]
        if d != 0:      # where the update is zero its effect on the residual is left out, which changes nothing
            dl[j] = dl[j] + d
        b[j] = new
        step.append(h * d ** 2)
    if with_b0:
        d0 = np.sum(res()) / np.sum(v)
        b1 = b1 + d0
        step.append(d0)
    return vec(b), b1, res(), step


def vec(x):
    x = list(x)
    if any(isinstance(e, S) for e in x):
        return np.array(x, dtype=object).view(SArr)
    return np.array([float(e) for e in x])


def zeros(c, shape):
    return np.zeros(shape).astype(object).view(SArr) if c.sym else np.zeros(shape)


def quiet():
    return contextlib.redirect_stderr(io.StringIO())


WARM = ()


def run(ck):
    im = lambda m: importlib.import_module("pystatsm." + m)
    ge, be, b2, ut = im("pyglmnet.gaussian_eln"), im("pyglmnet.binomial_eln"), im("pyglmnet.binom_eln2"), im("pyglmnet.eln_utils")
    g2, gl, la_, lr = im("pyglmnet.glmen2"), im("pyglmnet.glmen"), im("pyglmnet.lasso"), im("pyglmnet.lars")
    fu, fam, lk = im("utilities.func_utils"), im("pyglm.families"), im("pyglm.links")
    AL, LAM = (None, 0.1, 0.95), (None, 0.02, 0.6)

    # ---- proximal map -------------------------------------------------------------------------
    def prox(c, x, t, z):
        for nm, f in (("utilities", fu.soft_threshold), ("gaussian", ge.sft), ("binomial", be.sft), ("lasso", la_.soft_threshold)):
            s = f(x, t)
            c.eq("soft threshold (%s)" % nm, lambda: f(x, t), lambda: soft(x, t))
            q = lambda u: (u - x) ** 2 / 2 + t * np.abs(u)
            # with |x - s| <= t the second term is non-negative for every z: s minimises (u - x)^2/2 + t|u|
            c.eq("proximal inequality (%s)" % nm, lambda: q(z) - q(s), lambda: (z - s) ** 2 / 2 + (t * np.abs(z) - (x - s) * z))
            if not c.sym:
                c.near("dual feasibility (%s)" % nm, bool(np.all(np.abs(x - s) <= t * (1 + 1e-12))), True)
                if nm != "lasso":
                    c.near("scalar argument (%s)" % nm, float(f(float(x[0]), float(t))), float(s[0]))
    ck.contract("soft threshold", dict(x=((4,), -2.0, 2.0, -50.0, 50.0), t=(None, 0.1, 1.5, 0.01, 20.0), z=((4,), -2.0, 2.0)), prox, n=6,
                functions=["pystatsm/utilities/func_utils.py::soft_threshold", P + "gaussian_eln.py::sft", P + "binomial_eln.py::sft", P + "lasso.py::soft_threshold"])

    # ---- objectives ---------------------------------------------------------------------------
    def objg(c, X, y, b, lam, al):
        n = X.shape[0]
        f = lambda b: np.sum((y - X.dot(b)) ** 2) / (2 * n)
        c.eq("penalty", lambda: (ge.elnet_penalty(b, al, lam), be.elnet_penalty(b, al, lam), b2.penalty_func(b, al, (1 - al) / 2, lam)), lambda: (pen(b, lam, al),) * 3)
        c.eq("Gaussian loss, penalty, objective", lambda: ge.elnet_loglike(X, y, b, al, lam), lambda: (f(b), pen(b, lam, al), f(b) + pen(b, lam, al)))
        c.eq("gradient of the objective", lambda: ge.elnet_grad(b, X, y, lam, al), lambda: jac(ge.elnet_loglike(X, y, b, al, lam)[2], b))
        c.eq("lasso objective", lambda: la_.lasso_obj(b, X, y, lam), lambda: (f(b), lam * np.sum(np.abs(b)), f(b) + lam * np.sum(np.abs(b))))
    ck.contract("Gaussian objective", dict(X=((3, 2), -1.5, 1.5), y=((3,), -2.0, 2.0), b=((2,), -1.5, 1.5), lam=LAM, al=AL), objg, n=4, requires=lambda b, **kw: bool(np.all(b != 0)),
                functions=[P + "gaussian_eln.py::" + f for f in ("elnet_penalty", "elnet_loglike", "elnet_grad")] + [P + "lasso.py::lasso_obj", P + "binomial_eln.py::elnet_penalty", P + "binom_eln2.py::penalty_func"])

    def objb(c, e, w, b, lam, al, y):
        n = len(e)
        mu = sigm(e)
        ll = sum(np.log(mu[i]) if y[i] == 1 else np.log(1 - mu[i]) for i in range(n))
        c.eq("inverse logit", lambda: be.inv_logit(e), lambda: mu)
        c.eq("mean deviance, penalty, penalised mean loss", lambda: be.binom_eval(y, e, b, al, lam), lambda: (-2 * ll / n, pen(b, lam, al), pen(b, lam, al) - ll / n))
        dev = vec([-2 * w[i] * (np.log(mu[i]) if y[i] == 1 else np.log(1 - mu[i])) for i in range(n)])
        c.eq("deviance", lambda: b2.binomial_deviance(y, mu, w), lambda: dev)
        c.eq("deviance of integer responses", lambda: b2.binomial_deviance(y.astype(int), mu, w), lambda: dev)
        c.eq("objective", lambda: b2.objective_function(y, mu, w, b, al, (1 - al) / 2, lam), lambda: np.sum(dev) / 2 + pen(b, lam, al))
    for k, y in enumerate(([0.0, 1.0, 1.0], [1.0, 0.0, 0.0, 1.0])):
        ck.contract("binomial objective %d" % k, dict(e=((len(y),), -2.0, 2.0), w=((len(y),), 0.1, 1.0), b=((2,), -1.5, 1.5), lam=LAM, al=AL), lambda c, e, w, b, lam, al, y=y: objb(c, e, w, b, lam, al, np.array(y)), n=3,
                    functions=[P + "binomial_eln.py::binom_eval", P + "binomial_eln.py::inv_logit", P + "binom_eln2.py::binomial_deviance", P + "binom_eln2.py::objective_function"])

    def fracdev(c, y, mu, w):
        kl = lambda y, m: y * np.log(y / m) + (1 - y) * np.log((1 - y) / (1 - m))
        c.eq("deviance of proportions", lambda: b2.binomial_deviance(y, mu, w), lambda: 2 * w * kl(y, mu))
    ck.contract("deviance of proportions", dict(y=((3,), 0.1, 0.9, 0.01, 0.99), mu=((3,), 0.1, 0.9, 0.01, 0.99), w=((3,), 0.1, 1.0)), fracdev, n=3, functions=[P + "binom_eln2.py::binomial_deviance"])

    def helpers(c, X, b, B, w, e0, lam, al, yp, k):
        y = np.array([0.0, 1.0, 1.0])
        eta = X.dot(b) + e0
        mu = sigm(eta)
        c.eq("linear predictor, mean, variance", lambda: b2.get_eta_mu(X, b, e0), lambda: (eta, mu, mu * (1 - mu)))
        c.eq("null intercept has zero score", lambda: np.sum(w * (y - b2.get_intercept(y, w)[1])), lambda: 0 * e0)
        b00 = lambda: np.log(np.sum(w * y) / np.sum(w) / (1 - np.sum(w * y) / np.sum(w)))
        c.eq("null intercept", lambda: b2.get_intercept(y, w), lambda: (b00(), sigm(b00()) * np.ones(3), b00() * np.ones(3)))
        m0 = lambda: np.sum(w * y) / np.sum(w)
        lmax = lambda: np.abs(X.T.dot(w / np.sum(w) * (y - m0()))) / al
        if c.sym:
            top = lambda: max(lmax())
        else:
            top = lambda: np.max(lmax())
        c.eq("largest penalty", lambda: b2.get_lambdas(X, y, w, 3, al, 1e-2), lambda: vec([top(), top() / 10, top() / 100]))
        L = vec([lam, lam / 2])
        dv = lambda b: np.sum(b2.binomial_deviance(y, sigm(X.dot(b[1:]) + b[0]), w)) / 2
        c.eq("held-out loss and penalty", lambda: b2.cv_dev(B, L, al, y, X, w), lambda: np.stack([vec([dv(B[0]), pen(B[0, 1:], L[0], al)]), vec([dv(B[1]), pen(B[1, 1:], L[1], al)])]))
    ck.contract("binomial helpers", dict(X=((3, 2), -1.5, 1.5), b=((2,), -1.0, 1.0), B=((2, 3), -1.0, 1.0), w=((3,), 0.2, 1.0), e0=(None, -1.0, 1.0), lam=LAM, al=AL, yp=(None, 0.2, 0.8), k=(None, 0.1, 1.0)), helpers, n=3,
                functions=[P + "binom_eln2.py::" + f for f in ("get_eta_mu", "get_intercept", "get_lambdas", "cv_dev")])

    # ---- coordinate updates -------------------------------------------------------------------
    ACT = {2: ([True, True], [False, True], [True, False]), 3: ([True, True, True], [True, False, True]), 1: ([True],)}

    def cd(c, X, y, w, b, b0, lam, al, act, sweeps):
        n, p = X.shape
        act = np.array(act)
        idx = np.arange(p)[act]
        one = np.ones(n)

        # Gaussian
        def spec_g():
            bb, fv = b, [(np.sum((y - X.dot(b)) ** 2) / (2 * n), pen(b, lam, al))]
            on = list(idx)
            for _ in range(sweeps):
                bb, _, _, _ = sweep(X, y - X.dot(bb), one, bb, 0.0, lam * al * n, lam * (1 - al) * n, on, with_b0=False)
                on = [j for j in on if bb[j] != 0]
                fv.append((np.sum((y - X.dot(bb)) ** 2) / (2 * n), pen(bb, lam, al)))
            return bb, fv
        Xs2 = (X * X).sum(axis=0)
        run_g = lambda: ge.eln_cd(X, y, Xs2, al, lam, b.copy(), act.copy(), sweeps, -1e6)
        c.eq("Gaussian coordinate updates", lambda: run_g()[0], lambda: spec_g()[0])
        c.eq("Gaussian objective values", lambda: run_g()[1][sweeps - 1], lambda: (lambda f: vec([f[0], f[1], f[0] + f[1]]))(spec_g()[1][sweeps - 1]))
        bo = run_g()[0]
        j = idx[-1]
        if bo[j] != 0:
            z = lambda: -X[:, j].dot(y - X.dot(bo)) / n + lam * (1 - al) * bo[j] + lam * al * np.sign(bo[j])
            c.eq("Gaussian: zero partial derivative after the update", z, lambda: 0 * lam)

        # binomial, one cycle
        r = w * y
        Xsq = X * X
        xv0 = zeros(c, p)
        run_b = lambda: be.binom_glm_cd(b.copy(), b0, X, Xsq, r, w, xv0.copy(), lam * al, lam * (1 - al), act.copy(), np.arange(p), n)
        sp = lambda: sweep(X, r, w, b, b0, lam * al, lam * (1 - al), idx, sc=n)
        c.eq("binomial cycle: coefficients and intercept", lambda: run_b()[:2], lambda: sp()[:2])
        change = lambda new, sc: [np.sum(w * Xsq[:, k]) / sc * (new[k] - b[k]) ** 2 for k in range(p)]
        c.eq("binomial cycle: weighted changes", lambda: run_b()[3], lambda: vec(change(run_b()[0], n)))
        c.near("binomial cycle: active set", lambda: np.asarray(run_b()[2], dtype=bool), lambda: act & (np.asarray(sp()[0], dtype=float) != 0))

        # second binomial solver
        def spec_w():
            bb, bz, rr, on, ac = b, b0, r, list(idx), act.copy()
            for s in range(sweeps):
                bb, bz, rr, _ = sweep(X, rr, w, bb, bz, lam * al, lam * (1 - al), on, sc=n)
                if s == 0:
                    on = [j for j in on if bb[j] != 0]
            return bb, bz
        beta = lambda: np.concatenate([np.reshape(b0, (1,)), b])
        c.eq("weighted coordinate descent", lambda: b2._welnet_cd(X, Xsq, r, w, al, lam, beta(), act.copy(), np.arange(p), sweeps, -1.0)[:2], spec_w)

        # generalised linear model solver: unscaled weights
        s3 = lambda: sweep(X, r, w, b, b0, lam * al, lam * (1 - al), idx)
        xv, xi = xv0.copy(), np.zeros(p, dtype=bool)
        run_c = lambda: g2._coordinate_descent_cycle(b.copy(), b0, r, w, X, Xsq, xv.copy(), xi.copy(), act.copy(), np.arange(p), lam, al)
        c.eq("GLM cycle: coefficients, intercept, residual", lambda: tuple(run_c()[k] for k in (0, 1, 4)), lambda: s3()[:3])

        def big():
            o = run_c()
            return max(change(o[0], 1.0) + [np.sum(w) * (o[1] - b0) ** 2])
        c.eq("GLM cycle: largest weighted change", lambda: run_c()[3], big)
    fn_cd = [P + "gaussian_eln.py::eln_cd", P + "binomial_eln.py::binom_glm_cd", P + "binom_eln2.py::_welnet_cd", P + "glmen2.py::_coordinate_descent_cycle", P + "glmen2.py::weighted_elnet"]
    for p, sweeps in ((1, 1), (2, 1), (2, 2), (3, 1)):
        for act in ACT[p] if sweeps == 1 else ACT[p][:1]:
            ck.contract("coordinate updates p=%d %s, %d sweeps" % (p, "".join("01"[a] for a in act), sweeps),
                        dict(X=((5 - (p > 1) - (p > 2), p), -1.5, 1.5), y=((5 - (p > 1) - (p > 2),), -2.0, 2.0), w=((5 - (p > 1) - (p > 2),), 0.1, 1.0), b=((p,), -1.0, 1.0), b0=(None, -1.0, 1.0), lam=(None, 0.02, 0.4), al=AL),
                        lambda c, act=act, sweeps=sweeps, **k: cd(c, act=act, sweeps=sweeps, **k), n=3 if sweeps == 1 and p < 3 else 1, flips=(0, 8, 6, 3)[p] if sweeps == 1 else 1, functions=fn_cd)

    def proxg(c, X, y, b, lam, me):
        n = X.shape[0]
        XtX, Xty = X.T.dot(X), X.T.dot(y)
        a = 1 / (2 * me)
        st = lambda b: soft(b + a * X.T.dot(y - X.dot(b)) / n, a * lam)
        ob = lambda b: np.sum((y - X.dot(b)) ** 2) / (2 * n) + lam * np.sum(np.abs(b))
        c.eq("proximal gradient step", lambda: la_.lasso_prox_grad(b, X, y, Xty, XtX, lam, me, n_iters=1), lambda: (lambda g: (st(b), np.stack([vec([ob(b) - lam * np.sum(np.abs(b)), lam * np.sum(np.abs(b)), ob(b)]),
            vec([ob(g) - lam * np.sum(np.abs(g)), lam * np.sum(np.abs(g)), ob(g)])])))(st(b)))
        c.eq("accelerated step", lambda: la_.lasso_accelerated_grad(b, X, y, Xty, XtX, lam, me, n_iters=1)[0], lambda: st(b))

        def two():
            b1 = st(b)
            return st(b1 + (b1 - b) / 4)
        c.eq("second accelerated step", lambda: la_.lasso_accelerated_grad(b, X, y, Xty, XtX, lam, me, n_iters=2)[0], two)
    ck.contract("proximal gradient", dict(X=((3, 2), -1.0, 1.0), y=((3,), -3.0, 3.0), b=((2,), -1.0, 1.0), lam=(None, 0.02, 0.3), me=(None, 6.0, 9.0)), proxg, n=4, flips=4,
                functions=[P + "lasso.py::lasso_prox_grad", P + "lasso.py::lasso_accelerated_grad"])

    # ---- least angle regression ---------------------------------------------------------------
    def larsk(c, X, C, s):
        p = X.shape[1]
        G = X.T.dot(X)

        def chol():
            L = zeros(c, (p, p))
            for i in range(p):
                L = lr.chol_update(L, G[i, i], G[i, :i], i)
            return L
        c.eq("factor of the Gram matrix", lambda: (lambda L: L.dot(L.T))(chol()), lambda: G)
        for k in range(p):
            drops = np.arange(p) == k
            keep = [j for j in range(p) if j != k]
            res = lambda: lr.lars_drop_var(chol(), np.zeros((p + 1, p)), np.arange(p), s, np.array([], dtype=int), drops, 1)
            c.eq("factor after variable %d left" % k, lambda: (lambda L: L.dot(L.T))(res()[0][:p - 1, :p - 1]), lambda: G[keep][:, keep])
            c.eq("signs after variable %d left" % k, lambda: res()[3], lambda: s[keep])
        j = int(np.argmax(np.abs(np.asarray(C, dtype=float)))) if not c.sym else None
        if j is not None:
            c.near("largest correlation", lambda: lr.get_cmax(C), (j, abs(C[j]), C[j]))
    for p in (1, 2, 3):
        ck.contract("Gram factors p=%d" % p, dict(X=((4 if p < 3 else 3, p), -1.5, 1.5), C=((p,), -2.0, 2.0), s=((p,), -1.0, 1.0)), larsk, n=2,
                    functions=[P + "lars.py::chol_update", P + "lars.py::lars_drop_var", P + "lars.py::get_cmax"])

    def larsp(c, A, c0, method):
        p = len(c0)
        n = 7
        G = (lambda o: (o + o.T))(A) / 2 + 2 * np.eye(p)
        lam, act, B = lr._lars(None, None, G, c0, G.copy(), c0.copy(), method, 10 * p, n, p)
        B = np.asarray(B)
        for i in range(len(lam)):
            g = (c0 - G.dot(B[i].view(SArr) if c.sym else B[i])) / n
            for j in range(p):
                if B[i, j] != 0:
                    c.eq("knot %d, variable %d: correlation equals the penalty" % (i, j), lambda: g[j] * np.sign(c0[j]) if method == "lar" else g[j] * np.sign(B[i, j]), lambda: lam[i] + 0 * g[j])
            if not c.sym:
                c.near("knot %d: correlations bounded by the penalty" % i, bool(np.all(np.abs(g) <= lam[i] + 1e-9)), True)
    for p in (1, 2):
        for method in ("lasso", "lar"):
            ck.contract("path of %s p=%d" % (method, p), dict(A=((p, p), -0.9, 0.9), c0=((p,), -2.0, 2.0)), lambda c, A, c0, m=method: larsp(c, A, c0, m), n=2, flips=4, requires=lambda A, c0: bool(np.all(np.abs(c0) > 1e-3) and len(set(np.abs(c0))) == len(c0)),
                        functions=[P + "lars.py::" + f for f in ("_lars", "lars_add_var", "get_lars_gamma", "_tmin", "_lasso_modification", "get_cmax")])

    # ---- generalised linear models ------------------------------------------------------------
    def model(fm, X, y, w, al):
        m = g2.ElasticNetGLM.__new__(g2.ElasticNetGLM)
        m.X, m.y, m.wobs, m.family, m.alpha = X, y, w, fm, al
        m.n = m.n_obs = X.shape[0]
        m.p = m.n_var = X.shape[1]
        m.Xsq, m.halc, m._categorical = X * X, (1 - al) / 2, False
        return m

    def glm(c, X, y, w, bt, lam, al, fm, nll):
        m = model(fm, X, y, w, al)
        half = lambda t: (lambda mu: sum(w[i] * (nll(y[i], mu[i], 1.0, 1.0, 0.0)) for i in range(len(y))))(fm.inv_link(t[0] + X.dot(t[1:])))
        sat = lambda: sum(w[i] * nll(y[i], y[i], 1.0, 1.0, 0.0) for i in range(len(y)))
        c.eq("deviance is twice the log-likelihood deficit", lambda: m._dev_beta(bt), lambda: 2 * (half(bt) - sat()))
        c.eq("deviance at the mean", lambda: m._dev_mu(m._get_mu(bt)), lambda: 2 * (half(bt) - sat()))
        c.eq("penalty", lambda: m.pen_func(bt, lam), lambda: pen(bt[1:], lam, al))
        c.eq("objective", lambda: m.obj_func(bt, lam), lambda: half(bt) - sat() + pen(bt[1:], lam, al))
        c.eq("objective at the mean", lambda: m._obj_func_mu(m._get_mu(bt), bt, lam, X, y, w), lambda: half(bt) - sat() + pen(bt[1:], lam, al))
        c.eq("penalty gradient", lambda: m.pen_grad(bt, lam), lambda: jac(m.pen_func(bt, lam), bt)[1:])
        c.eq("deviance gradient", lambda: m.dev_grad(bt, lam), lambda: jac(m._dev_beta(bt), bt))
        c.eq("deviance gradient, explicit data", lambda: m.dev_grad(bt, lam, X * 2, y, w / 2), lambda: jac(m._dev_beta(bt, X * 2, y, w / 2), bt))
        c.eq("objective gradient", lambda: m.obj_grad(bt, lam), lambda: jac(m.obj_func(bt, lam), bt))
        c.eq("objective gradient, explicit data", lambda: m.obj_grad(bt, lam, X * 2, y, w / 2), lambda: jac(m.obj_func(bt, lam, X * 2, y, w / 2), bt))
        c.eq("deviance Hessian", lambda: m.dev_hess(bt, lam), lambda: hess(m._dev_beta(bt), bt))
        c.eq("penalty Hessian", lambda: m.penalty_hess(bt, lam), lambda: hess(m.pen_func(bt, lam), bt))
        c.eq("objective Hessian", lambda: m.obj_hess(bt, lam), lambda: hess(m.obj_func(bt, lam), bt))
        c.eq("objective Hessian, explicit data", lambda: m.obj_hess(bt, lam, X * 2, y, w / 2), lambda: hess(m.obj_func(bt, lam, X * 2, y, w / 2), bt))
        ws = w / np.sum(w)
        m.wobs = ws
        b0 = lambda: fm.link(np.sum(ws * y))
        c.eq("null intercept", lambda: m.get_intercept(), lambda: vec([b0(), 0.0, 0.0]))
        B = np.stack([bt, bt / 2])
        c.eq("mean held-out deviance", lambda: m.crossval_path(B, None, X, y, w), lambda: vec([m._dev_mu(fm.inv_link(b[0] + X.dot(b[1:])), y, w) / np.sum(w) for b in B]))

    def irls(c, X, y, w, bt, lam, al, fm, nll):
        # one outer step with one inner sweep: coordinate minimisers of the quadratic expansion with expected weights
        m = model(fm, X, y, w, al)
        run_ = lambda: m._glm_elnet(bt.copy(), X, X * X, y, w, lam, 100.0, np.ones(2, dtype=bool), n_iters=1, ftol=-1.0, inner_kws=dict(max_iters=1))

        def spec():
            eta = X.dot(bt[1:]) + bt[0]
            mu = fm.inv_link(eta)
            de, V = fm.dinv_link(eta), fm.var_func(mu=mu)
            v = w * de * de / V
            b, b0, _, _ = sweep(X, w * de / V * (y - mu), v, bt[1:], bt[0], lam * al, lam * (1 - al), [0, 1])
            return np.concatenate([np.reshape(b0, (1,)), b])
        c.eq("one step of the outer loop", lambda: run_()[0], spec)
        c.eq("reported objective", lambda: run_()[1][-1][0], lambda: m.obj_func(run_()[0], lam, X, y, w))
    fl = {"Gaussian": ["IdentityLink", "LogLink"], "Binomial": ["LogitLink", "ProbitLink"], "Poisson": ["LogLink", ("PowerLink", 0.5)], "Gamma": ["ReciprocalLink", "LogLink"], "InverseGaussian": [("PowerLink", -2), "LogLink"]}
    pos = ((3,), 0.5, 3.0)
    ylk = {"ReciprocalLink": ((3,), 0.5, 0.6), "PowerLink(-2)": ((3,), 0.7, 0.78)}
    yd = {"Gaussian": pos, "Binomial": ((3,), 0.15, 0.85), "Poisson": pos, "Gamma": pos, "InverseGaussian": pos}
    fns = [P + "glmen2.py::ElasticNetGLM." + f for f in ("_dev_mu", "_get_eta", "_get_mu", "_dev_beta", "pen_func", "obj_func", "_obj_func_mu", "pen_grad", "dev_grad", "obj_grad", "dev_hess", "penalty_hess", "obj_hess", "get_intercept", "crossval_path")]
    for nm, links in fl.items():
        for ln in links:
            fm = mk(fam, lk, nm, ln)
            s = ln if isinstance(ln, str) else "%s(%s)" % ln

            def bdom(rng, ln=ln):
                b = rng.uniform(-0.4, 0.4, 3)
                b[0] = rng.uniform(1.5, 2.2) if ln not in ("LogitLink", "ProbitLink", "LogLink") else rng.uniform(-0.3, 0.8)
                return b
            dom = dict(X=((3, 2), -1.0, 1.0), y=yd[nm] if s not in ylk else ylk[s], w=((3,), 0.2, 1.0), bt=bdom, lam=(None, 0.02, 0.3), al=AL)
            ck.contract("GLM objective: %s, %s" % (nm, s), dom, lambda c, fm=fm, nm=nm, **k: glm(c, fm=fm, nll=NLL[nm], **k), n=2, functions=fns)
            ck.contract("GLM outer step: %s, %s" % (nm, s), dom, lambda c, fm=fm, nm=nm, **k: irls(c, fm=fm, nll=NLL[nm], **k), n=2, flips=3, functions=[P + "glmen2.py::ElasticNetGLM._glm_elnet", P + "glmen2.py::weighted_elnet"])

    def setup(c, X, y, w, al):
        fm = fam.Gaussian()
        m = g2.ElasticNetGLM(X, y, fm, w, al)
        mu = sum(X) / len(X)
        sd = np.sqrt(sum((X - mu) ** 2) / len(X))
        Z = lambda: (X - mu) / sd
        c.eq("standardised predictors", lambda: m.X, Z)
        c.eq("their squares", lambda: m.Xsq, lambda: Z() ** 2)
        c.eq("normalised weights", lambda: m.wobs, lambda: w / np.sum(w))
        ws = lambda: w / np.sum(w)
        yb = lambda: np.sum(ws() * y)
        g = lambda: np.abs(Z().T.dot(ws() * (y - yb()))) / al
        top = (lambda: max(g())) if c.sym else (lambda: np.max(g()))
        sp = lambda: m.get_start_param(n_lambdas=3, lambda_min_ratio=1e-2)
        c.eq("penalties from the largest useful one", lambda: sp()[0], lambda: vec([top(), top() / 10, top() / 100]))
        c.eq("null deviance", lambda: sp()[1], lambda: np.sum(ws() * (y - yb()) ** 2))
        c.eq("null intercept", lambda: sp()[2], lambda: vec([yb(), 0.0, 0.0]))
    ck.contract("GLM set-up", dict(X=((4, 2), -1.5, 1.5), y=((4,), -2.0, 2.0), w=((4,), 0.2, 1.0), al=AL), setup, n=3, requires=lambda X, y, **kw: bool(np.all(np.std(X, axis=0) > 0.1) and np.std(y) > 0.1), functions=[P + "glmen2.py::ElasticNetGLM.__init__", P + "glmen2.py::ElasticNetGLM.get_start_param"])

    # ---- converged solutions ------------------------------------------------------------------
    def gen(rng, i):
        n, p = int(rng.integers(25, 60)), int(rng.integers(3, 8))
        rho = (0.0, 0.5, 0.8, 0.95)[i % 4]
        X = rng.normal(size=(n, p)) @ np.linalg.cholesky(rho ** np.abs(np.subtract.outer(np.arange(p), np.arange(p)))).T
        X = (X - X.mean(0)) / X.std(0)
        bt = rng.normal(size=p) * (rng.random(p) < 0.6)
        return X, X @ bt + rng.normal(size=n), float(rng.choice([0.3, 0.05, 0.01, 0.002])), float(rng.choice([0.99, 0.9, 0.5, 0.2]))

    def viol(X, r, b, lam, al):
        """largest violation of the subgradient conditions, r = derivative of the loss with respect to the linear predictor, negated"""
        g = -X.T @ r + lam * (1 - al) * b
        return float(np.max(np.where(b != 0, np.abs(g + lam * al * np.sign(b)), np.maximum(np.abs(g) - lam * al, 0))))

    def solg(rng, i):
        X, y, lam, al = gen(rng, i)
        n, p = X.shape
        o = dict(atol=3e-6, inputs=dict(seed=i, lam=lam, alpha=al, n=n, p=p))
        for ic in (True, False):
            yc = y - y.mean() if ic else y
            b, f, a, it = ge.elnet(X, y, lam, al, n_iters=20000, dtol=1e-14, intercept=ic)
            yield "elnet (intercept %s): optimality" % ic, viol(X, (yc - X @ b) / n, b, lam, al), 0.0, o
            yield "elnet: reported objective", f[-1], np.array(ge.elnet_loglike(X, yc, b, al, lam)), dict(atol=1e-7)
        ac = rng.random(p) < 0.5
        b, f, a, it = ge.elnet(X, y, lam, al, b=rng.normal(size=p), active=ac, n_iters=20000, dtol=1e-14)
        yield "elnet from a restricted start: optimality", viol(X, (y - y.mean() - X @ b) / n, b, lam, al), 0.0, o
        m = gl.GLMEN(X=X, y=y, family="gaussian")
        m.fit(lam, al, dtol=1e-14, n_iters=20000)
        yield "GLMEN gaussian: optimality", viol(X, (y - y.mean() - X @ m.beta) / n, m.beta, lam, al), 0.0, o
        yield "GLMEN gaussian: prediction", m.predict(), X @ m.beta + y.mean()
        yield "GLMEN gaussian: reported objective", m.fvals[-1], np.array(ge.elnet_loglike(X, y - y.mean(), m.beta, al, lam)), dict(atol=1e-7)
        yield "GLMEN gaussian: active set", np.asarray(m.active)[m.beta != 0], np.ones(int(np.sum(m.beta != 0)), dtype=bool)
        XtX, Xty = X.T @ X, X.T @ y
        ev = np.linalg.eigvalsh(XtX / n)[-1]
        for st in (np.zeros(p), rng.normal(size=p)):
            kw = dict(n_iters=50000, rtol=1e-11, atol=1e-11)
            for nm, f_ in (("lasso_prox_grad", la_.lasso_prox_grad), ("lasso_accelerated_grad", la_.lasso_accelerated_grad)):
                b, h = f_(st.copy(), X, y, Xty, XtX, lam, ev, **kw)
                yield nm + ": optimality", viol(X, (y - X @ b) / n, b, lam, 1.0), 0.0, o
                yield nm + ": reported objective", np.min(h[-2:, 2]), la_.lasso_obj(b, X, y, lam)[2], dict(rtol=1e-9)
                yield nm + ": the objective never increases", bool(np.all(np.diff(h[:-1, 2]) <= 1e-12)), True
    ck.concrete("converged Gaussian solutions", solg, n=24, functions=[P + "gaussian_eln.py::elnet", P + "gaussian_eln.py::eln_cd", P + "lasso.py::lasso_prox_grad", P + "lasso.py::lasso_accelerated_grad", P + "glmen.py::GLMEN.fit", P + "glmen.py::GLMEN.predict"])

    def solb(rng, i):
        X, e, lam, al = gen(rng, i)
        n, p = X.shape
        y = (e > np.quantile(e, rng.uniform(0.3, 0.7))).astype(float)
        y = np.where(rng.random(n) < 0.15, 1 - y, y)
        o = dict(atol=3e-6, inputs=dict(seed=i, lam=lam, alpha=al, n=n, p=p))
        for nr in (False, True):
            for ic in (True, False):
                b, b0, a, f, k = be.binom_glmnet(X, y, lam, al, btol=1e-20, dtol=1e-20, n_iters=5000, nr_ent=nr, intercept=ic)
                r = (y - sigm(X @ b + b0)) / n
                yield "binom_glmnet (%s, %s): optimality" % (nr, ic), viol(X, r, b, lam, al), 0.0, o
                yield "binom_glmnet: intercept", (float(r.sum()) if ic else float(b0)), 0.0, o
                yield "binom_glmnet: reported deviance", f[-1], be.binom_eval(y, X @ b + b0, b, al, lam)[0], dict(rtol=1e-8)
                yield "binom_glmnet: evaluations", k, len(f)
        st = rng.normal(size=p) / n
        b, b0, a, f, k = be.binom_glmnet(X, y, lam, al, b=st, active=rng.random(p) < 0.5, btol=1e-20, dtol=1e-20, n_iters=5000)
        yield "binom_glmnet from a restricted start: optimality", viol(X, (y - sigm(X @ b + b0)) / n, b, lam, al), 0.0, o
        m = gl.GLMEN(X=X, y=y, family="binomial")
        m.fit(lam, al, btol=1e-20, dtol=1e-20, n_iters=5000)
        yield "GLMEN binomial: optimality", viol(X, (y - sigm(X @ m.beta + m.b0)) / n, m.beta, lam, al), 0.0, o
        yield "GLMEN binomial: reported deviance", m.fvals[-1], be.binom_eval(y, X @ m.beta + m.b0, m.beta, al, lam)[0], dict(rtol=1e-8)
        w = rng.uniform(0.2, 2, n)
        kw = dict(dtol=1e-20, ftol=1e-14, n_iters=1000)
        for lab, yy, ww in (("", y, None), (" (integer responses)", y.astype(int), None), (" (weights)", y, w), (" (proportions)", np.clip(sigm(e), 0.02, 0.98), w)):
            t, f, _, sh = b2.binom_elnet(X, yy, lam, al, weights=ww, cd_kws=kw)
            wn = np.ones(n) / n if ww is None else ww / ww.sum()
            mu = sigm(X @ t[1:] + t[0])
            r = wn * (yy - mu)
            yield "binom_elnet%s: optimality" % lab, viol(X, r, t[1:], lam, al), 0.0, o
            yield "binom_elnet%s: intercept" % lab, float(r.sum()), 0.0, o
            yield "binom_elnet%s: reported objective" % lab, f[-1], b2.objective_function(yy.astype(float), mu, wn, t[1:], al, (1 - al) / 2, lam), dict(rtol=1e-9)
        lams = np.array([0.2, 0.05, 0.01])
        Xr = X * rng.uniform(0.5, 2, p) + rng.normal(size=p)
        with quiet():
            B, fv, fh, _ = b2.binom_elnet_path(Xr, y, w, al, lams, cd_kws=dict(kw, max_iters=1000))
        wn = w / w.sum()
        for j, lm in enumerate(lams):
            mu = sigm(X @ B[j, 1:] + B[j, 0])
            yield "binom_elnet_path: optimality", viol(X, wn * (y - mu), B[j, 1:], lm, al), 0.0, o
            yield "binom_elnet_path: reported objective", fv[j], b2.objective_function(y, mu, wn, B[j, 1:], al, (1 - al) / 2, lm), dict(rtol=1e-9)
        L = b2.get_lambdas(X, y, w, 5, al)
        with quiet():
            B = b2.binom_elnet_path(Xr, y, w, al, np.array([L[0] * (1 + 1e-6), L[0] * 0.99]), cd_kws=dict(kw, max_iters=1000))[0]
        yield "get_lambdas: nothing selected at the largest penalty", B[0, 1:], np.zeros(p), dict(atol=1e-9)
        yield "get_lambdas: something selected just below it", bool(np.any(B[1, 1:] != 0)), True
    ck.concrete("converged binomial solutions", solb, n=16, functions=[P + "binomial_eln.py::binom_glmnet", P + "binomial_eln.py::_binom_glmnet", P + "binom_eln2.py::binom_elnet", P + "binom_eln2.py::_binom_elnet_cd", P + "binom_eln2.py::binom_elnet_path", P + "binom_eln2.py::get_lambdas"])

    def solm(rng, i):
        X, e, lam, al = gen(rng, i)
        n, p = X.shape
        nm, ln = (("Gaussian", "IdentityLink"), ("Binomial", "LogitLink"), ("Poisson", "LogLink"), ("Gamma", "LogLink"), ("Binomial", "ProbitLink"))[i % 5]
        e = e / np.std(e) * 0.6
        y = {"Gaussian": e, "Binomial": (rng.random(n) < sigm(2 * e)).astype(float), "Poisson": rng.poisson(np.exp(e)).astype(float), "Gamma": rng.gamma(3.0, np.exp(e) / 3)}[nm]
        fm = mk(fam, lk, nm, ln)
        w = rng.uniform(0.3, 2, n) if i % 2 else None
        Xr = X * rng.uniform(0.5, 2, p) + rng.normal(size=p)
        m = g2.ElasticNetGLM(Xr, y, fm, wobs=w, alpha=al)
        wn = np.ones(n) / n if w is None else w / w.sum()
        kw = dict(ftol=1e-15, n_iters=3000, inner_kws=dict(dtol=1e-20, max_iters=5000))
        o = dict(atol=3e-6, inputs=dict(seed=i, lam=lam, alpha=al, n=n, p=p, family=nm, link=ln))

        def resid(t, ww=wn, Z=X, yy=y):
            eta = Z @ t[1:] + t[0]
            mu = fm.inv_link(eta)
            return ww * (yy - mu) * fm.dinv_link(eta) / fm.var_func(mu=mu)
        lmax = m.get_start_param(n_lambdas=4)[0][0]
        for lm in (lam, 0.9 * lmax, 0.4 * lmax):
            for lam0 in (None, lmax):
                t, f = m._glm_elnet(m.get_intercept(), m.X, m.Xsq, y, m.wobs, lm, lam0, **kw)
                yield "%s: optimality" % nm, viol(X, resid(t), t[1:], lm, al), 0.0, o
                yield "%s: intercept" % nm, float(resid(t).sum()), 0.0, o
                yield "%s: reported objective" % nm, f[-1][0], m.obj_func(t, lm), dict(rtol=1e-9, atol=1e-12)
        t, f = m._glm_elnet(np.r_[m.get_intercept()[0], rng.normal(size=p) * 0.1], m.X, m.Xsq, y, m.wobs, lam, active=rng.random(p) < 0.5, **kw)
        yield "%s from a restricted start: optimality" % nm, viol(X, resid(t), t[1:], lam, al), 0.0, o
        L = m.get_start_param(n_lambdas=6, lambda_min_ratio=1e-2)[0]
        with quiet():
            B, fv, _ = m._glm_elnet_path(m.X, m.Xsq, y, m.wobs, L, kws=kw)
        for j, lm in enumerate(L):
            yield "%s path: optimality" % nm, viol(X, resid(B[j]), B[j, 1:], lm, al), 0.0, o
            yield "%s path: reported objective" % nm, fv[j, 0], m.obj_func(B[j], lm), dict(rtol=1e-9, atol=1e-12)
        yield "%s path: nothing selected at the largest penalty" % nm, B[0, 1:], np.zeros(p), dict(atol=1e-6)
        if i % 5 < 3:
            with quiet():
                m.fit(n_lambdas=6, cv=3, lambda_min_ratio=1e-2, kws=kw)
            yield "%s fit: penalties" % nm, m.lambdas, L
            yield "%s fit: null deviance" % nm, m.null_dev, float(np.sum(fm.deviance(y=y, mu=np.ones(n) * np.sum(wn * y), weights=wn)))
            yield "%s fit: deviances" % nm, m.dev_vals, np.array([float(np.sum(fm.deviance(y=y, mu=fm.inv_link(X @ b[1:] + b[0]), weights=wn))) for b in m.betas]), dict(rtol=1e-7, atol=1e-12)
            yield "%s fit: explained share" % nm, m.dev_ratios, 1 - m.dev_vals / m.null_dev
            k = int(np.argmin(m.f_paths.mean(axis=(1, 2))))
            yield "%s fit: selected penalty" % nm, (m.lmin_idx, m.lmin), (k, m.lambdas[k])
            yield "%s fit: selected coefficients" % nm, m.beta, m.betas[k]
            yield "%s fit: mean" % nm, m.mu, fm.inv_link(X @ m.beta[1:] + m.beta[0])
            folds = ut.kfold_indices(n, 3, y, categorical=nm == "Binomial")
            for q, (tr, te) in enumerate(folds):
                mu_, sd_ = X[tr].mean(0), X[tr].std(0)
                Zr, Zt = (X[tr] - mu_) / sd_, (X[te] - mu_) / sd_
                for j, lm in enumerate(L):
                    b = m.beta_path[j, :, 0, q]
                    yield "%s fold: optimality" % nm, viol(Zr, resid(b, wn[tr], Zr, y[tr]), b[1:], lm, al), 0.0, o
                    mt = fm.inv_link(Zt @ b[1:] + b[0])
                    yield "%s fold: held-out deviance" % nm, m.f_paths[j, 0, q], float(np.sum(fm.deviance(y=y[te], mu=mt, weights=wn[te])) / wn[te].sum()), dict(rtol=1e-6)
    ck.concrete("converged GLM solutions", solm, n=10, functions=[P + "glmen2.py::ElasticNetGLM." + f for f in ("_glm_elnet", "_glm_elnet_path", "_glm_elnet_cv", "fit", "crossval_path", "get_start_param")])

    def larsc(rng, i):
        X, y, _, _ = gen(rng, i)
        n, p = X.shape
        y = y - y.mean()
        for kw in ({}, dict(normalize=False, standardize=True)):
            lam, act, B = lr.lars(X * (3 if kw else 1) + (2 if kw else 0), y + 5, **kw)
            for j in range(len(lam)):
                yield "lars(lasso): optimality at knot", viol(X, (y - X @ B[j]) / n, B[j], lam[j], 1.0), 0.0, dict(atol=1e-8, inputs=dict(i=i, knot=j))
            yield "lars(lasso): penalties decrease to zero", (bool(np.all(np.diff(lam) <= 1e-12)), abs(lam[-1]) < 1e-10), (True, True)
            yield "lars(lasso): ends at least squares", B[-1], np.linalg.lstsq(X, y, rcond=None)[0], dict(rtol=1e-6, atol=1e-8)
            # the path is linear between the knots
            for j in range(len(lam) - 1):
                b = (B[j] + B[j + 1]) / 2
                yield "lars(lasso): optimality between knots", viol(X, (y - X @ b) / n, b, (lam[j] + lam[j + 1]) / 2, 1.0), 0.0, dict(atol=1e-8)
        lam, act, B = lr.lars(X, y, method="lar")
        for j in range(len(lam)):
            g = X.T @ (y - X @ B[j]) / n
            yield "lars(lar): correlations are tied at the penalty", np.abs(g[B[j] != 0]), np.full(int((B[j] != 0).sum()), lam[j]), dict(atol=1e-8)
            yield "lars(lar): other correlations are smaller", bool(np.all(np.abs(g) <= lam[j] + 1e-9)), True
        yield "lars(lar): ends at least squares", B[-1], np.linalg.lstsq(X, y, rcond=None)[0], dict(rtol=1e-6, atol=1e-8)
        yield "lars(lar): every variable enters once", sorted(act), list(range(p))
        t = lr._lars_sumstats(X, y, lam, act, B)
        ssr = np.array([np.sum((y - X @ b) ** 2) for b in B])
        df = (B != 0).sum(1)
        yield "lars summary", t[["SSR", "df", "AIC", "BIC", "Rsq"]].to_numpy(), np.c_[ssr, df, ssr / y.var() + 2 * df, ssr / y.var() + np.log(n) * df, 1 - ssr / (n * y.var())]
    ck.concrete("least angle regression paths", larsc, n=30, functions=[P + "lars.py::lars", P + "lars.py::_lars", P + "lars.py::handle_lars_setup", P + "lars.py::lars_drop_var", P + "lars.py::_lars_sumstats"])

    def cvs(rng, i):
        X, e, lam, al = gen(rng, i)
        n, p = X.shape
        yb = (e > np.median(e)).astype(float)
        yb = np.where(rng.random(n) < 0.2, 1 - yb, yb)
        k = int(rng.integers(2, 5))
        for lab, kw in (("", {}), (" stratified", dict(categorical=True)), (" random", dict(randomize=True, random_state=np.random.default_rng(i))), (" stratified random", dict(categorical=True, randomize=True))):
            fs = ut.kfold_indices(n, k, yb, **kw)
            yield "folds%s: validation sets partition the observations" % lab, np.sort(np.concatenate([v for _, v in fs])), np.arange(n)
            yield "folds%s: each fit set is the complement" % lab, bool(all(np.array_equal(np.sort(np.concatenate([f, v])), np.arange(n)) for f, v in fs)), True
            yield "folds%s: sizes" % lab, bool(max(len(v) for _, v in fs) - min(len(v) for _, v in fs) <= (2 if "strat" in lab else 1)), True
        fs = ut.kfold_indices(n, k, yb, categorical=True)
        Xf, yf, Xt, yt = ut.crossval_mats(X, yb, n, k, categorical=True)
        for q, (f, v) in enumerate(fs):
            yield "fold matrices", (Xf[q], yf[q], Xt[q], yt[q]), (X[f], yb[f], X[v], yb[v])
        lams = np.array([0.3, 0.1, 0.02])
        fv = rng.random((3, k))
        s, lm = ut.process_cv(fv, lams)
        yield "cross-validation summary", s.to_numpy(), np.c_[fv.mean(1), fv.std(1, ddof=1) / np.sqrt(k)]
        yield "selected penalty", lm, lams[np.argmin(fv.mean(1))]
        o = dict(atol=3e-6, inputs=dict(i=i, alpha=al, cv=k))
        # Gaussian
        m = gl.GLMEN(X=X, y=e, family="gaussian")
        m.fit_cv(cv=k, alpha=al, lambdas=lams, dtol=1e-14, n_iters=20000)
        gfs = ut.kfold_indices(n, k, e)
        for j, lm in enumerate(lams):
            yield "cv_glmnet: optimality of the refit", viol(X, (e - e.mean() - X @ m.bfits[j]) / n, m.bfits[j], lm, al), 0.0, o
            for q, (f, v) in enumerate(gfs):
                b = m.beta_path[j, q]
                yield "cv_glmnet: optimality of a fold", viol(X[f], (e[f] - e[f].mean() - X[f] @ b) / len(f), b, lm, al), 0.0, o
                ms = float(np.mean((e[v] - e[v].mean() - X[v] @ b) ** 2))
                pn = float(pen(b, lm, al))
                yield "cv_glmnet: held-out error, penalty and objective", m.f_path[j, q], np.array([ms, pn, ms / 2 + pn]), dict(rtol=1e-9)
        j = int(np.argmin(m.f_path[:, :, 0].mean(1)))
        yield "GLMEN.fit_cv: selection", (m.lmin_idx, m.lambda_min, m.beta), (j, lams[j], m.bfits[j])
        yield "GLMEN.fit_cv: nonzero coefficients", m.n_nonzero, (m.bfits != 0).sum(1)
        # binomial
        m = gl.GLMEN(X=X, y=yb, family="binomial")
        with quiet():
            m.fit_cv(cv=k, alpha=al, lambdas=lams, btol=1e-20, dtol=1e-20, n_iters=5000)
        for j, lm in enumerate(lams):
            yield "cv_binom_glmnet: optimality of the refit", viol(X, (yb - sigm(X @ m.bfits[j] + m.b0[j])) / n, m.bfits[j], lm, al), 0.0, o
            for q, (f, v) in enumerate(fs):
                b, b0 = m.beta_path[j, q], m.b0_path[j, q]
                yield "cv_binom_glmnet: optimality of a fold", viol(X[f], (yb[f] - sigm(X[f] @ b + b0)) / len(f), b, lm, al), 0.0, o
                yield "cv_binom_glmnet: held-out deviance, penalty and objective", m.f_path[j, q], np.array(be.binom_eval(yb[v], X[v] @ b + b0, b, al, lm)), dict(rtol=1e-9)
        Xr = X * rng.uniform(0.5, 2, p) + rng.normal(size=p)
        with quiet():
            B, fv, _ = b2.binom_glmnet_cv(Xr, yb, al, lams, cv=k, cd_kws=dict(dtol=1e-20, ftol=1e-14, n_iters=1000, max_iters=1000))
        for q, (f, v) in enumerate(fs):
            mu_, sd_ = Xr[f].mean(0), Xr[f].std(0)
            Zf, Zv = (Xr[f] - mu_) / sd_, (Xr[v] - mu_) / sd_
            for j, lm in enumerate(lams):
                b = B[0, q, j]
                yield "binom_glmnet_cv: optimality of a fold", viol(Zf, (yb[f] - sigm(Zf @ b[1:] + b[0])) / len(f), b[1:], lm, al), 0.0, o
                hv = float(np.mean(b2.binomial_deviance(yb[v], sigm(Zv @ b[1:] + b[0]), np.ones(len(v))))) / 2
                yield "binom_glmnet_cv: held-out loss and penalty", fv[0, j, q], np.array([hv, float(pen(b[1:], lm, al))]), dict(rtol=1e-8)
    ck.concrete("cross-validation", cvs, n=5, functions=[P + "eln_utils.py::" + f for f in ("kfold_indices", "crossval_mats", "process_cv")] + [P + "gaussian_eln.py::cv_glmnet", P + "binomial_eln.py::cv_binom_glmnet", P + "binom_eln2.py::binom_glmnet_cv", P + "glmen.py::GLMEN.fit_cv"])
