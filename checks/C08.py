"""C08 generalised linear model: reported gradient/Hessian/score are the derivatives of the reported likelihood"""
import importlib
import numpy as np
from vf.core import D, jac, hess, substitute
from vf.sym import F, symvar, SArr
from checks.C07 import NLL, LINKS, mk

n, p = 3, 2
# design, coefficient and response ranges that keep every mean admissible
XP = ((n, p), 0.3, 0.9)
BP = ((p,), 0.2, 0.5)
Y = {"Gaussian": ((n,), -2.0, 3.0), "InverseGaussian": ((n,), 0.3, 4.0), "Gamma": ((n,), 0.3, 4.0), "NegativeBinomial": ((n,), 0.3, 6.0), "Poisson": ((n,), 0.3, 6.0), "Binomial": ((n,), 0.1, 0.9)}


def dom(fam, link):
    X, B = XP, BP
    if isinstance(link, str) and link in ("LogLink", "LogitLink", "ProbitLink", "CloglogLink"):
        X, B = ((n, p), -1.0, 1.0), ((p,), -0.9, 0.9)
    if link == "LogComplementLink":
        X, B = ((n, p), 0.3, 0.9), ((p,), -0.9, -0.2)
    return dict(X=X, beta=B, y=Y[fam], w=((n,), 0.5, 3.0))


def body(c, GLM, f, fam, scale, X, beta, y, w, tau=None):
    data = (X, y, w)
    params = np.concatenate([beta, np.array([tau], dtype=object if c.sym else float)]) if scale == "NR" else beta
    if c.sym:
        params = params.view(SArr)
    nb = fam == "NegativeBinomial"
    PH = symvar("PH__", 1.3) if c.sym else None
    eta = np.dot(X, beta)
    mu = f.inv_link(eta)

    def phi_k():
        if scale == "NR":
            return (1, np.exp(tau)) if nb else (np.exp(tau), 1)
        return (PH, 1) if scale == "M" and not nb else (1, 1)

    def q(e):
        # moment dispersion with the negative binomial is quasi-likelihood: the score is divided by phi
        return plug(e / PH if scale == "M" and nb else e)

    def plug(e):
        if scale != "M":
            return e
        V = f.var_func(mu=mu, dispersion=1.0)
        return substitute(e, [(PH, np.sum(w * (y - mu) ** 2 / V) / (n - p))])

    def nll():
        ph, k = phi_k()
        return NLL[fam](y, mu, w, ph, k)
    tot = lambda: np.sum(nll())
    a = (params, data, scale, f)
    c.eq("full log-likelihood is the distribution's", lambda: GLM._full_loglike(*a), lambda: plug(tot()))
    if scale != "M":
        c.eq("dropped constants are free of the parameters", lambda: jac_free(c, GLM._loglike(*a), GLM._full_loglike(*a), params), lambda: np.zeros(len(params)))
    c.eq("gradient", lambda: GLM._gradient(*a), lambda: q(jac(tot(), params)))
    c.eq("hessian", lambda: GLM._hessian(*a), lambda: q(hess(tot(), params)))
    c.eq("scores per observation", lambda: GLM._gradient_i(*a), lambda: q(jac(nll(), params)))
    c.eq("scores add up to the gradient", lambda: np.sum(GLM._gradient_i(*a), axis=0), lambda: q(jac(tot(), params)))


def jac_free(c, l, fl, params):
    """derivative of (reported - full) log-likelihood; concretely zero by contract"""
    if c.sym:
        return jac(l - fl, params)
    return np.zeros(len(params))


def fitted(GLM, fm, lm, fam, link, scale, wtd, rng):
    N = 40
    f = mk(fm, lm, fam, link)
    X = np.column_stack([np.ones(N), rng.normal(size=(N, 2)) * 0.3])
    b = np.array([0.4, 0.5, -0.3])
    if link in ("ReciprocalLink", "IdentityLink") or not isinstance(link, str):
        b = np.array([2.0, 0.3, -0.2]) if fam != "Binomial" else np.array([0.5, 0.1, -0.1])
    if link == "LogComplementLink":
        b = np.array([-1.5, 0.3, -0.2])
    mu = f.inv_link(X @ b)
    if fam == "Gaussian":
        y = mu + rng.normal(size=N)
    elif fam == "InverseGaussian":
        y = rng.wald(mu, 5.0)
    elif fam == "Gamma":
        y = rng.gamma(3.0, mu / 3.0)
    elif fam == "Poisson":
        y = rng.poisson(mu).astype(float)
    elif fam == "Binomial":
        y = rng.binomial(1, mu).astype(float)
    else:
        y = rng.negative_binomial(1.5, 1.5 / (1.5 + mu)).astype(float)
    w = rng.uniform(0.5, 2.0, N) if wtd else np.ones(N)
    m = GLM(X=X, y=y, family=f, scale_estimator=scale, weights=w)
    return m, X, y, w


def run(ck):
    gm = importlib.import_module("pystatsm.pyglm2.glm")
    fm = importlib.import_module("pystatsm.pyglm2.families")
    lm = importlib.import_module("pystatsm.pyglm2.links")
    GLM = gm.GLM
    fns = ["pystatsm/pyglm2/glm.py::GLM." + x for x in ("_unpack_params_data", "_loglike", "_full_loglike", "_gradient", "_gradient_i", "_hessian")]
    for fam in NLL:
        for link in LINKS[fam]:
            f = mk(fm, lm, fam, link)
            nm = link if isinstance(link, str) else "%s(%g)" % link
            for scale in ("fixed", "M", "NR"):
                if scale != "fixed" and fam in ("Poisson", "Binomial"):
                    continue
                d = dom(fam, link)
                if scale == "NR":
                    d["tau"] = (None, -0.8, 0.8)
                ck.contract("%s/%s/%s" % (fam, nm, scale), d, lambda c, **v: body(c, GLM, f, fam, scale, **v), n=1, functions=fns, flips=3, nconc=4)

    def methods(rng, i):
        fam = list(NLL)[i % 6]
        link = LINKS[fam][(i // 6) % len(LINKS[fam])]
        scale = "fixed" if fam in ("Poisson", "Binomial") else ("NR", "M")[(i // 18) % 2]
        m, X, y, w = fitted(GLM, fm, lm, fam, link, scale, (i // 12) % 2 == 1, rng)
        if not np.all(np.isfinite(m.params_init)):
            return
        t = m.params_init + 0.01
        nm = "%s/%s/%s" % (fam, link, scale)
        d = (X, y, w)
        yield "loglike method binds the model's data " + nm, m.loglike(t), GLM._loglike(t, d, m.scale_estimator, m.f)
        yield "full_loglike method " + nm, m.full_loglike(t), GLM._full_loglike(t, d, m.scale_estimator, m.f)
        yield "gradient method " + nm, m.gradient(t), GLM._gradient(t, d, m.scale_estimator, m.f)
        yield "gradient_i method " + nm, m.gradient_i(t), GLM._gradient_i(t, d, m.scale_estimator, m.f)
        yield "hessian method " + nm, m.hessian(t), GLM._hessian(t, d, m.scale_estimator, m.f)
    ck.concrete("bound methods", methods, n=36, functions=["pystatsm/pyglm2/glm.py::GLM." + x for x in ("loglike", "full_loglike", "gradient", "gradient_i", "hessian", "__init__", "get_start_values")])

    def fits(rng, i):
        fam = list(NLL)[i % 6]
        link = {"InverseGaussian": "LogLink", "Gamma": "LogLink"}.get(fam, LINKS[fam][0])
        scale = "fixed" if fam in ("Poisson", "Binomial") else ("NR", "M")[(i // 6) % 2]
        if fam == "NegativeBinomial":
            scale = "NR"
        m, X, y, w = fitted(GLM, fm, lm, fam, link, scale, (i // 6) % 2 == 1, rng)
        m.fit()
        s = m.scale_estimator
        nm = "%s/%s" % (fam, scale)
        g = m.gradient(m.params)
        g0 = m.gradient(m.params_init + 0.3)
        yield "fitted model is stationary " + nm, float(np.max(np.abs(g)) <= 1e-3 * max(1.0, np.max(np.abs(g0)))), 1.0
        H = m.hessian(m.params)
        yield "fitted model is a minimum " + nm, float(np.all(np.linalg.eigvalsh(H) > 0)), 1.0
        yield "parameter covariance is the inverse Hessian " + nm, m.params_cov, np.linalg.inv(H)
        yield "standard errors " + nm, m.params_se, np.sqrt(np.diag(np.linalg.inv(H)))
        yield "reported log-likelihood is the full log-likelihood at the fit " + nm, m.llf, GLM._full_loglike(m.params, (X, y, w), s, m.f)
        yield "reported chi2 " + nm, m.chi2, np.sum(w * (y - m.mu) ** 2 / m.f.var_func(mu=m.mu, dispersion=m.dispersion))
        yield "fitted mean " + nm, m.mu, m.f.inv_link(X @ m.beta)
        G = GLM._gradient_i(m.params, (X, y, w), s, m.f)
        V = m.params_cov @ (G.T @ G) @ m.params_cov
        yield "robust standard errors are the sandwich of the weighted scores " + nm, m.get_robust_res()["SE"].values, np.sqrt(np.diag(V))
    ck.concrete("fitted models", fits, n=12, functions=["pystatsm/pyglm2/glm.py::GLM." + x for x in ("fit", "_fit", "_optimize", "get_robust_res")])
