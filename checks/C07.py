"""C07 response families: likelihood, deviance, variance, weights describe one distribution; derivatives exact"""
import importlib
import numpy as np
from vf.core import D
from vf.sym import F, S, has_sym
from vf import term as T
from fractions import Fraction

N = 2


def l2pi(x=1):
    return np.log(2 * F.pi * x)


def lbin(n, k):
    return F.gammaln(n + 1) - F.gammaln(k + 1) - F.gammaln(n - k + 1)


HALF = Fraction(1, 2)
# negative log-likelihood of the distribution with mean mu, prior weight w, dispersion phi (k for the negative binomial)
NLL = {
    "Gaussian": lambda y, m, w, p, k: HALF * (w * (y - m) ** 2 / p + np.log(2 * F.pi * p / w)),
    "InverseGaussian": lambda y, m, w, p, k: HALF * (w * (y - m) ** 2 / (p * y * m ** 2) + np.log(2 * F.pi * p * y ** 3 / w)),
    "Gamma": lambda y, m, w, p, k: -((w / p) * np.log(w / (p * m)) + (w / p - 1) * np.log(y) - w * y / (p * m) - F.gammaln(w / p)),
    "NegativeBinomial": lambda y, m, w, p, k: -w * (F.gammaln(y + 1 / k) - F.gammaln(1 / k) - F.gammaln(y + 1) + y * np.log(k * m / (1 + k * m)) - (1 / k) * np.log(1 + k * m)),
    "Poisson": lambda y, m, w, p, k: -(w / p) * (y * np.log(m) - m - F.gammaln(y + 1)),
    "Binomial": lambda y, m, w, p, k: -(w / p) * (y * np.log(m) + (1 - y) * np.log(1 - m)) - lbin(w, w * y),
}
VAR = {"Gaussian": lambda m, k: m * 0 + 1, "InverseGaussian": lambda m, k: m ** 3, "Gamma": lambda m, k: m ** 2, "NegativeBinomial": lambda m, k: m + k * m ** 2,
       "Poisson": lambda m, k: m, "Binomial": lambda m, k: m * (1 - m)}
POS = (N,), 0.3, 4.0, 0.02, 40.0
UN = (N,), 0.1, 0.9, 0.01, 0.99
REAL = (N,), -2.0, 3.0, -8.0, 8.0
YD = {"Gaussian": REAL, "InverseGaussian": POS, "Gamma": POS, "NegativeBinomial": POS, "Poisson": POS, "Binomial": UN}
MD = {"Gaussian": REAL, "InverseGaussian": POS, "Gamma": POS, "NegativeBinomial": POS, "Poisson": POS, "Binomial": UN}
LINKS = {
    "Gaussian": ["IdentityLink", "LogLink"], "InverseGaussian": [("PowerLink", -2), "LogLink", "ReciprocalLink"], "Gamma": ["ReciprocalLink", "LogLink", "IdentityLink"],
    "NegativeBinomial": ["LogLink", ("PowerLink", 0.5), "IdentityLink"], "Poisson": ["LogLink", ("PowerLink", 0.5), "IdentityLink"],
    "Binomial": ["LogitLink", "ProbitLink", "CloglogLink", "LogComplementLink", "IdentityLink"]}


def mk(fm, lm, fam, link):
    L = getattr(lm, link[0])(link[1]) if isinstance(link, tuple) else getattr(lm, link)()
    return getattr(fm, fam)(link=L)


class A2:
    """calling convention of pyglm2.families"""
    new = True

    def __init__(s, f, y, m, w, p, k):
        s.f, s.y, s.m, s.a = f, y, m, (w, p, k)

    def call(s, nm, y=None, mu=None, **kw):
        return getattr(s.f, nm)(s.y if y is None else y, s.m if mu is None else mu, *s.a, **kw)


class A1:
    new = False

    def __init__(s, f, y, m, w, p, k):
        s.f, s.y, s.m, (s.w, s.p, s.k) = f, y, m, (w, p, k)

    def call(s, nm, y=None, mu=None, **kw):
        a = dict(weights=s.w, phi=s.p, dispersion=s.k)
        import inspect
        ps = inspect.signature(getattr(s.f, nm)).parameters
        a = {x: v for x, v in a.items() if x in ps}
        return getattr(s.f, nm)(s.y if y is None else y, mu=s.m if mu is None else mu, **a, **kw)


def core_clauses(c, A, fam, y, mu, w, phi, k):
    f = A.f
    nll = NLL[fam]
    if fam == "Binomial":
        phi = 1.0
    c.eq("full log-likelihood is the distribution's", lambda: A.call("_full_loglike"), lambda: nll(y, mu, w, phi, k))
    c.eq("dropped constants do not depend on the mean", lambda: A.call("_loglike") - A.call("_loglike", mu=y), lambda: nll(y, mu, w, phi, k) - nll(y, y, w, phi, k))
    c.eq("total log-likelihood is the sum", lambda: A.call("loglike"), lambda: np.sum(A.call("_loglike")))
    c.eq("total full log-likelihood is the sum", lambda: A.call("full_loglike"), lambda: np.sum(nll(y, mu, w, phi, k)))
    c.eq("variance function", lambda: f.var_func(mu=mu, dispersion=k), lambda: VAR[fam](mu, k))
    for i, nm in enumerate(["dvar_dmu", "d2var_dmu2", "d3var_dmu3", "d4var_dmu4"], 1):
        c.eq(nm, lambda: getattr(f, nm)(mu, dispersion=k), lambda: D(VAR[fam](mu, k), mu, i))
    if A.new:
        for o in range(5):
            c.eq("var_derivs order %d" % o, lambda: f.var_derivs(mu, k, o), lambda: VAR[fam](mu, k) if o == 0 else tuple(VAR[fam](mu, k) if i == 0 else D(VAR[fam](mu, k), mu, i) for i in range(o + 1)))
        c.eq("variance", lambda: f.variance(mu, w, phi, k), lambda: phi * VAR[fam](mu, k) / w)
    else:
        c.eq("variance", lambda: f.variance(mu=mu, phi=phi, dispersion=k), lambda: phi * VAR[fam](mu, k))
    if fam == "NegativeBinomial":
        phi = 1.0
    dev = lambda: 2 * phi * (nll(y, mu, w, phi, k) - nll(y, y, w, phi, k))
    c.eq("deviance is twice the scaled log-likelihood gap", lambda: A.call("deviance"), dev)
    c.eq("deviance vanishes at a perfect fit", lambda: A.call("deviance", mu=y), lambda: y * 0)
    c.eq("deviance residual squared is the deviance", lambda: A.call("deviance_resid") ** 2, dev)
    c.holds("deviance residual has the sign of y - mu", lambda: np.all(np.sign(A.call("deviance_resid")) == np.sign(y - mu)))
    c.holds("deviance is non-negative", lambda: np.all(A.call("deviance") >= 0))
    c.eq("Pearson residual", lambda: A.call("pearson_resid"), lambda: np.sqrt(w / VAR[fam](mu, k)) * (y - mu))
    c.eq("Pearson chi-square", lambda: A.call("pearson_chi2"), lambda: np.sum(w * (y - mu) ** 2 / VAR[fam](mu, k)))


def tau_clauses(c, f, fam, y, mu, w, tau, new):
    s = np.exp(tau)
    nll = lambda: NLL[fam](y, mu, w, s, s)
    kw = dict(weights=w)
    c.eq("dtau is the derivative in log dispersion", lambda: f.dtau(tau, y, mu, **kw), lambda: D(np.sum(nll()), tau))
    c.eq("d2tau is the second derivative in log dispersion", lambda: f.d2tau(tau, y, mu, **kw), lambda: D(np.sum(nll()), tau, 2))
    c.eq("dtau per observation", lambda: f.dtau(tau, y, mu, reduce=False, **kw), lambda: D(nll(), tau))
    c.eq("d2tau per observation", lambda: f.d2tau(tau, y, mu, reduce=False, **kw), lambda: D(nll(), tau, 2))


def work_clauses(c, A, fam, y, mu, w, phi, k):
    f = A.f
    if fam == "NegativeBinomial":
        phi = 1.0
        A.a = (w, 1.0, k) if A.new else None
        A.p = 1.0
    V = lambda m=mu: VAR[fam](m, k)
    nll = lambda: NLL[fam](y, mu, w, phi, k)
    g1 = lambda: f._link.dlink(mu)
    if fam == "Binomial":
        nll = lambda: -(w / phi) * (y * np.log(mu) + (1 - y) * np.log(1 - mu))
    c.eq("family dlink is the link derivative", lambda: f.dlink(mu), lambda: D(f.link(mu), mu))
    c.eq("family d2link", lambda: f.d2link(mu), lambda: D(f.link(mu), mu, 2))
    c.eq("family d3link", lambda: f.d3link(mu), lambda: D(f.link(mu), mu, 3))
    c.eq("family d4link", lambda: f.d4link(mu), lambda: D(f.link(mu), mu, 4))
    c.eq("family dinv_link", lambda: f.dinv_link(f.link(mu)), lambda: 1 / D(f.link(mu), mu))
    gw = lambda: D(nll(), mu) / g1()
    hw = lambda: D(gw(), mu) / g1()
    c.eq("gw = d nll/d eta", lambda: A.call("gw"), gw)
    c.eq("hw = d2 nll/d eta2", lambda: A.call("hw"), hw)
    c.eq("get_ghw = (gw, hw)", lambda: A.call("get_ghw"), lambda: (gw(), hw()))
    c.eq("expected weight = w/(phi V g'^2)", lambda: A.call("get_ehw"), lambda: w / (phi * V() * g1() ** 2))
    a = lambda: hw() * phi * V() * g1() ** 2 / w
    kw = dict(dispersion=k)
    c.eq("a", lambda: f.get_a(y, mu, **kw), a)
    c.eq("da/dmu", lambda: f.da_dmu(y, mu, **kw), lambda: D(f.get_a(y, mu, **kw), mu))
    c.eq("d2a/dmu2", lambda: f.d2a_dmu2(y, mu, **kw), lambda: D(f.get_a(y, mu, **kw), mu, 2))
    c.eq("g = g'/a", lambda: f.get_g(y, mu, **kw), lambda: g1() / a())
    c.eq("working weight", lambda: f.get_w(y, mu, **kw), lambda: hw() * phi / w)
    c.eq("dw/deta", lambda: f.dw_deta(y, mu, **kw), lambda: D(f.get_w(y, mu, **kw), mu) / g1())
    c.eq("d2w/deta2", lambda: f.d2w_deta2(y, mu, **kw), lambda: D(D(f.get_w(y, mu, **kw), mu) / g1(), mu) / g1())


CANON = {"Gaussian": lambda m, k: m + 0, "InverseGaussian": lambda m, k: -HALF / m ** 2, "Gamma": lambda m, k: -1 / m, "NegativeBinomial": lambda m, k: np.log(k * m / (1 + k * m)),
         "Poisson": lambda m, k: np.log(m), "Binomial": lambda m, k: np.log(m / (1 - m))}
CUM = {"Gaussian": lambda m, k: m ** 2 / 2, "InverseGaussian": lambda m, k: -1 / m, "Gamma": lambda m, k: np.log(m), "NegativeBinomial": lambda m, k: np.log(1 + k * m) / k,
       "Poisson": lambda m, k: m + 0, "Binomial": lambda m, k: -np.log(1 - m)}


def canon_clauses(c, f, fam, mu, k):
    c.eq("canonical parameter", lambda: f.canonical_parameter(mu, dispersion=k), lambda: CANON[fam](mu, k))
    c.eq("mean_func inverts the canonical parameter", lambda: f.mean_func(f.canonical_parameter(mu, dispersion=k), dispersion=k), lambda: mu)
    c.eq("d2canonical", lambda: f.d2canonical(mu, dispersion=k), lambda: D(CANON[fam](mu, k), mu, 2))
    c.eq("cumulant at the canonical parameter", lambda: f.cumulant(f.canonical_parameter(mu, dispersion=k), dispersion=k), lambda: CUM[fam](mu, k))


def run(ck):
    for mn in ("pyglm2", "pyglm"):
        fm, lm = importlib.import_module("pystatsm.%s.families" % mn), importlib.import_module("pystatsm.%s.links" % mn)
        A_ = A2 if mn == "pyglm2" else A1
        pth = "pystatsm/%s/families.py::" % mn
        for fam in NLL:
            base = dict(y=YD[fam], mu=MD[fam], w=((N,), 0.5, 3.0), phi=(None, 0.4, 2.0), k=(None, 0.3, 1.5))
            f0 = getattr(fm, fam)()
            ck.contract("%s.%s" % (mn, fam), base, lambda c, y, mu, w, phi, k: core_clauses(c, A_(f0, y, mu, w, 1.0 if fam == "Binomial" else phi, k), fam, y, mu, w, phi, k), n=3,
                        requires=lambda y, mu, **kw: bool(np.all(np.abs(y - mu) > 1e-4 * (np.abs(y) + np.abs(mu)))),  # closer than rounding resolves
                        functions=[pth + fam + "." + x for x in ("_loglike", "_full_loglike", "var_func", "dvar_dmu", "d2var_dmu2", "d3var_dmu3", "d4var_dmu4", "deviance")] + ([pth + fam + ".var_derivs"] if mn == "pyglm2" else []) + [pth + "ExponentialFamily." + x for x in ("loglike", "full_loglike", "variance", "pearson_resid", "pearson_chi2", "deviance_resid")])
            # boundary responses
            if fam in ("Poisson", "NegativeBinomial", "Binomial"):
                for yv in ([0.0, 0.0], [0.0, 1.0], [1.0, 1.0], [1.0, 0.0], [0.5, 0.0]) if fam == "Binomial" else ([0.0, 0.0], [0.0, 2.0], [3.0, 0.0]):
                    yy = np.array(yv)

                    def bnd(c, mu, w, k):
                        A = A_(f0, yy, mu, w, 1.0, k)
                        sp = []
                        for i in range(2):
                            m = mu[i]
                            ylog = 0 if yv[i] == 0 else yv[i] * np.log(yv[i] / m)
                            if fam == "Poisson":
                                d = ylog - (yv[i] - m)
                            elif fam == "NegativeBinomial":
                                d = ylog - (yv[i] + 1 / k) * np.log((1 + k * yv[i]) / (1 + k * m))
                            else:
                                d = ylog + (0 if yv[i] == 1 else (1 - yv[i]) * np.log((1 - yv[i]) / (1 - m)))
                            sp.append(2 * w[i] * d)
                        want = np.array(sp, dtype=object)
                        c.eq("deviance at boundary responses %s" % yv, lambda: A.call("deviance"), lambda: want)
                    ck.contract("%s.%s boundary" % (mn, fam), dict(mu=MD[fam], w=((N,), 0.5, 3.0), k=(None, 0.3, 1.5)), bnd, n=2)
            if fam in ("Gaussian", "InverseGaussian", "Gamma", "NegativeBinomial"):
                ck.contract("%s.%s scale" % (mn, fam), dict(y=YD[fam], mu=MD[fam], w=((N,), 0.5, 3.0), tau=(None, -1.0, 1.0)),
                            lambda c, y, mu, w, tau: tau_clauses(c, f0, fam, y, mu, w, tau, mn == "pyglm2"), functions=[pth + fam + ".dtau", pth + fam + ".d2tau"], n=3)
            if fam in ("Gaussian", "InverseGaussian", "Gamma"):
                def lls(c, y, phi):
                    c.eq("dllscale", lambda: f0.dllscale(phi, y), lambda: D(f0.llscale(phi, y), phi))
                    c.eq("d2llscale", lambda: f0.d2llscale(phi, y), lambda: D(f0.llscale(phi, y), phi, 2))
                ck.contract("%s.%s llscale" % (mn, fam), dict(y=YD[fam], phi=(None, 0.4, 2.0)), lls, functions=[pth + fam + x for x in (".llscale", ".dllscale", ".d2llscale")], n=2)
            for link in LINKS[fam]:
                f = mk(fm, lm, fam, link)
                nm = link if isinstance(link, str) else "%s(%g)" % link
                b2 = dict(base, mu=POS) if fam == "Gaussian" and link != "IdentityLink" else base
                ck.contract("%s.%s/%s working quantities" % (mn, fam, nm), b2, lambda c, y, mu, w, phi, k: work_clauses(c, A_(f, y, mu, w, phi, k), fam, y, mu, w, phi, k), n=2,
                            functions=[pth + "ExponentialFamily." + x for x in ("gw", "hw", "get_ghw", "get_ehw", "get_a", "da_dmu", "d2a_dmu2", "get_g", "get_w", "dw_deta", "d2w_deta2", "dlink", "d2link", "d3link", "d4link")])
            if mn == "pyglm":
                ck.contract("pyglm.%s canonical form" % fam, dict(mu=MD[fam], k=(None, 0.3, 1.5)), lambda c, mu, k: canon_clauses(c, f0, fam, mu, k), n=3,
                            functions=[pth + fam + x for x in (".canonical_parameter", ".mean_func", ".cumulant", ".d2canonical")])
