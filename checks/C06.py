"""C06 link functions: inverse pairs and exact derivative chains, for every link class in the three modules"""
import numpy as np
from vf.core import D
from vf.sym import F

UNIT = (3,), 0.02, 0.98, 1e-6, 1 - 1e-6
POS = (3,), 0.05, 6.0, 1e-4, 1e3
REAL = (3,), -3.0, 3.0, -8.0, 5.0
NEG = (3,), -4.0, -0.05, -12.0, -1e-3
POSE = (3,), 0.1, 5.0, 1e-3, 50.0

# class -> (mu domain, eta domain, specification of the link)
SPEC = {
    "IdentityLink": (REAL, REAL, lambda m: m + 0),
    "LogitLink": (UNIT, REAL, lambda m: np.log(m / (1 - m))),
    "ProbitLink": (UNIT, REAL, lambda m: F.ndtri(m)),
    "LogLink": (POS, REAL, lambda m: np.log(m)),
    "ReciprocalLink": (POS, POSE, lambda m: 1 / m),
    "CloglogLink": (UNIT, ((3,), -4.0, 1.5, -10.0, 2.5), lambda m: np.log(-np.log(1 - m))),
    "LogComplementLink": (UNIT, NEG, lambda m: np.log(1 - m)),
}


def chain(c, L, eta, mu, spec, nd):
    c.eq("link is the documented function", lambda: L.link(mu), lambda: spec(mu))
    c.eq("inv_link(link(mu)) = mu", lambda: L.inv_link(L.link(mu)), lambda: mu)
    c.eq("link(inv_link(eta)) = eta", lambda: L.link(L.inv_link(eta)), lambda: eta)
    c.eq("dinv_link = d inv_link/d eta", lambda: L.dinv_link(eta), lambda: D(L.inv_link(eta), eta))
    c.eq("d2inv_link = d2 inv_link/d eta2", lambda: L.d2inv_link(eta), lambda: D(L.inv_link(eta), eta, 2))
    for k, nm in enumerate(["dlink", "d2link", "d3link", "d4link"][:nd], 1):
        c.eq("%s = d%d link/d mu%d" % (nm, k, k), lambda: getattr(L, nm)(mu), lambda: D(L.link(mu), mu, k))


def run(ck):
    import importlib
    mods = {"pyglm2": importlib.import_module("pystatsm.pyglm2.links"), "pyglm": importlib.import_module("pystatsm.pyglm.links"),
            "pylmm": importlib.import_module("pystatsm.pylmm.links")}
    for mn, m in mods.items():
        nd = 1 if mn == "pylmm" else 4
        pth = "pystatsm/%s/links.py::" % mn
        fns = lambda cls: [pth + cls + "." + f for f in ["link", "inv_link", "dinv_link", "d2inv_link", "dlink", "d2link", "d3link", "d4link"][:4 + nd]]
        for cls, (md, ed, spec) in SPEC.items():
            L = getattr(m, cls)()
            ck.contract("%s.%s" % (mn, cls), dict(mu=md, eta=ed), lambda c, mu, eta: chain(c, L, eta, mu, spec, nd), functions=fns(cls), n=3)
        # power links: alpha symbolic (alpha != 0), alpha = 0, and integer alphas
        P = m.PowerLink

        def power(c, mu, eta, alpha):
            L = P(alpha)
            chain(c, L, eta, mu, lambda x: x ** alpha, nd)
        ck.contract("%s.PowerLink(alpha)" % mn, dict(mu=POS, eta=POSE, alpha=(None, 0.3, 2.5, -2.0, 3.0)), power, functions=fns("PowerLink"), n=4)
        for a in (-1.0, -2.0, 0.5, 2.0, 3.0):
            ck.contract("%s.PowerLink(%g)" % (mn, a), dict(mu=POS, eta=POSE), lambda c, mu, eta: chain(c, P(a), eta, mu, lambda x: x ** a, nd), n=2)
        ck.contract("%s.PowerLink(0)" % mn, dict(mu=POS, eta=REAL), lambda c, mu, eta: chain(c, P(0), eta, mu, lambda x: np.log(x), nd), n=2)

        def nb(c, mu, eta, k):
            L = m.NegativeBinomialLink(k)
            chain(c, L, eta, mu, lambda x: np.log(x / (x + 1 / k)), nd)
        ck.contract("%s.NegativeBinomialLink(k)" % mn, dict(mu=POS, eta=NEG, k=(None, 0.3, 2.0, 0.05, 5.0)), nb, functions=fns("NegativeBinomialLink"), n=3)
        ck.contract("%s.NegativeBinomialLink()" % mn, dict(mu=POS, eta=NEG), lambda c, mu, eta: chain(c, m.NegativeBinomialLink(), eta, mu, lambda x: np.log(x / (x + 1)), nd), n=2)
