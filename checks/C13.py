"""C13 robust M-estimators: psi = rho', phi = psi', weight = psi/x, Gaussian expectations, estimating equations"""
import importlib
import math
import numpy as np
import pandas as pd
import scipy.integrate
import scipy.optimize
import scipy.stats as st
from vf.core import D, jac, hess
from vf.sym import F

FN = "pystatsm/pyrobust/m_estimators.py::"


def run(ck):
    em = importlib.import_module("pystatsm.pyrobust.m_estimators")
    rl = importlib.import_module("pystatsm.pyrobust.rls")
    dm = importlib.import_module("pystatsm.pyrobust.dispersion_estimators")
    X4 = ((4,), -6.0, 6.0, -40.0, 40.0)
    XI, XO = (lambda s: (lambda r: r.uniform(0.02, 0.95, 4) * r.choice([-1, 1], 4) * s)), (lambda s: (lambda r: r.uniform(1.05, 9, 4) * r.choice([-1, 1], 4) * s))
    spec = dict(Huber=(lambda x, c: np.where(np.abs(x) <= c, x ** 2 / 2, c * np.abs(x) - c * c / 2),
                       lambda c: 1.0, 0.5, 3.0),
                Bisquare=(lambda x, c: np.where(np.abs(x) <= c, 1 - (1 - (x / c) ** 2) ** 3, 1.0 + 0 * x),
                          lambda c: c * c / 6, 1.0, 8.0))
    for nm, (rho, norm, clo, chi) in spec.items():
        K = getattr(em, nm)
        fns = [FN + nm + "." + f for f in ("__init__", "rho", "psi", "phi", "weights", "rho_norm")] + [FN + "MEstimator.chi"]

        def body(c, x, k, call):
            m = K(k) if call == "init" else K(2.0)
            a = () if call == "init" else (k,)
            c.eq("rho is the documented loss", lambda: m.rho(x, *a), lambda: rho(x, k))
            c.eq("psi = rho' (times the reported normalisation)", lambda: m.psi(x, *a), lambda: D(m.rho(x, *a), x) * norm(k))
            c.eq("reported normalisation", lambda: m.rho_norm(*a), lambda: norm(k))
            c.eq("phi = psi'", lambda: m.phi(x, *a), lambda: D(m.psi(x, *a), x))
            c.eq("weight = psi(x)/x", lambda: m.weights(x, *a) * x, lambda: m.psi(x, *a))
            c.eq("rho is even", lambda: m.rho(-x, *a), lambda: m.rho(x, *a))
            c.eq("psi is odd", lambda: m.psi(-x, *a), lambda: -m.psi(x, *a))
            c.eq("phi and weights are even", lambda: (m.phi(-x, *a), m.weights(-x, *a)), lambda: (m.phi(x, *a), m.weights(x, *a)))
            c.eq("rho(0) = 0", lambda: m.rho(0 * x, *a), lambda: 0 * x)
            c.near("rho is non-negative", lambda: bool(np.all(m.rho(x, *a) >= 0)), True)
            c.near("rho is non-decreasing in |x|", lambda: bool(np.all(np.diff(m.rho(np.sort(np.abs(x)), *a)) >= 0)), True)
            for d in (0, 1, 2):
                c.eq("chi of order %d" % d, lambda: m.chi(x, d, *a), lambda: D(rho(x, k), x, d) if d else rho(x, k))
        for call in ("init", "arg"):
            kd = (None, clo, chi, 0.05, 30.0)
            ck.contract("%s loss (%s)" % (nm, call), dict(x=X4, k=kd), lambda c, x, k: body(c, x, k, call), n=4, functions=fns)
            ck.contract("%s loss, central (%s)" % (nm, call), dict(x=((4,), -0.4, 0.4, -0.9, 0.9), k=(None, 1.0, chi)), lambda c, x, k: body(c, x, k, call), n=2)
            ck.contract("%s loss, tails (%s)" % (nm, call), dict(x=((4,), 8.5, 20.0, 8.5, 200.0), k=(None, clo, chi)), lambda c, x, k: body(c, x, k, call), n=2)

    def hub(c, k):
        for m, a, lab in ((em.Huber(k), (), "init"), (em.Huber(2.0), (k,), "arg")):
            Ph, ph = F.ndtr(k), np.exp(-k * k / 2) / np.sqrt(2 * F.pi)
            c.eq("Huber E rho (%s)" % lab, lambda: m.E_rho(*a), lambda: (Ph - 0.5 - k * ph) + 2 * (k * ph - k * k / 2 * (1 - Ph)))
            c.eq("Huber E psi (%s)" % lab, lambda: m.E_psi(*a), lambda: 0 * k)
            c.eq("Huber E psi^2 (%s)" % lab, lambda: m.E_psi2(*a), lambda: 2 * (Ph - 0.5 - k * ph) + 2 * k * k * (1 - Ph))
            c.eq("Huber E phi (%s)" % lab, lambda: m.E_phi(*a), lambda: 2 * Ph - 1)
    ck.contract("Huber Gaussian expectations", dict(k=(None, 0.3, 3.0, 0.01, 6.0)), hub, n=3, functions=[FN + "Huber." + f for f in ("E_rho", "E_psi", "E_psi2", "E_phi")])

    def ev(rng, i):
        nm = ("Huber", "Bisquare")[i % 2]
        k = float(rng.uniform(0.4, 6))
        K = getattr(em, nm)
        for m, a in ((K(k), ()), (K(), (k,))):
            for lab, E, f in (("rho", m.E_rho, lambda x: m.rho(x, *a)), ("psi", m.E_psi, lambda x: m.psi(x, *a)), ("phi", m.E_phi, lambda x: m.phi(x, *a)), ("psi^2", m.E_psi2, lambda x: m.psi(x, *a) ** 2)):
                I = sum(scipy.integrate.quad(lambda x: float(np.squeeze(f(x))) * math.exp(-x * x / 2) / math.sqrt(2 * math.pi), u, v, epsabs=1e-12)[0] for u, v in ((-40, -k), (-k, 0), (0, k), (k, 40)))
                yield "%s E %s is the Gaussian integral of that function" % (nm, lab), float(np.squeeze(E(*a))), I, dict(rtol=1e-5, atol=1e-6, inputs=dict(c=k))
        m = K(k)
        z = rng.integers(-8, 9, size=9)
        for f in ("rho", "psi", "phi", "weights"):
            yield "%s.%s of integer residuals" % (nm, f), getattr(m, f)(z), getattr(m, f)(z.astype(float)), dict(inputs=dict(x=z.tolist(), c=k))
            yield "%s.%s keeps its argument" % (nm, f), (lambda q: (getattr(m, f)(q), q)[1])(z * 0.7), z * 0.7
            yield "%s.%s of a scalar" % (nm, f), float(np.squeeze(getattr(m, f)(0.3))), float(getattr(m, f)(np.array([0.3]))[0])
    ck.concrete("Gaussian expectations of the reported functions", ev, n=8, functions=[FN + "MEstimator." + x for x in ("E_rho", "E_psi", "E_phi", "E_psi2", "_normal_ev")])

    # regression objective
    def reg(c, X, y, b, ls, a, k):
        m = rl.RobustLM.__new__(rl.RobustLM)
        m.X, m.y, m.n_obs, m.n_var, m.f, m.a = X, y, X.shape[0], X.shape[1], em.Huber(k), a
        th = np.concatenate([b, np.reshape(ls, (1,))])
        r = y - X.dot(b)
        s = np.exp(ls)
        c.eq("objective", lambda: m.rho(th), lambda: np.sum(s * spec["Huber"][0](r / s, k) + s * a))
        c.eq("gradient", lambda: m.grad(th), lambda: jac(m.rho(th), th))
        c.eq("Hessian", lambda: m.hessian(th), lambda: hess(m.rho(th), th))
        c.eq("objective, explicit a", lambda: m.rho(th, a * 2), lambda: np.sum(s * spec["Huber"][0](r / s, k) + 2 * s * a))
        c.eq("gradient, explicit a", lambda: m.grad(th, a * 2), lambda: jac(m.rho(th, a * 2), th))
        c.eq("Hessian, explicit a", lambda: m.hessian(th, a * 2), lambda: hess(m.rho(th, a * 2), th))
    for nn, p in ((4, 2), (5, 1), (4, 3)):
        ck.contract("robust regression objective %dx%d" % (nn, p), dict(X=((nn, p), -1.0, 1.0), y=((nn,), -3.0, 3.0), b=((p,), -1.0, 1.0), ls=(None, -0.7, 0.7), a=(None, 0.2, 1.0), k=(None, 0.7, 2.0)), reg, n=3, flips=4,
                    functions=["pystatsm/pyrobust/rls.py::RobustLM." + f for f in ("rho", "grad", "hessian")])

    def fit(rng, i):
        n = int(rng.integers(25, 60))
        df = pd.DataFrame(rng.normal(size=(n, 2)), columns=["a", "b"])
        df["y"] = 1 + df.a - 0.5 * df.b + rng.standard_t(2, n) * float(rng.uniform(0.3, 3))
        k = (1.345, float(rng.uniform(1.3, 2.5)))[i % 2]
        m = rl.RobustLM("y~1+a+b", df, c=k)
        X, y = np.c_[np.ones(n), df.a, df.b], df.y.to_numpy()
        yield "RobustLM tuning constant", m.f.c, k
        hub = lambda u: np.clip(u, -k, k)
        m.fit()
        u = (y - X @ m.beta) / m.scale
        yield "RobustLM.fit solves the estimating equation", X.T @ hub(u) / n, np.zeros(3), dict(atol=2e-5)
        h = np.where(np.abs(u) <= k, u * u / 2, k * np.abs(u) - k * k / 2)
        yield "RobustLM.fit solves the scale equation", float(np.mean(h - hub(u) * u + 0.5)), 0.0, dict(atol=2e-5)
        yield "RobustLM residuals", m.resids, y - X @ m.beta
        m._optimize()
        th, hist = m.irwls(n_iters=500)
        s = math.exp(th[-1])
        r = y - X @ th[:-1]
        if len(hist) < 498:     # converged
            yield "RobustLM.irwls solves the estimating equation", X.T @ hub(r / dm.mad(r)) / n, np.zeros(3), dict(atol=1e-4)
        # M-estimate of scale and S-estimator
        B = em.Bisquare(1.548)
        sc = B.m_estimate_scale(r, n_iters=2000)
        yield "M-estimate of scale solves mean rho(r/s) = bd", float(np.mean(B.rho(r / sc))), 0.5, dict(atol=1e-6)
        sc = B.m_estimate_scale(r, bd=0.3, scale=1.7, n_iters=2000)
        yield "M-estimate of scale solves mean rho(r/s) = bd (other breakdown)", float(np.mean(B.rho(r / sc))), 0.3, dict(atol=1e-6)
        S = rl.RobustSLM("y~1+a+b", df)
        s_, b_ = S.fit(n_iters=20)
        r2, b2, s2 = S.f.irls_step(X, y, b_, s_, n_iters=3000, tol=0.0)
        rr = y - X @ b2
        yield "S-estimator scale equation", float(np.mean(S.f.rho(rr / s2))), 0.5, dict(atol=1e-5)
        yield "S-estimator estimating equation", X.T @ S.f.psi(rr / s2) / n, np.zeros(3), dict(atol=1e-4)
        yield "S-estimator residuals", r2, rr
    ck.concrete("robust fits", fit, n=8, functions=["pystatsm/pyrobust/rls.py::RobustLM." + f for f in ("__init__", "fit", "irwls", "_optimize")] + ["pystatsm/pyrobust/rls.py::RobustSLM.fit", FN + "MEstimator.irls_step", FN + "MEstimator.m_estimate_scale"])
