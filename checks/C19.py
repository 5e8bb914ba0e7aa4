"""C19 four-parameter densities: derivative chains to order four, density/distribution/quantile agreement"""
import ast
import importlib
import itertools
import math
import os
import types
import numpy as np
import scipy.integrate
import scipy.special
from vf.core import D
from vf.sym import F

P = "pystatsm/misc/"
SQ = (2.0 * math.pi) ** -0.5


def combos(n, k):
    return list(itertools.combinations_with_replacement(range(n), k))


def extract(repo, rel):
    """functions and top-level constants of a module whose trailing script cannot be imported; drops everything else"""
    src = open("%s/%s" % (repo, rel)).read()
    t = ast.parse(src)
    body = []
    for n in t.body:        # up to the first statement of the trailing script
        if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            break
        body.append(n)
    keep = [n for n in body if isinstance(n, ast.FunctionDef)]
    for n in body:
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            nm = n.module if isinstance(n, ast.ImportFrom) else n.names[0].name
            if nm.split(".")[0] in ("numpy", "scipy"):
                keep.append(n)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            keep.append(n)
    keep.sort(key=lambda n: n.lineno)
    m = types.ModuleType("pystatsm._x_" + rel.split("/")[-1][:-3])
    exec(compile(ast.Module(keep, []), rel, "exec"), m.__dict__)
    return m


def run(ck):
    s1 = importlib.import_module("pystatsm.misc.shash1")
    sr = importlib.import_module("pystatsm.misc.shashr")
    sa = importlib.import_module("pystatsm.misc.sash")
    sk = importlib.import_module("pystatsm.misc.skewnorm_dist")
    sd = extract(os.environ.get("VF_REPO", "/repo"), "pystatsm/misc/sinharcsinh_dist.py")
    import sys
    sys.modules[sd.__name__] = sd
    Y, M, SG, V, T = ((1,), -2.0, 2.0, -6.0, 6.0), (None, -1.0, 1.0), (None, 0.5, 2.0, 0.2, 5.0), (None, -0.8, 0.8), (None, 0.5, 1.5, 0.3, 2.5)
    L = (None, -0.6, 0.6)
    dens = lambda y, m, s, v, t: (lambda w: t * np.cosh(w) / (s * np.sqrt(2 * F.pi) * np.sqrt(1 + ((y - m) / s) ** 2)) * np.exp(-np.sinh(w) ** 2 / 2))(t * np.arcsinh((y - m) / s) - v)

    # the density itself, distribution function, quantile function
    for nm, mod, log in (("shash1", s1, False), ("shashr", sr, True), ("sash", sa, False), ("sinharcsinh_dist", sd, False)):
        nat = (lambda s, t: (np.exp(s), np.exp(t))) if log else (lambda s, t: (s, t))
        dm = dict(y=Y, m=M, s=L if log else SG, v=V, t=L if log else T, p=((1,), 0.05, 0.95, 1e-4, 1 - 1e-4))
        if nm in ("shash1", "shashr"):
            pdf, cdf, qf, lp = mod.pdf, mod.cdf, mod.inverse_cdf, (lambda y, m, s, v, t: mod.logpdf(y, (m, s, t, v)))
            names = ("pdf", "cdf", "inverse_cdf", "logpdf")
        else:
            pdf, cdf, qf, lp = mod._pdf, mod._cdf, mod._qtf, mod._logpdf
            names = ("_pdf", "_cdf", "_qtf", "_logpdf")

        def body(c, y, m, s, v, t, p):
            S, U = nat(s, t)
            c.eq("density", lambda: pdf(y, m, s, v, t), lambda: dens(y, m, S, v, U))
            c.eq("log-density is the logarithm of the density", lambda: np.exp(lp(y, m, s, v, t)), lambda: dens(y, m, S, v, U))
            c.eq("density = d cdf/dy", lambda: pdf(y, m, s, v, t), lambda: D(cdf(y, m, s, v, t), y))
            c.eq("cdf", lambda: cdf(y, m, s, v, t), lambda: F.ndtr(np.sinh(U * np.arcsinh((y - m) / S) - v)))
            c.eq("quantile function", lambda: qf(p, m, s, v, t), lambda: m + S * np.sinh((v + np.arcsinh(F.ndtri(p))) / U))
            c.near("cdf inverts the quantile function", lambda: cdf(qf(p, m, s, v, t), m, s, v, t), lambda: p, rtol=1e-8)
            c.near("quantile function inverts the cdf", lambda: qf(cdf(y, m, s, v, t), m, s, v, t) if 1e-9 < float(np.ravel(cdf(y, m, s, v, t))[0]) < 1 - 1e-9 else y, lambda: y, rtol=1e-5, atol=1e-5)
        ck.contract("%s density, cdf, quantile" % nm, dm, body, n=3, functions=[P + nm + ".py::" + f for f in names])

    # derivative chains
    def chain(name, fn, order, dom, base, fns, n=2):
        """fn(k, y, pars) -> reported derivative array of order k; base(y, pars) the log-density"""
        def body(c, y, **pars):
            ps = [pars[k] for k in order]
            for k in range(1, 5):
                cs, pc = combos(len(order), k), combos(len(order), k - 1)
                got = [None]

                def g(k=k, got=got):
                    got[0] = fn(k, y, ps)
                    return got[0]

                def w(k=k, cs=cs, pc=pc):
                    out = []
                    prev = fn(k - 1, y, ps) if k > 1 else base(y, ps)
                    for t in cs:
                        e = prev[..., pc.index(t[:-1])] if k > 1 else prev
                        out.append(D(e, ps[t[-1]]))
                    return np.stack(out, -1) if not c.sym else np.concatenate([np.reshape(o, o.shape + (1,)) for o in out], -1)
                c.eq("order %d derivatives = derivative of the reported order %d" % (k, k - 1), g, w, rtol=1e-5, atol=1e-7)
        ck.contract(name, dict(y=((1,), -2.0, 2.0), **dom), body, n=n, functions=fns, rtol=1e-5, flips=0)

    chain("shash1 derivatives", lambda k, y, p: s1.logpdf(y, tuple(p), derivs=k)[k], "mstv", dict(m=M, s=SG, t=T, v=V), lambda y, p: s1.logpdf(y, tuple(p)), [P + "shash_lpdf%d.py::_logpdf%d" % (k, k) for k in (1, 2, 3, 4)] + [P + "shash1.py::logpdf"])
    chain("shashr derivatives", lambda k, y, p: sr.logpdf(y, tuple(p), derivs=k)[k], "mstv", dict(m=M, s=L, t=L, v=V), lambda y, p: sr.logpdf(y, tuple(p)), [P + "shashr_lpdf%d.py::_logpdf%d" % (k, k) for k in (1, 2, 3, 4)] + [P + "shashr.py::logpdf"])
    SF = [None, sa.SASH.d1loglike, sa.SASH.d2loglike, sa.SASH.d3loglike, sa.SASH.d4loglike]
    chain("SASH derivatives", lambda k, y, p: SF[k](y, *p), "msvt", dict(m=M, s=SG, v=V, t=T), lambda y, p: sa.SASH.loglike(y, *p), [P + "sash.py::_d%dlogpdf" % k for k in (1, 2, 3, 4)] + [P + "sash.py::SASH"])
    NF_ = [None, sk._d1logpdf, sk._d2logpdf, sk._d3logpdf, sk._d4logpdf]
    chain("skew-normal derivatives", lambda k, y, p: NF_[k](y, *p), "msv", dict(m=M, s=SG, v=(None, -1.5, 1.5)), lambda y, p: sk._logpdf(y, *p), [P + "skewnorm_dist.py::_d%dlogpdf" % k for k in (1, 2, 3, 4)])

    # every lower-order output returned alongside
    def lower(c, y, m, s, t, v, ls, lt):
        for nm, mod, p in (("shash1", s1, (m, s, t, v)), ("shashr", sr, (m, ls, lt, v))):
            base = [mod.logpdf(y, p, derivs=0)] + [None] * 4
            for k in (1, 2, 3):
                for j in range(k + 1):
                    c.eq("%s: order %d part of order %d call" % (nm, j, k + 1), lambda: mod.logpdf(y, p, derivs=k + 1)[j], lambda: mod.logpdf(y, p, derivs=j)[j] if j else base[0])
            c.eq("%s: order 0 part of order 1 call" % nm, lambda: mod.logpdf(y, p, derivs=1)[0], lambda: base[0])
            c.near("%s: parameters by name" % nm, lambda: mod.logpdf(y, m=p[0], s=p[1], t=p[2], v=p[3]), lambda: base[0])
    ck.contract("lower orders agree across modules", dict(y=((1,), -2.0, 2.0), m=M, s=SG, t=T, v=V, ls=L, lt=L), lower, n=2)

    def skn(c, y, m, s, v):
        z = (y - m) / s
        pdf = 2 / s * F.ndtr(v * z) * np.exp(-z * z / 2) / np.sqrt(2 * F.pi)
        c.eq("skew-normal log-density", lambda: np.exp(sk._logpdf(y, m, s, v)), lambda: pdf)
        for nm, k in (("loglike", 0), ("d1loglike", 1), ("d2loglike", 2), ("d3loglike", 3), ("d4loglike", 4)):
            c.near("SkewNorm.%s is the module's function" % nm, lambda: getattr(sk.SkewNorm, nm)(y, m, s, v, None), lambda: (sk._logpdf if k == 0 else NF_[k])(y, m, s, v))
    ck.contract("skew-normal density", dict(y=Y, m=M, s=SG, v=(None, -2.0, 2.0)), skn, n=3, functions=[P + "skewnorm_dist.py::_logpdf", P + "skewnorm_dist.py::SkewNorm"])

    # elementwise derivative functions of sinharcsinh_dist
    PN = dict(m="mu", s="sigma", v="nu", t="tau")

    def elem(c, y, m, s, v, t):
        ps = dict(m=m, s=s, v=v, t=t)
        ll = lambda: sd._logpdf(y, m, s, v, t)
        for a in "msvt":
            c.eq("dL_d" + PN[a], lambda: getattr(sd, "_dL_d" + PN[a])(y, m, s, v, t), lambda: D(ll(), ps[a]))
            for b in "msvt":
                f = getattr(sd, "_d2L_d%s2" % PN[a] if a == b else "_d2L_d%s_d%s" % (PN[a], PN[b]), None)
                if f is not None:
                    c.eq("d2L_d%s_d%s" % (PN[a], PN[b]), lambda: f(y, m, s, v, t), lambda: D(D(ll(), ps[a]), ps[b]))
    ck.contract("sinharcsinh_dist elementwise derivatives", dict(y=((1,), -2.0, 2.0), m=M, s=SG, v=V, t=T), elem, n=2, flips=0,
                functions=[P + "sinharcsinh_dist.py::" + n for n in sorted(vars(sd)) if n.startswith("_d") and callable(getattr(sd, n))])

    # moments (bounded)
    def mom(rng, i):
        m, s, v, t = float(rng.uniform(-1, 1)), float(rng.uniform(0.5, 2)), float(rng.uniform(-0.8, 0.8)), float(rng.uniform(0.7, 1.6))
        for nm, mod, a in (("shash1", s1, (m, s, v, t)), ("shashr", sr, (m, math.log(s), v, math.log(t)))):
            q = lambda f: scipy.integrate.quad(lambda x: f(mod.inverse_cdf(scipy.special.ndtr(x), *a)) * math.exp(-x * x / 2) * SQ, -8.2, 8.2, epsabs=1e-11, limit=300)[0]
            mu = q(lambda x: x)
            va = q(lambda x: (x - mu) ** 2)
            sk_, ku = q(lambda x: (x - mu) ** 3) / va ** 1.5, q(lambda x: (x - mu) ** 4) / va ** 2
            o = dict(rtol=1e-4, atol=1e-5, inputs=dict(m=m, s=s, v=v, t=t))
            yield nm + ".mean", mod.mean(*a), mu, o
            yield nm + ".variance", mod.variance(*a), va, o
            yield nm + ".median", mod.median(*a), mod.inverse_cdf(0.5, *a), o
            yield nm + ".moments", list(mod.moments(*a)), [q(lambda x: x ** k) for k in (1, 2, 3, 4)], o
            yield nm + ".skew", mod.skew(*a), sk_, o
            yield nm + ".kurt", mod.kurt(*a), ku, o
            if hasattr(mod, "skewness"):
                yield nm + ".skewness", mod.skewness(*a), sk_, o
                yield nm + ".excess_kurtosis", mod.excess_kurtosis(*a), ku - 3, o
            r = mod.rvs(*a, size=7, rng=np.random.default_rng(3))
            yield nm + ".rvs", r, mod.inverse_cdf(np.random.default_rng(3).uniform(size=7), *a)
        f = lambda x: math.exp(float(sk._logpdf(x, m, s, v)))
        q = lambda g: scipy.integrate.quad(lambda x: g(x) * f(x), m - 12 * s, m + 12 * s, epsabs=1e-11, limit=300)[0]
        mu = q(lambda x: x)
        va = q(lambda x: (x - mu) ** 2)
        yield "skew-normal integrates to one", q(lambda x: 1.0), 1.0
        yield "skew-normal mean", sk._mean(m, s, v), mu, dict(rtol=1e-5)
        yield "skew-normal variance", sk._variance(m, s, v), va, dict(rtol=1e-5)
        yield "skew-normal skewness", sk._skewness(m, s, v), q(lambda x: (x - mu) ** 3) / va ** 1.5, dict(rtol=1e-4, atol=1e-6)
        x = rng.normal(size=(3, 2))
        for nm, fs, a in (("SASH", SF[1:], (m, s, v, t)), ("skew-normal", NF_[1:], (m, s, v))):
            for k, g in enumerate(fs, 1):
                r = g(x, *a)
                yield nm + " derivative arrays keep the observation axes", np.asarray(r.shape), np.array([3, 2, len(combos(len(a), k))])
                yield nm + " elementwise", r[2, 1], g(x[2, 1], *a)
        for nm, mod, a in (("shash1", s1, (m, s, t, v)), ("shashr", sr, (m, math.log(s), math.log(t), v))):
            for k in (1, 2, 3, 4):
                r = mod.logpdf(x, a, derivs=k)
                yield nm + " elementwise", r[k][2, 1], mod.logpdf(x[2, 1:2], a, derivs=k)[k][0]
    ck.concrete("moments and shapes", mom, n=4, functions=[P + "shash1.py::" + f for f in ("mean", "median", "variance", "skewness", "excess_kurtosis", "moments", "skew", "kurt", "rvs")] + [P + "shashr.py::" + f for f in ("mean", "median", "variance", "moments", "skew", "kurt", "rvs")] + [P + "skewnorm_dist.py::" + f for f in ("_mean", "_variance", "_skewness")])

    def gh(rng, i):
        th = np.array([rng.uniform(-1, 1), rng.uniform(0.5, 2), rng.uniform(-1, 1), rng.uniform(0.6, 1.5)])
        x = rng.normal(size=6)
        ge, he = sd._grad_elementwise(th, x), sd._hess_elementwise(th, x)
        d1, d2 = sa._d1logpdf(x, *th), sa._d2logpdf(x, *th)
        yield "elementwise gradient", np.asarray(ge).reshape(d1.shape) if np.shape(ge) == d1.shape else np.asarray(ge).T, d1
        H = np.zeros((6, 4, 4))
        for j, (a, b) in enumerate(combos(4, 2)):
            H[:, a, b] = H[:, b, a] = d2[:, j]
        yield "gradient", sd._grad(th, x), d1.sum(0)
        yield "Hessian", sd._hess(th, x), H.sum(0)
        yield "elementwise Hessian", np.asarray(he), H
    ck.concrete("sinharcsinh_dist totals", gh, n=4, functions=[P + "sinharcsinh_dist.py::" + f for f in ("_grad", "_hess", "_grad_elementwise", "_hess_elementwise")])
