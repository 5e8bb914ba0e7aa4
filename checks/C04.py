"""C04 parameter transforms: mutual inverses with exact first and second derivatives"""
import importlib
import numpy as np
from vf.core import D, jac, hess
from vf.sym import F, SArr

FN = "pystatsm/utilities/param_transforms.py::"
METH = ("_fwd", "_rvs", "_jac_fwd", "_jac_rvs", "_hess_fwd", "_hess_rvs")


def iv(n):
    """column-major strict/half index pairs"""
    return [(i, j) for j in range(n) for i in range(j, n)]


def rcov(n, s=None):
    def f(r):
        A = r.normal(size=(n, n + 2))
        S = A @ A.T / (n + 2) + 0.2 * np.eye(n)
        d = r.uniform(0.4, 2.0, size=n)
        S = S * d[:, None] * d
        return np.round(np.array([S[i, j] for i, j in iv(n)]), 5)
    return f


def rcorrv(n, diag=False):
    def f(r):
        A = r.normal(size=(n, n + 3))
        S = A @ A.T
        d = np.sqrt(np.diag(S))
        S = S / np.outer(d, d)
        return np.round(np.array([S[i, j] for i, j in iv(n) if i != j]), 5)
    return f


def rchol(n):
    def f(r):
        C = np.eye(n)
        v = rcorrv(n)(r)
        for (i, j), a in zip([p for p in iv(n) if p[0] != p[1]], v):
            C[i, j] = C[j, i] = a
        L = np.linalg.cholesky(C)
        return np.round(np.array([L[i, j] for i, j in iv(n) if i != j]), 5)
    return f


def with_diag(off, n, dlo, dhi):
    """half-vectorised: off-diagonal part from off(rng), diagonal uniform in (dlo, dhi)"""
    def f(r):
        o = iter(off(r))
        return np.array([round(float(r.uniform(dlo, dhi)), 5) if i == j else next(o) for i, j in iv(n)])
    return f


def law(c, t, x, y, order=2, pub=True):
    """inverse pair and derivative clauses of one transform: x in the domain, y in the range"""
    c.eq("rvs(fwd(x)) = x", lambda: t._rvs(t._fwd(x)), lambda: x)
    c.eq("fwd(rvs(y)) = y", lambda: t._fwd(t._rvs(y)), lambda: y)
    c.eq("Jacobian of the forward map", lambda: t._jac_fwd(x), lambda: jac(t._fwd(x), x))
    c.eq("Jacobian of the reverse map", lambda: t._jac_rvs(y), lambda: jac(t._rvs(y), y))
    if order > 1:
        c.eq("Hessian of the forward map", lambda: t._hess_fwd(x), lambda: hess(t._fwd(x), x))
        c.eq("Hessian of the reverse map", lambda: t._hess_rvs(y), lambda: hess(t._rvs(y), y))
    if pub:
        for m in METH if order > 1 else METH[:4]:
            a = x if m.endswith("fwd") else y
            c.eq("public %s is that map" % m[1:], lambda m=m, a=a: getattr(t, m[1:])(a), lambda m=m, a=a: getattr(t, m)(a))


def run(ck):
    pt = importlib.import_module("pystatsm.utilities.param_transforms")
    uc = importlib.import_module("pystatsm.utilities.unconstrained_chol")

    def fns(*cls):
        return [FN + k + "." + m for k in cls for m in METH]
    # elementwise transforms
    U3 = ((3,), -1.5, 1.5, -8.0, 8.0)
    for nm, dx, dy, dfn in (("LogTransform", ((3,), 0.2, 5.0, 1e-3, 50.0), U3, np.log), ("TanhTransform", ((3,), -0.9, 0.9, -0.99, 0.99), ((3,), -1.5, 1.5, -3.0, 3.0), np.arctanh), ("IdentityTransform", U3, U3, lambda v: v)):
        K = getattr(pt, nm)

        def el(c, x, y):
            t = K()
            law(c, t, x, y)
            c.eq("the map it is named for", lambda: t.fwd(x), lambda: dfn(x))
            for m in METH:
                a = x if m.endswith("fwd") else y
                k = {"f": 0, "r": 0, "j": 1, "h": 2}[m[1]]
                c.eq("scalar %s" % m[1:], lambda m=m, a=a: getattr(t, m[1:])(a[1]), lambda m=m, a=a, k=k: D(getattr(t, "_fwd" if m.endswith("fwd") else "_rvs")(a[1]), a[1], k) if k else getattr(t, m)(a)[1])
        ck.contract(nm, dict(x=dx, y=dy), el, n=3, functions=fns(nm) + [FN + "ParameterTransformBase._apply_method"])
    # ordered thresholds
    for q in (1, 2, 4, 6):
        ck.contract("OrderedTransform of length %d" % q, dict(x=lambda r: np.round(np.cumsum(r.uniform(0.2, 2, q)) - 2, 5), y=((q,), -1.5, 1.5, -5.0, 4.0)),
                    lambda c, x, y: (law(c, pt.OrderedTransform(), x, y),
                                     c.eq("first value and log gaps", lambda: pt.OrderedTransform().fwd(x), lambda: [x[0]] + [np.log(x[i + 1] - x[i]) for i in range(q - 1)]),
                                     c.near("reverse map is increasing", lambda: bool(np.all(np.diff(pt.OrderedTransform().rvs(y)) > 0)), True)),
                    n=2, functions=fns("OrderedTransform"))
    # covariance building blocks
    for n in (1, 2, 3, 4):
        m = n * (n - 1) // 2
        off = [k for k, (i, j) in enumerate(iv(n)) if i != j]
        dg = [k for k, (i, j) in enumerate(iv(n)) if i == j]
        pos = {p: k for k, p in enumerate(iv(n))}
        if n > 1:
            ck.contract("LogScale %d" % n, dict(x=with_diag(lambda r: r.uniform(-1, 1, m), n, 0.2, 3), y=((m + n,), -1.5, 1.5)),
                        lambda c, x, y: (law(c, pt.LogScale(n), x, y), c.eq("log of the diagonal only", lambda: pt.LogScale(n).fwd(x), lambda: [np.log(x[k]) if k in dg else x[k] for k in range(len(x))])),
                        n=2, functions=fns("LogScale"))
            ck.contract("CovCorr %d" % n, dict(x=rcov(n), y=with_diag(rcorrv(n), n, 0.2, 3)),
                        lambda c, x, y: (law(c, pt.CovCorr(n), x, y), c.eq("variances and correlations", lambda: pt.CovCorr(n).fwd(x), lambda: [x[k] if k in dg else x[k] / np.sqrt(x[pos[i, i]] * x[pos[j, j]]) for k, (i, j) in enumerate(iv(n))])),
                        n=2, functions=fns("CovCorr"))
        if n > 1:
            def cc(c, x, y):
                t = pt.CorrCholesky(n)
                law(c, t, x, y)

                def L():
                    R = np.array([[x[off.index(pos[max(i, j), min(i, j)])] if i != j else 1 for j in range(n)] for i in range(n)], dtype=object).view(SArr)
                    Lc = F.chol(R)
                    return [Lc[i, j] for i, j in iv(n) if i != j]
                c.eq("strict lower half of the Cholesky factor", lambda: t.fwd(x), L)

            def un(c, x, y):
                t = pt.UnconstrainedCholeskyCorr(n)
                law(c, t, x, y)
                for f in METH:
                    a = x if f.endswith("fwd") else y
                    c.eq("module function %s" % f[1:], lambda f=f, a=a: getattr(uc, f[1:])(a), lambda f=f, a=a: getattr(t, f)(a))
            ck.contract("CorrCholesky %d" % n, dict(x=rcorrv(n), y=rchol(n)), cc, n=2 if n < 4 else 1, functions=fns("CorrCholesky"), budget=400000 if n < 4 else 150000)
            ck.contract("UnconstrainedCholeskyCorr %d" % n, dict(x=rchol(n), y=((m,), -0.9, 0.9)), un, n=2,
                        functions=fns("UnconstrainedCholeskyCorr") + ["pystatsm/utilities/unconstrained_chol.py::" + f[1:] for f in METH])

            def mask(c, x, y, z):
                t = pt.TanhTransform()
                t.mat_size = n
                law(c, pt.OffDiagMask(t), x, y)
                s = pt.OffDiagMask(pt.UnconstrainedCholeskyCorr(n))
                c.eq("diagonal passes through unchanged", lambda: [s.fwd(z)[k] for k in dg] + [s.rvs(x)[k] for k in dg], lambda: [z[k] for k in dg] + [x[k] for k in dg])
            ck.contract("OffDiagMask %d" % n, dict(x=with_diag(lambda r: r.uniform(-0.9, 0.9, m), n, 0.2, 3), y=((m + n,), -1.5, 1.5), z=with_diag(rchol(n), n, 0.2, 3)), mask, n=2, functions=fns("OffDiagMask"))
        if n < 4:
            def cov(c, x, y):
                t = pt.CholeskyCov(n)
                law(c, t, x, y)
                c.near("reverse map is a covariance matrix", lambda: bool(np.all(np.linalg.eigvalsh(full(t.rvs(y), n)) > 0)), True)
            ck.contract("CholeskyCov %d" % n, dict(x=rcov(n), y=((m + n,), -0.9, 0.9)), cov, n=2 if n < 3 else 1, functions=fns("CholeskyCov", "ComposedTransform") + [FN + "_hess_chain_rule"], budget=300000 if n < 3 else 20000)
    # compositions and blocks
    O, LG, TH, ID = pt.OrderedTransform, pt.LogTransform, pt.TanhTransform, pt.IdentityTransform

    class Inv(pt.ParameterTransformBase):
        """the inverse of a transform, written from its own maps"""
        def __init__(self, t):
            for a in METH:
                b = a.replace("fwd", "@").replace("rvs", "fwd").replace("@", "rvs")
                setattr(self, a, getattr(t, b))
        _fwd = _rvs = _jac_fwd = _jac_rvs = _hess_fwd = _hess_rvs = None
    X = lambda q: (lambda r: np.round(np.cumsum(r.uniform(0.3, 1.2, q)) + 0.3, 5))
    comps = [("log", [LG()], X(3), ((3,), -1.0, 1.0)),
             ("log then inverse tanh", [LG(), Inv(TH())], X(3), ((3,), -0.7, 0.7)),
             ("ordered then inverse log then tanh inverse", [O(), Inv(TH())], X(3), ((3,), -0.7, 0.7)),
             ("inverse log, ordered, inverse tanh", [Inv(LG()), O(), Inv(TH())], X(3), ((3,), 0.1, 0.6)),
             ("identity, log, ordered, identity", [LG(), O(), ID(), Inv(TH())], X(3), ((3,), -0.6, 0.6)),
             ("blocks inside", [pt.CombinedTransform([LG(), O()], [1, 3]), pt.CombinedTransform([Inv(TH())], [(0, 3)])], X(4), ((4,), -0.6, 0.6))]
    for lab, ts, dx, dy in comps:
        ck.contract("composition: " + lab, dict(x=dx, y=dy), lambda c, x, y: law(c, pt.ComposedTransform(ts), x, y), n=2, functions=fns("ComposedTransform") + [FN + "_hess_chain_rule"])
    P6 = lambda r: np.round(np.cumsum(r.uniform(0.05, 0.14, 6)), 5)
    Y6 = ((6,), -0.9, 0.9)
    blocks = [("integers", [LG(), O()], [2, 4]), ("tuples with gaps", [LG(), TH()], [(1, 3), (4, 5)]), ("slices", [TH(), O()], [slice(0, 2), slice(2, 5)]),
              ("arrays", [O(), LG()], [np.array([0, 3]), np.array([3, 6])]), ("mixed", [O(), TH(), LG()], [3, (4, 5), slice(5, 6)]), ("numpy integers", [LG(), TH(), O()], [np.int64(1), np.int64(2), np.int64(3)]),
              ("composed block", [pt.ComposedTransform([LG(), O()]), TH()], [(1, 4), (4, 6)])]
    for lab, ts, ix in blocks:
        def bl(c, x, y):
            t = pt.CombinedTransform(ts, ix)
            law(c, t, x, y)

            def want(z, meth):
                out = list(z)
                pos = 0
                for k, (tr, o) in enumerate(zip(ts, ix)):
                    a, b = (pos, pos + int(o)) if isinstance(o, (int, np.integer)) else ((o.start, o.stop) if isinstance(o, slice) else (int(o[0]), int(o[1])))
                    out[a:b] = list(getattr(tr, meth)(z[a:b]))
                    pos = b
                return out
            c.eq("each block by its own map, the rest unchanged (forward)", lambda: t.fwd(x), lambda: want(x, "_fwd"))
            c.eq("each block by its own map, the rest unchanged (reverse)", lambda: t.rvs(y), lambda: want(y, "_rvs"))
        ck.contract("blocks: " + lab, dict(x=P6, y=Y6), bl, n=2, functions=fns("CombinedTransform") + [FN + "CombinedTransform._process_index_objects", FN + "CombinedTransform._apply_transform"])

    # run-time: stacked arguments, integer arguments, purity, larger sizes
    def stack(rng, i):
        n = 2 + i % 3
        t, dom, rg = [(pt.OrderedTransform(), lambda: np.cumsum(rng.uniform(0.2, 2, 4)), lambda: rng.normal(size=4)),
                      (pt.LogTransform(), lambda: rng.uniform(0.2, 3, 4), lambda: rng.normal(size=4)),
                      (pt.TanhTransform(), lambda: rng.uniform(-.9, .9, 4), lambda: rng.normal(size=4)),
                      (pt.CholeskyCov(n), lambda: rcov(n)(rng), lambda: rng.uniform(-.9, .9, n * (n + 1) // 2)),
                      (pt.CorrCholesky(n), lambda: rcorrv(n)(rng), lambda: rchol(n)(rng)),
                      (pt.UnconstrainedCholeskyCorr(n), lambda: rchol(n)(rng), lambda: rng.uniform(-.9, .9, n * (n - 1) // 2)),
                      (pt.CombinedTransform([pt.LogTransform(), pt.OrderedTransform()], [2, (3, 6)]), lambda: np.cumsum(rng.uniform(0.2, 1, 7)), lambda: rng.normal(size=7)),
                      (pt.CovCorr(n), lambda: rcov(n)(rng), lambda: with_diag(rcorrv(n), n, .2, 3)(rng))][i % 8]
        for m in METH:
            g = dom if m.endswith("fwd") else rg
            for lead in ((3,), (2, 3), (1, 2, 2)):
                A = np.array([g() for _ in range(int(np.prod(lead)))])
                A = A.reshape(lead + A.shape[-1:])
                A0 = A.copy()
                got = getattr(t, m[1:])(A)
                want = np.array([getattr(t, m)(a) for a in A0.reshape(-1, A0.shape[-1])])
                yield "%s of %s on stacked arguments acts row by row" % (m[1:], type(t).__name__), got, want.reshape(lead + want.shape[1:]), dict(inputs=dict(x=A0))
                yield "%s of %s leaves its argument alone" % (m[1:], type(t).__name__), A, A0
    ck.concrete("stacked arguments", stack, n=16)

    def ints(rng, i):
        x = np.cumsum(rng.integers(1, 4, size=4))
        for t in (pt.LogTransform(), pt.OrderedTransform(), pt.ComposedTransform([pt.LogTransform(), pt.OrderedTransform()]), pt.CombinedTransform([pt.LogTransform(), pt.OrderedTransform()], [1, 3])):
            for m in METH:
                z = x if m.endswith("fwd") else x - x[1]
                for a in (z, z[None]):
                    yield "%s of %s treats integers as the numbers they are" % (m[1:], type(t).__name__), getattr(t, m[1:])(a), getattr(t, m[1:])(a.astype(float)), dict(inputs=dict(x=a))
    ck.concrete("integer-valued arguments", ints, n=4)

    def big(rng, i):
        n = (4, 5, 7)[i % 3]
        t = pt.CholeskyCov(n)
        x = rcov(n)(rng)
        y = rng.uniform(-1, 1, size=x.size)
        yield "round trip of a covariance matrix", t.rvs(t.fwd(x)), x, dict(rtol=1e-6, atol=1e-8, inputs=dict(x=x))
        yield "round trip of an unconstrained vector", t.fwd(t.rvs(y)), y, dict(rtol=1e-6, atol=1e-7, inputs=dict(y=y))
        for lab, f, j, h, a in (("forward", t.fwd, t.jac_fwd, t.hess_fwd, x), ("reverse", t.rvs, t.jac_rvs, t.hess_rvs, y)):
            v = rng.normal(size=a.size)
            v *= (np.min(np.linalg.eigvalsh(full(x, n))) if lab == "forward" else 1) / np.linalg.norm(v)
            d = lambda f, e: (8 * (f(a + e * v) - f(a - e * v)) - (f(a + 2 * e * v) - f(a - 2 * e * v))) / (12 * e)
            J, H = j(a), h(a)
            sc = np.max(np.abs(H @ v)) + 1
            yield "%s Jacobian along a direction" % lab, J @ v, d(f, 2e-3), dict(rtol=1e-5, atol=1e-6 * (np.max(np.abs(J @ v)) + 1), inputs=dict(a=a, v=v))
            yield "%s Hessian along a direction" % lab, H @ v, d(j, 2e-3), dict(rtol=1e-5, atol=1e-6 * sc, inputs=dict(a=a, v=v))
            yield "%s Hessian symmetric" % lab, H, np.swapaxes(H, 1, 2), dict(rtol=1e-8, atol=1e-8 * np.max(np.abs(H)))
    ck.concrete("covariance transform, larger sizes", big, n=6)


def full(v, n):
    S = np.zeros((n, n))
    for k, (i, j) in enumerate(iv(n)):
        S[i, j] = S[j, i] = v[k]
    return S
WARM = ("CholeskyCov 1", "UnconstrainedCholeskyCorr 2", "covariance transform, larger sizes")
