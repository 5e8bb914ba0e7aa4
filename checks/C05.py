"""C05 stand-alone covariance parameterisations and the derivatives of the Cholesky factor"""
import importlib
import numpy as np
from vf.core import D, jac, hess
from vf.sym import F, SArr
from checks.C04 import iv, rcov, rcorrv, rchol, with_diag, law, full, METH

FN = "pystatsm/utilities/cov_transform.py::"


def sym(v, n):
    S = np.empty((n, n), dtype=object)
    for k, (i, j) in enumerate(iv(n)):
        S[i, j] = S[j, i] = v[k]
    return S.view(SArr)


def symcorr(v, n):
    S = np.empty((n, n), dtype=object)
    S[:] = 1
    for k, (i, j) in enumerate([p for p in iv(n) if p[0] != p[1]]):
        S[i, j] = S[j, i] = v[k]
    return S.view(SArr)


def run(ck):
    ct = importlib.import_module("pystatsm.utilities.cov_transform")
    uc = importlib.import_module("pystatsm.utilities.unconstrained_chol")
    dc = importlib.import_module("pystatsm.utilities.dchol")
    lo = importlib.import_module("pystatsm.utilities.linalg_operations")

    def fns(*cls):
        return [FN + k + "." + m for k in cls for m in METH]

    def lw(c, t, x, y):
        law(c, t, x, y, pub=False)

    def off(n):
        return [k for k, (i, j) in enumerate(iv(n)) if i != j]

    def lrow(v, n):
        """strict lower triangle from its packed form"""
        return {(i, j): v[k] for k, (i, j) in enumerate([p for p in iv(n) if p[0] != p[1]])}
    for n in (1, 2, 3, 4):
        m = n * (n - 1) // 2
        dg = [k for k, (i, j) in enumerate(iv(n)) if i == j]
        pos = {p: k for k, p in enumerate(iv(n))}
        wide = with_diag(lambda r: r.uniform(-1, 1, m), n, 0.2, 3)
        ck.contract("LogScale %d" % n, dict(x=wide, y=((m + n,), -1.5, 1.5)),
                    lambda c, x, y: (lw(c, ct.LogScale(n), x, y), c.eq("log of the diagonal only", lambda: ct.LogScale(n)._fwd(x), lambda: [np.log(x[k]) if k in dg else x[k] for k in range(len(x))])), n=2, functions=fns("LogScale"))
        ck.contract("CovCorr %d" % n, dict(x=rcov(n), y=with_diag(rcorrv(n), n, 0.2, 3)),
                    lambda c, x, y: (lw(c, ct.CovCorr(n), x, y), c.eq("variances and correlations", lambda: ct.CovCorr(n)._fwd(x), lambda: [x[k] if k in dg else x[k] / np.sqrt(x[pos[i, i]] * x[pos[j, j]]) for k, (i, j) in enumerate(iv(n))])), n=2, functions=fns("CovCorr"))
        if n == 1:
            continue

        def cc(c, x, y):
            t = ct.CorrCholesky(n)
            lw(c, t, x, y)

            def L():
                Lc = F.chol(symcorr(x, n))
                return [Lc[i, j] for i, j in iv(n) if i != j]
            c.eq("strict lower half of the Cholesky factor", lambda: t._fwd(x), L)

            def R():
                Ld = lrow(y, n)
                for i in range(n):
                    Ld[i, i] = np.sqrt(1 - sum(Ld[i, j] ** 2 for j in range(i)) + 0 * y[0])
                return [sum(Ld[i, k] * Ld[j, k] for k in range(j + 1)) for i, j in iv(n) if i != j]
            c.eq("reverse map is the unit-diagonal product", lambda: t._rvs(y), R)

        def un(c, x, y):
            t = ct.UnconstrainedCholeskyCorr(n)
            lw(c, t, x, y)
            w = lrow(y, n)
            c.eq("row-normalised factor", lambda: t._rvs(y), lambda: [w[i, j] / np.sqrt(1 + sum(w[i, k] ** 2 for k in range(i))) for i, j in iv(n) if i != j])
            c.near("rows stay inside the unit ball", lambda: bool(all(sum(lrow(t._rvs(y), n)[i, k] ** 2 for k in range(i)) < 1 for i in range(n))), True)

        def uf(c, x, y):
            c.eq("rvs(fwd(x)) = x", lambda: uc.rvs(uc.fwd(x)), lambda: x)
            c.eq("fwd(rvs(y)) = y", lambda: uc.fwd(uc.rvs(y)), lambda: y)
            c.eq("Jacobian, forward", lambda: uc.jac_fwd(x), lambda: jac(uc.fwd(x), x))
            c.eq("Jacobian, reverse", lambda: uc.jac_rvs(y), lambda: jac(uc.rvs(y), y))
            c.eq("Hessian, forward", lambda: uc.hess_fwd(x), lambda: hess(uc.fwd(x), x))
            c.eq("Hessian, reverse", lambda: uc.hess_rvs(y), lambda: hess(uc.rvs(y), y))
            w = lrow(x, n)
            c.eq("partial correlations of the factor", lambda: uc.fwd(x), lambda: [w[i, j] / np.sqrt(1 - sum(w[i, k] ** 2 for k in range(j)) + 0 * x[0]) for i, j in iv(n) if i != j])
        ck.contract("CorrCholesky %d" % n, dict(x=rcorrv(n), y=rchol(n)), cc, n=2 if n < 4 else 1, functions=fns("CorrCholesky"), budget=400000 if n < 4 else 100000)
        ck.contract("UnconstrainedCholeskyCorr %d" % n, dict(x=rchol(n), y=((m,), -1.5, 1.5)), un, n=2, functions=fns("UnconstrainedCholeskyCorr"))
        ck.contract("unconstrained_chol %d" % n, dict(x=rchol(n), y=((m,), -0.9, 0.9)), uf, n=2, functions=["pystatsm/utilities/unconstrained_chol.py::" + f[1:] for f in METH] + ["pystatsm/utilities/unconstrained_chol.py::vecl_inds_forwards", "pystatsm/utilities/unconstrained_chol.py::lhv_size_to_mat_size"])
        ck.contract("OffDiagMask %d" % n, dict(x=with_diag(lambda r: r.uniform(-0.6, 0.6, m) / n, n, 0.2, 3), y=((m + n,), -1.5, 1.5)), lambda c, x, y: lw(c, ct.OffDiagMask(ct.UnconstrainedCholeskyCorr(n)), x, y), n=2, functions=fns("OffDiagMask"))
        if n < 4:
            def cov(c, x, y):
                t = ct.CholeskyCov(n)
                lw(c, t, x, y)
                c.near("reverse map is a covariance matrix", lambda: bool(np.all(np.linalg.eigvalsh(full(t._rvs(y), n)) > 0)), True)
                c.near("diagonal carries log variances", lambda: t._fwd(x)[dg], lambda: np.log(x[dg]))
            dom = dict(x=rcov(n), y=((m + n,), -1.5, 1.5, -3.0, 3.0))
            ck.contract("CholeskyCov %d" % n, dom, cov, n=2 if n < 3 else 1, functions=fns("CholeskyCov") + [FN + "_hess_chain_rule"], budget=300000 if n < 3 else 60000)

    # derivatives of the Cholesky factor for any smooth matrix function M(theta)
    DC = "pystatsm/utilities/dchol.py::"
    dfn = [DC + f for f in ("dchol", "d1_pivot", "d2_pivot", "d1_col", "d2_col", "d1_row", "d2_row", "unit_matrices")]
    for n in (1, 2, 3):
        mm = n * (n + 1) // 2

        def ch(c, x):
            M = sym(x, n) if c.sym else full(x, n)
            dM, d2M = dc.unit_matrices(n)
            c.eq("Cholesky factor", lambda: dc.dchol(M, dM, d2M, 0)[0], lambda: F.chol(M))
            for o in (0, 1, 2):
                c.eq("factor, order %d" % o, lambda: dc.dchol(M, dM, d2M, o)[0], lambda: F.chol(M))
            c.eq("first derivative in the half-vectorised matrix", lambda: dc.dchol(M, dM, d2M, 1)[1], lambda: jac(F.chol(M), x))
            g = lambda k: (lambda: dc.dchol(M, dM, d2M)[k])
            c.eq("first derivative, second-order call", g(1), lambda: jac(F.chol(M), x))
            c.eq("second derivative", g(2), lambda: hess(F.chol(M), x))
        ck.contract("dchol, unit directions, %d" % n, dict(x=rcov(n)), ch, n=2, functions=dfn, budget=400000 if n < 3 else 100000)

        def th(c, a, t):
            # M(theta) = A0 + t0 t1 A1 + exp(t1) I + t0^2 A2 with any symmetric A
            A = [a[k * mm:(k + 1) * mm] for k in range(3)]
            mk = sym if c.sym else full
            S0, S1, S2 = (mk(v, n) for v in A)
            I = np.eye(n)
            M = S0 + t[0] * t[1] * S1 + t[0] ** 2 * S2 + np.exp(t[1]) * I
            dM = np.zeros((n, n, 2)) if not c.sym else np.zeros((n, n, 2), dtype=object).view(SArr)
            d2M = np.zeros((n, n, 2, 2)) if not c.sym else np.zeros((n, n, 2, 2), dtype=object).view(SArr)
            dM[:, :, 0] = t[1] * S1 + 2 * t[0] * S2
            dM[:, :, 1] = t[0] * S1 + np.exp(t[1]) * I
            d2M[:, :, 0, 0] = 2 * S2
            d2M[:, :, 0, 1] = S1
            d2M[:, :, 1, 0] = S1
            d2M[:, :, 1, 1] = np.exp(t[1]) * I
            c.eq("factor", lambda: dc.dchol(M, dM, d2M)[0], lambda: F.chol(M))
            c.eq("first derivative along the parameters", lambda: dc.dchol(M, dM, d2M)[1], lambda: jac(F.chol(M), t))
            c.eq("second derivative along the parameters", lambda: dc.dchol(M, dM, d2M)[2], lambda: hess(F.chol(M), t))
        ck.contract("dchol, curved matrix functions, %d" % n, dict(a=lambda r: np.concatenate([rcov(n)(r), 0.1 * r.normal(size=2 * mm)]).round(5), t=((2,), -0.6, 0.6)), th, n=2, functions=dfn, budget=300000 if n < 3 else 60000)

    # rows scaled by the reciprocal root of one plus their squared norm (strict lower triangle, vectorised)
    lo = importlib.import_module("pystatsm.utilities.linalg_operations")
    for n in (2, 3, 4):
        m = n * (n - 1) // 2

        def ball(r, n=n):
            L = np.zeros((n, n))
            for i in range(1, n):
                v = r.normal(size=i)
                L[i, :i] = v / np.linalg.norm(v) * r.uniform(0.2, 0.9)
            return L[tuple(lo.lhv_indices((n, n)))].round(5)

        def lhv(c, x, y, n=n):
            t = lo.LHV(n)
            law(c, t, x, y, pub=False)
            r, k = lo.lhv_indices((n, n))
            rows = [[a for a in range(len(r)) if r[a] == i] for i in range(n)]
            c.eq("each row divided by the root of one plus its squared norm", lambda: t._fwd(x), lambda: [x[a] / np.sqrt(1 + sum(x[b] ** 2 for b in rows[r[a]])) for a in range(len(r))])
        ck.contract("LHV %d" % n, dict(x=((m,), -2, 2), y=ball), lhv, n=2, functions=["pystatsm/utilities/linalg_operations.py:LHV." + f for f in ("_fwd", "_rvs", "_jac_fwd", "_hess_fwd", "_jac_rvs", "_hess_rvs")])

    # run-time: larger sizes and the module's matrix packing helpers
    def big(rng, i):
        n = (4, 5, 6)[i % 3]
        t = ct.CholeskyCov(n)
        x = rcov(n)(rng)
        y = rng.normal(size=x.size) * 2
        yield "round trip of a covariance matrix", t._rvs(t._fwd(x)), x, dict(rtol=1e-6, atol=1e-8, inputs=dict(x=x))
        yield "every vector gives a covariance matrix", bool(np.min(np.linalg.eigvalsh(full(t._rvs(y), n))) > 0), True, dict(inputs=dict(y=y))
        yield "round trip of a parameter vector", t._fwd(t._rvs(y)), y, dict(rtol=1e-6, atol=1e-7, inputs=dict(y=y))
        for lab, f, j, h, a in (("forward", t._fwd, t._jac_fwd, t._hess_fwd, x), ("reverse", t._rvs, t._jac_rvs, t._hess_rvs, y)):
            v = rng.normal(size=a.size)
            v *= np.min(np.linalg.eigvalsh(full(x, n))) / np.linalg.norm(v) if lab == "forward" else 0.1 / np.linalg.norm(v)
            d = lambda f, e: (8 * (f(a + e * v) - f(a - e * v)) - (f(a + 2 * e * v) - f(a - 2 * e * v))) / (12 * e)
            J, H = j(a), h(a)
            yield "%s Jacobian along a direction" % lab, J @ v, d(f, 2e-3), dict(rtol=1e-5, atol=1e-6 * (np.max(np.abs(J @ v)) + 1), inputs=dict(a=a, v=v))
            yield "%s Hessian along a direction" % lab, H @ v, d(j, 2e-3), dict(rtol=1e-5, atol=1e-6 * (np.max(np.abs(H @ v)) + 1), inputs=dict(a=a, v=v))
            yield "%s Hessian symmetric" % lab, H, np.swapaxes(H, 1, 2), dict(rtol=1e-8, atol=1e-8 * np.max(np.abs(H)))
        S = full(x, n)
        dM, d2M = dc.unit_matrices(n)
        L, dL, d2L = dc.dchol(S, dM, d2M)
        yield "Cholesky factor", L, np.linalg.cholesky(S), dict(rtol=1e-9)
        Lf = lambda z: np.linalg.cholesky(full(z, n))
        v = rng.normal(size=x.size)
        v *= np.min(np.linalg.eigvalsh(S)) / np.linalg.norm(v)
        d = lambda f, e: (8 * (f(x + e * v) - f(x - e * v)) - (f(x + 2 * e * v) - f(x - 2 * e * v))) / (12 * e)
        yield "derivative of the factor along a direction", dL @ v, d(Lf, 2e-3), dict(rtol=1e-5, atol=1e-7)
        yield "second derivative of the factor along a direction", d2L @ v, d(lambda z: dc.dchol(full(z, n), dM, d2M, 1)[1], 2e-3), dict(rtol=1e-5, atol=1e-6 * (np.max(np.abs(d2L @ v)) + 1))
    ck.concrete("larger sizes", big, n=6)
