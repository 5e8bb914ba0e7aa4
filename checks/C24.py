"""C24 weighted least squares, Cholesky updates, square roots, centering and moment helpers"""
import importlib
import itertools
import numpy as np
from vf.core import D, jac, Skip
from vf.sym import F, SArr

LO = "pystatsm/utilities/linalg_operations.py::"
DU = "pystatsm/utilities/data_utils.py::"
CU = "pystatsm/utilities/cov_utils.py::"


def run(ck):
    lo = importlib.import_module("pystatsm.utilities.linalg_operations")
    du = importlib.import_module("pystatsm.utilities.data_utils")
    cu = importlib.import_module("pystatsm.utilities.cov_utils")
    iv = lambda n: [(r, c) for c in range(n) for r in range(c, n)]

    def tri(v, n):
        L = np.zeros((n, n), dtype=object)
        for k, (r, c) in enumerate(iv(n)):
            L[r, c] = v[k]
        return L.view(SArr)

    def sym(v, n):
        S = np.zeros((n, n), dtype=object)
        for k, (r, c) in enumerate(iv(n)):
            S[r, c] = S[c, r] = v[k]
        return S.view(SArr)

    def num(A, c):
        return A if c.sym else np.asarray(A, dtype=float)

    def rchol(n):
        return lambda rng: np.array([rng.uniform(0.5, 2) if r == c else rng.uniform(-1, 1) for r, c in iv(n)])

    # ---- least squares -----------------------------------------------------------------
    def ne(X, w, y):
        """weighted normal equations"""
        Xw = (X.T * w) if w is not None else X.T
        return lambda b: (np.dot(np.dot(Xw, X), b), np.dot(Xw, y))
    for n, p in ((2, 1), (3, 1), (3, 2)) + (((4, 2),) if ck.thorough else ()):
        def ls(c, X, y, w):
            for f in ("wls_chol", "wls_qr", "nwls"):
                b = getattr(lo, f)
                c.eq(f + ": X'WXb = X'Wy", lambda b=b: np.dot(np.dot(X.T * w, X), b(X, y, w)), lambda: np.dot(X.T * w, y))
            c.eq("lsqr: X'Xb = X'y", lambda: np.dot(np.dot(X.T, X), lo.lsqr(X, y)), lambda: np.dot(X.T, y))
        ck.contract("least squares %d x %d" % (n, p), dict(X=((n, p), -2, 2), y=((n,), -2, 2), w=((n,), 0.2, 3)), ls, n=2, flips=0,
                    functions=[LO + f for f in ("wls_chol", "wls_qr", "nwls", "lsqr")], budget=60000 if p > 2 else 400000)
    for n, p, neg in ((3, 1, (0,)), (3, 1, (0, 2)), (4, 1, (1, 3))):
        def wn(rng):
            w = rng.uniform(0.5, 3, n)
            w[list(neg)] *= -1
            return w

        def nw(c, X, y, w):
            c.eq("nwls with negative weights: X'WXb = X'Wy", lambda: np.dot(np.dot(X.T * w, X), lo.nwls(X, y, w)), lambda: np.dot(X.T * w, y))
        ck.contract("weights of both signs %d x %d %s" % (n, p, list(neg)), dict(X=((n, p), -2, 2), y=((n,), -2, 2), w=wn), nw, n=2, flips=0, functions=[LO + "nwls"], budget=100000)

    # ---- products ------------------------------------------------------------------------
    def prods(c, X, Y, W, w):
        c.eq("X' diag(w) X", lambda: lo.wcrossp(X, w), lambda: np.dot(X.T * w, X))
        c.eq("X' diag(w) Y", lambda: lo.wdcrossp(X, w, Y), lambda: np.dot(X.T * w, Y))
        c.eq("diag(X Y')", lambda: lo.diag_outer_prod(X, X + 2), lambda: [sum(X[i] * (X[i] + 2)) for i in range(X.shape[0])])
        c.eq("diag(X W Y')", lambda: lo.wdiag_outer_prod(X, W, Y), lambda: [np.dot(X[i], np.dot(W, Y[i])) for i in range(X.shape[0])])
        c.eq("projection on the column space", lambda: np.dot(lo.cproject(X), X), lambda: X)
        c.eq("projection is symmetric", lambda: lo.cproject(X), lambda P: P.T)
        c.eq("normalised quadratic forms", lambda: np.diag(np.dot(du.normalize_xtrx(X.T[:, :1], np.dot(W, W.T)).T, np.dot(np.dot(W, W.T), du.normalize_xtrx(X.T[:, :1], np.dot(W, W.T))))), lambda: [1])
    for n, p, q in ((3, 2, 3), (4, 1, 2)):
        ck.contract("weighted products %d %d %d" % (n, p, q), dict(X=((n, p), -2, 2), Y=((n, q), -2, 2), W=((p, q), -2, 2), w=((n,), -1, 3)), prods, n=2, flips=0,
                    functions=[LO + f for f in ("wcrossp", "wdcrossp", "diag_outer_prod", "wdiag_outer_prod", "cproject")] + [DU + "normalize_xtrx"])

    # ---- Cholesky updates ----------------------------------------------------------------
    for n in (1, 2, 3, 4):
        def upd(c, l):
            L = num(tri(l, n), c)
            A = np.dot(L, L.T)
            for i in range(n):
                def add(i=i):
                    M = L.copy()
                    M[i] = 7.0
                    M[i, i + 1:] = 0.0
                    return lo.add_chol_row(A, M, i)
                c.eq("add_chol_row(%d) gives the row of the factor" % i, lambda: add()[i], lambda: L[i])
                if n > 1:
                    ix = [t for t in range(n) if t != i]
                    c.eq("chol_downdate(%d) factors the matrix without that row" % i, lambda: (lambda R: np.dot(R, R.T))(lo.chol_downdate(L.copy(), i)[:-1, :-1]), lambda: A[np.ix_(ix, ix)])
                    c.eq("chol_downdate(%d) is lower triangular" % i, lambda: np.triu(lo.chol_downdate(L.copy(), i)[:-1, :-1], 1), lambda: np.zeros((n - 1, n - 1)))
        ck.contract("Cholesky updates of order %d" % n, dict(l=rchol(n)), upd, n=2, flips=0, functions=[LO + "add_chol_row", LO + "chol_downdate"])
    for n in (2, 3, 4, 5):
        def ar(c, rho):
            c.eq("AR(1) factor", lambda: (lambda L: np.dot(L, L.T))(lo.ar1_chol(n, rho)), lambda: [[rho ** abs(i - j) for j in range(n)] for i in range(n)])
            c.eq("AR(1) factor is lower triangular", lambda: np.triu(lo.ar1_chol(n, rho), 1), lambda: np.zeros((n, n)))
            if n < 5:
                R = num(np.array([[rho ** abs(i - j) for j in range(n)] for i in range(n)], dtype=object).view(SArr), c)
                c.eq("Toeplitz factor of an AR(1) matrix", lambda: (lambda L: np.dot(L, L.T))(lo.toeplitz_cholesky_lower_nb(n, R)), lambda: R)
            c.eq("AR(1) correlation", lambda: cu.get_ar1_corr(n, rho), lambda: [[rho ** abs(i - j) for j in range(n)] for i in range(n)])
            c.eq("exchangeable correlation", lambda: cu.get_exchangeable_corr(n, rho / 10 + 0.12), lambda: [[rho / 10 + 0.12 if i != j else 1 for j in range(n)] for i in range(n)])
        ck.contract("AR(1) and exchangeable matrices of order %d" % n, dict(rho=(None, 0.05, 0.9)), ar, n=2, functions=[LO + "ar1_chol", LO + "toeplitz_cholesky_lower_nb", CU + "get_ar1_corr", CU + "get_exchangeable_corr"])
    for n in (2, 3):
        def tp(c, r):
            R = num(np.array([[r[abs(i - j) - 1] if i != j else 1 for j in range(n)] for i in range(n)], dtype=object).view(SArr), c)
            c.eq("Toeplitz factor", lambda: (lambda L: np.dot(L, L.T))(lo.toeplitz_cholesky_lower_nb(n, R)), lambda: R)
            c.eq("Toeplitz factor is lower triangular", lambda: np.triu(lo.toeplitz_cholesky_lower_nb(n, R), 1), lambda: np.zeros((n, n)))
        ck.contract("Toeplitz factor of order %d" % n, dict(r=((n - 1,), -0.4, 0.4)), tp, n=2, functions=[LO + "toeplitz_cholesky_lower_nb"])

    # ---- square roots, spectral helpers (order 2: closed-form spectral decomposition) -----
    for n in (1, 2):
        def sq(c, l):
            L = num(tri(l, n), c)
            A = np.dot(L, L.T)
            c.eq("mat_sqrt squared", lambda: (lambda R: np.dot(R, R))(lo.mat_sqrt(A)), lambda: A)
            c.eq("inv_sqrt: R A R = I", lambda: (lambda R: np.dot(np.dot(R, A), R))(lo.inv_sqrt(A)), lambda: np.eye(n))
            c.eq("inv_sqrt is symmetric", lambda: lo.inv_sqrt(A), lambda R: R.T)
            c.eq("eighs: V diag(u) V' = A", lambda: (lambda u, V: np.dot(V * u, V.T))(*lo.eighs(A)), lambda: A)
            c.holds("eighs: descending", lambda: np.all(np.diff(lo.eighs(A)[0]) <= 0))
            c.eq("project_psd keeps a positive definite matrix", lambda: cu.project_psd(A), lambda: A)
            if n == 1:
                c.eq("_svd_cov_transform: L L' = S", lambda: (lambda R: np.dot(R, R.T))(cu._svd_cov_transform(A)), lambda: A)
            else:
                c.near("_svd_cov_transform: L L' = S", lambda: (lambda R: np.dot(R, R.T))(cu._svd_cov_transform(A)), lambda: A)
        ck.contract("matrix square roots of order %d" % n, dict(l=rchol(n)), sq, n=2, flips=0, functions=[LO + "mat_sqrt", LO + "inv_sqrt", LO + "eighs", CU + "project_psd", CU + "_svd_cov_transform"])

    def IV(a, n):
        """coefficients of the Lagrange polynomials (inverse of the Vandermonde matrix), highest power first, one row per power"""
        cols = []
        for k in range(n):
            pl = [1]
            for j in range(n):
                if j != k:
                    d = a[k] - a[j]
                    up = [t / d for t in pl] + [0]
                    dn = [0] + [-a[j] * t / d for t in pl]
                    pl = [u + v for u, v in zip(up, dn)]
            cols.append(pl)
        return [[cols[k][r] for k in range(n)] for r in range(n)]

    # ---- Vandermonde systems ---------------------------------------------------------------
    for n in (1, 2, 3, 4):
        def vd(c, a, b):
            # primal system: sum_j a_j^i x_j = b_i
            V = [[a[j] ** i for j in range(n)] for i in range(n)]
            c.eq("solve_vander", lambda: np.dot(num(np.array(V, dtype=object).view(SArr), c), lo.solve_vander(a, b)), lambda: b)
            c.eq("_inv_vander", lambda: lo._inv_vander(a), lambda: IV(a, n))
        ck.contract("Vandermonde systems of order %d" % n, dict(a=lambda rng: np.cumsum(rng.uniform(0.3, 1, n)) - 1, b=((n,), -2, 2)), vd, n=2, functions=[LO + "_solve_vander", LO + "solve_vander", LO + "_inv_vander"])

    # ---- centering, standardising, moments ---------------------------------------------------
    def m1(X):
        n, p = X.shape
        return [sum(X[:, j]) / n for j in range(p)]

    def C(X, Y, d=0):
        n = X.shape[0]
        a, b = m1(X), m1(Y)
        return [[sum((X[i, j] - a[j]) * (Y[i, k] - b[k]) for i in range(n)) / (n - d) for k in range(Y.shape[1])] for j in range(X.shape[1])]

    def R(X, Y):
        c, u, v = C(X, Y), C(X, X), C(Y, Y)
        return [[c[j][k] / np.sqrt(u[j][j] * v[k][k]) for k in range(Y.shape[1])] for j in range(X.shape[1])]
    for n, p, q in ((3, 2, 1), (4, 1, 2), (2, 2, 2), (5, 2, 1)):
        def mom(c, X, Y):
            S = [C(X, X)[j][j] for j in range(p)]
            c.eq("column sums", lambda: du._col_sum(X), lambda: [sum(X[:, j]) for j in range(p)])
            c.eq("row sums", lambda: du._row_sum(X), lambda: [sum(X[i]) for i in range(n)])
            c.eq("column means", lambda: du._col_mean(X), lambda: m1(X))
            c.eq("column standard deviations", lambda: du._col_std(X), lambda: [np.sqrt(s) for s in S])
            c.eq("centering", lambda: du.center(X), lambda: [[X[i, j] - m1(X)[j] for j in range(p)] for i in range(n)])
            c.eq("scaling", lambda: du.standardize(X), lambda: [[X[i, j] / np.sqrt(S[j]) for j in range(p)] for i in range(n)])
            for f in (du.csd, du._csd):
                c.eq("centred and scaled: " + f.__name__, lambda f=f: f(X), lambda: [[(X[i, j] - m1(X)[j]) / np.sqrt(S[j]) for j in range(p)] for i in range(n)])
            c.eq("reported mean", lambda: du._csd(X, True)[1], lambda: m1(X))
            c.eq("reported deviation", lambda: du._csd(X, True)[2], lambda: [np.sqrt(s) for s in S])
            c.eq("covariance: cov_nb", lambda: du.cov_nb(X), lambda: C(X, X))
            c.eq("covariance: cov", lambda: du.cov(X), lambda: C(X, X))
            c.eq("cross covariance", lambda: du.cov(X, Y), lambda: C(X, Y))
            c.eq("correlation: corr_nb", lambda: du.corr_nb(X), lambda: R(X, X))
            c.eq("correlation: corr", lambda: du.corr(X), lambda: R(X, X))
            c.eq("cross correlation", lambda: du.corr(X, Y), lambda: R(X, Y))
            for ub in (False, True):
                c.eq("running covariance, unbiased=%s" % ub, lambda: du.welford_cov(X, unbiased=ub)[1], lambda: C(X, X, int(ub)))
                c.eq("running mean", lambda: du.welford_cov(X, unbiased=ub)[0], lambda: m1(X))
                c.eq("running cross covariance, unbiased=%s" % ub, lambda: du.welford_cov(X, Y, unbiased=ub)[1], lambda: C(X, Y, int(ub)))
                c.eq("running variance, unbiased=%s" % ub, lambda: du.welford_variance(X, 0, ub)[1], lambda: [C(X, X, int(ub))[j][j] for j in range(p)])
                c.eq("running variance mean", lambda: du.welford_variance(X, 0, ub)[0], lambda: m1(X))
            if p > 1:
                c.eq("running variance over rows", lambda: du.welford_variance(X, 1)[1], lambda: [sum((X[i, j] - sum(X[i]) / p) ** 2 for j in range(p)) / p for i in range(n)])
            c.eq("sums of squares by column", lambda: du.ssq(X), lambda: [sum(X[:, j] ** 2) for j in range(p)])
            c.eq("sums of squares by row", lambda: du.ssq(X, 1), lambda: [sum(X[i] ** 2) for i in range(n)])
        ck.contract("moments %d x %d" % (n, p), dict(X=((n, p), -2, 2), Y=((n, q), -2, 2)), mom, n=2, flips=0,
                    functions=[DU + f for f in ("_col_sum", "_row_sum", "_col_mean", "_col_std", "center", "standardize", "csd", "_csd", "cov_nb", "cov", "corr_nb", "corr", "_welford_cov", "_welford_cov_cross", "welford_cov", "_welford_update", "_welford_variance", "welford_variance", "ssq")])

    # ---- scaling and structured covariance matrices ------------------------------------------
    for n in (2, 3):
        def scal(c, l, d, A):
            L = num(tri(l, n), c)
            S = np.dot(L, L.T)
            dd = [[d[i] * A[i, j] * d[j] for j in range(n)] for i in range(n)]
            c.eq("scale_diag", lambda: du.scale_diag(A.copy(), d), lambda: dd)
            c.eq("scale_dg", lambda: du.scale_dg(A.copy(), d), lambda: dd)
            c.eq("scale_dg in place", lambda: (lambda B: (du.scale_dg(B, d, inplace=True), B)[1])(A.copy()), lambda: dd)
            c.eq("norm_diag", lambda: du.norm_diag(S), lambda: [[S[i, j] / np.sqrt(S[i, i] * S[j, j]) for j in range(n)] for i in range(n)])
            c.eq("factor covariance", lambda: cu.get_factor_cov(A[:, :1], d), lambda: [[A[i, 0] * A[j, 0] + (d[i] if i == j else 0) for j in range(n)] for i in range(n)])
            c.eq("factor covariance with factor correlations", lambda: cu.get_factor_cov(A[:, :2], np.diag(d), S[:2, :2]), lambda: [[sum(A[i, a] * S[a, b] * A[j, b] for a in range(2) for b in range(2)) + (d[i] if i == j else 0) for j in range(n)] for i in range(n)])
        ck.contract("scaling of order %d" % n, dict(l=rchol(n), d=((n,), 0.3, 2), A=((n, n), -2, 2)), scal, n=2, flips=0, functions=[DU + "scale_diag", DU + "scale_dg", DU + "_scale_diag", DU + "norm_diag", CU + "get_factor_cov"])
    for n in (2, 3, 4, 5):
        def struct(c, r, t, dist):
            prod = lambda i, j: np.prod(np.array([r[k] for k in range(min(i, j), max(i, j))], dtype=object)) if i != j else 1
            c.eq("antedependence", lambda: cu.get_antedependence1_corr(r), lambda: [[prod(i, j) for j in range(n)] for i in range(n)])
            c.eq("Toeplitz", lambda: cu.get_toeplitz_corr(r), lambda: [[r[abs(i - j) - 1] if i != j else 1 for j in range(n)] for i in range(n)])
            m = min(n - 1, 2)
            bands = [dist[: n - 1 - k] for k in range(m)]
            c.eq("m-dependent", lambda: cu.get_mdependent_corr(bands), lambda: [[1 if i == j else (bands[abs(i - j) - 1][min(i, j)] if abs(i - j) <= m else 0) for j in range(n)] for i in range(n)])
            up = {p: k for k, p in enumerate(itertools.combinations(range(n), 2))}
            Dm = num(np.array([[dist[up[min(i, j), max(i, j)]] if i != j else 0 for j in range(n)] for i in range(n)], dtype=object).view(SArr), c)
            c.eq("spatial power, matrix", lambda: cu.get_spatialpower_corr(t, Dm), lambda: [[t ** Dm[i, j] if i != j else 1 for j in range(n)] for i in range(n)])
            c.eq("spatial exponential, matrix", lambda: cu.get_spatialexp_corr(t, Dm), lambda: [[np.exp(-Dm[i, j] / t) if i != j else 1 for j in range(n)] for i in range(n)])
        ck.contract("patterned correlations of order %d" % n, dict(r=((n - 1,), 0.1, 0.8), t=(None, 0.2, 0.9), dist=((n * (n - 1) // 2,), 0.2, 2)), struct, n=2, flips=0,
                    functions=[CU + f for f in ("get_antedependence1_corr", "get_toeplitz_corr", "get_mdependent_corr", "get_spatialpower_corr", "get_spatialexp_corr")])

    # ---- asymptotic covariances ----------------------------------------------------------------
    def acov(n):
        def body(c, s):
            S = num(sym(s, n), c)

            def dR():
                # derivative of vec(corr(S)) in vec(S), symmetric entries moving together, times Cov(vec S) = 2 N (S (x) S)
                Rm = [[S[i, j] / np.sqrt(S[i, i] * S[j, j]) for j in range(n)] for i in range(n)]
                J = [[D(Rm[i][j], s[k]) for k in range(len(s))] for j in range(n) for i in range(n)]
                V = [[S[a, e] * S[b, f] + S[a, f] * S[b, e] for (e, f) in iv(n)] for (a, b) in iv(n)]
                J, V = np.array(J, dtype=object), np.array(V, dtype=object)
                return np.dot(np.dot(J, V), J.T)
            c.eq("correlations (Neudecker)", lambda: cu.corr_acov_neudecker(S), dR)
            c.eq("correlations (Browne)", lambda: cu.corr_acov_browne(S), dR)
            c.eq("covariances, normal data", lambda: cu.cov_sample_cov(S=S), lambda: [[S[a, e] * S[b, f] + S[a, f] * S[b, e] for (e, f) in iv(n)] for (a, b) in iv(n)])
        return body
    for n in (1, 2, 3):
        ck.contract("asymptotic covariance of order %d" % n, dict(s=lambda rng: (lambda L: [L[i, j] for i, j in iv(n)])((lambda M: M @ M.T)(np.tril(rng.uniform(-0.5, 0.5, (n, n)), -1) + np.diag(rng.uniform(0.7, 1.5, n))))), acov(n), n=1, flips=0,
                    functions=[CU + f for f in ("corr_acov_neudecker", "corr_acov_browne", "cov_sample_cov")])

    # ---- bounded -------------------------------------------------------------------------------
    def big(rng, i):
        n, p = [(20, 3), (30, 5), (12, 6), (8, 1), (50, 4)][i]
        X, y, w = rng.normal(size=(n, p)), rng.normal(size=n), rng.uniform(0.1, 3, n)
        b = np.linalg.solve(X.T * w @ X, X.T @ (w * y))
        I = dict(rtol=1e-7, atol=1e-9, inputs=dict(n=n, p=p))
        for f in ("wls_chol", "wls_qr", "nwls"):
            yield f, getattr(lo, f)(X, y, w), b, I
        w2 = w.copy()
        w2[: max(1, n // 10)] *= -0.3
        w2[-1] = 0.0
        yield "nwls with negative and zero weights", lo.nwls(X, y, w2), np.linalg.solve(X.T * w2 @ X, X.T @ (w2 * y)), dict(rtol=1e-6, atol=1e-8, inputs=dict(n=n, p=p))
        yield "lsqr", lo.lsqr(X, y), np.linalg.lstsq(X, y, rcond=None)[0], I
        A = X.T @ X / n
        yield "mat_sqrt", lo.mat_sqrt(A) @ lo.mat_sqrt(A), A, I
        yield "inv_sqrt", lo.inv_sqrt(A) @ A @ lo.inv_sqrt(A), np.eye(p), I
        Z = np.c_[X, X @ rng.normal(size=(p, 2))]
        yield "projection, rank deficient", lo.cproject(Z), X @ np.linalg.solve(X.T @ X, X.T), I
        u, V = lo.eighs(A)
        yield "eighs descending", bool(np.all(np.diff(u) <= 0)), True
        yield "eighs", V @ np.diag(u) @ V.T, A, I
        B = rng.normal(size=(p, p))
        B = B + B.T
        Pp = cu.project_psd(B)
        e, Q = np.linalg.eigh(B)
        yield "project_psd", Pp, Q @ np.diag(np.maximum(e, 1e-9)) @ Q.T, I
        L = np.linalg.cholesky(A + np.eye(p))
        for k in range(p):
            if p > 1:
                ix = [t for t in range(p) if t != k]
                Rr = lo.chol_downdate(L.copy(), k)[:-1, :-1]
                yield "chol_downdate", Rr @ Rr.T, (A + np.eye(p))[np.ix_(ix, ix)], I
        M = np.zeros((p, p))
        for k in range(p):
            M = lo.add_chol_row(A + np.eye(p), M, k)
        yield "add_chol_row builds the factor", M, L, I
        from scipy.linalg import toeplitz, expm
        T = toeplitz(0.7 ** np.arange(p) * (1 + 0.1 * (np.arange(p) > 1)))
        yield "toeplitz factor", lo.toeplitz_cholesky_lower_nb(p, T), np.linalg.cholesky(T), I
        yield "ar1_chol", lo.ar1_chol(p + 1, -0.6), np.linalg.cholesky(toeplitz((-0.6) ** np.arange(p + 1))), I
        q = min(p, 4)
        As = A[:q, :q] + np.diag(np.arange(q))
        J = np.zeros((q * q, q * q))
        for a in range(q):
            for b_ in range(q):
                E = np.zeros((q, q))
                E[a, b_] = 1
                from scipy.linalg import expm_frechet
                J[:, b_ * q + a] = expm_frechet(As, E, compute_expm=False).reshape(-1, order="F")
        yield "derivative of the matrix exponential", lo.dmat_exp(As), J, dict(rtol=1e-6, atol=1e-8, inputs=dict(A=As))
        mu, Sg = rng.normal(size=p), A + np.eye(p)
        if n > p + 1:
            Zc = cu._exact_cov(X, cov=Sg)
            yield "data with an exact covariance", np.cov(Zc.T, bias=True), Sg if p > 1 else Sg[0, 0], I
            yield "whitened data", np.cov(cu._whiten(X).T, bias=True), np.eye(p) if p > 1 else 1.0, I
        if p > 1:
            qy = 2
            Syy = np.array([[1, 0.3], [0.3, 1.5]])
            r = np.array([0.7, 0.2])
            r2 = r
            J2 = cu.get_canvar_corr(Syy, (A + np.eye(p)), r2) if p == 2 else cu.get_canvar_corr(Syy, Syy * 1.2, r2)
            a, b_ = J2[:2, :2], J2[2:, 2:]
            K = np.linalg.solve(a, J2[:2, 2:]) @ np.linalg.solve(b_, J2[2:, :2])
            yield "canonical correlations of the joint matrix", np.sort(np.linalg.eigvals(K).real), np.sort(r ** 2), dict(rtol=1e-6, atol=1e-9)
        N0 = rng.normal(size=(5, 5))
        N0 = (N0 + N0.T) / 4
        np.fill_diagonal(N0, 1.0)
        NP = cu.near_psd(N0)
        yield "near_psd: unit diagonal", np.diag(NP), np.ones(5)
        yield "near_psd: symmetric", NP, NP.T, dict(atol=1e-10)
        yield "near_psd: positive semidefinite", bool(np.linalg.eigvalsh(NP).min() > -1e-5), True, dict(inputs=dict(A=N0))
        G = Sg / np.sqrt(np.outer(np.diag(Sg), np.diag(Sg)))
        yield "near_psd keeps a correlation matrix", cu.near_psd(G), G, dict(atol=1e-5)
        ku = rng.uniform(1, 2, p)
        Cc = 0.5 * (np.sqrt(ku)[:, None] + np.sqrt(ku)[None]) * Sg
        half = iv(p)
        yield "covariances with kurtosis", cu.cov_sample_cov(S=Sg, kurt=ku), [[Cc[a, e_] * Cc[b_, f_] + Cc[a, f_] * Cc[b_, e_] + Cc[a, b_] * Cc[e_, f_] - Sg[a, b_] * Sg[e_, f_] for e_, f_ in half] for a, b_ in half], I
        yield "excess kurtosis", cu.cov_sample_cov(S=Sg, excess_kurt=3 * (ku - 1)), cu.cov_sample_cov(S=Sg, kurt=ku), I
        yield "marginal kurtosis", cu.multivar_marginal_kurtosis(X), (lambda Z: np.mean(Z ** 4, 0) / np.mean(Z ** 2, 0) ** 2 / 3)(X - X.mean(0)), I
    ck.concrete("larger problems", big, n=5, functions=[LO + "dmat_exp", CU + "_exact_cov", CU + "_whiten", CU + "get_canvar_corr", CU + "_get_joint_corr_r", CU + "near_psd", CU + "multivar_marginal_kurtosis"])

    def tabs(rng, i):
        n, d = 60, 2 + i % 2
        A = np.column_stack([rng.choice(rng.permutation(9)[: 2 + k + i % 3], n) for k in range(d)])
        cnt, lv = du.cross_tabulate(A)
        W = np.zeros([len(l) for l in lv], int)
        for row in A:
            W[tuple(int(np.where(l == v)[0][0]) for l, v in zip(lv, row))] += 1
        yield "cross tabulation", cnt, W, dict(inputs=dict(arr=A))
        for k, l in enumerate(lv):
            yield "levels", l, np.unique(A[:, k])
        for cd in range(-1, d):
            fc, rl, cl, _ = du.flat_cross_tabulate(A, cd)
            c_ = cd % d
            rest = [k for k in range(d) if k != c_]
            yield "flat table: column labels", cl, np.unique(A[:, c_])
            want = [[int(np.sum((A[:, c_] == v) & np.all(A[:, rest] == r, axis=1))) for v in cl] for r in rl]
            yield "flat table", fc, want, dict(inputs=dict(arr=A, column_dim=cd))
            yield "flat table: rows complete", sorted(map(tuple, rl.tolist())), sorted(itertools.product(*[np.unique(A[:, k]).tolist() for k in rest]))
        E = du.expand_crosstab(cnt)
        yield "expanded table tabulates back", du.cross_tabulate(E)[0], cnt[np.ix_(*[np.flatnonzero(cnt.sum(axis=tuple(t for t in range(d) if t != k))) for k in range(d)])]
        x = A[:, 0]
        lev = np.unique(x)
        for f in (du.dummy, lambda z: du.dummy_encode(z).toarray()):
            yield "indicator matrix", f(x), (x[:, None] == lev).astype(float), dict(inputs=dict(x=x))
        yield "indicator matrix without the last level", du.dummy(x, fullrank=False), (x[:, None] == lev[:-1]).astype(float)
        cats = lev[::-1].copy()
        yield "indicator matrix, given categories", du.dummy(x, categories=cats), (x[:, None] == cats).astype(float)
        yield "indicator matrix, given categories (sparse)", du.dummy_encode(x, cats).toarray(), (x[:, None] == cats).astype(float)
        V = rng.normal(size=(5, 4))
        Fv = du.flip_signs(V)
        yield "signs: largest entry positive", [Fv[np.argmax(np.abs(Fv[:, j])), j] > 0 for j in range(4)], [True] * 4
        yield "signs: columns up to sign", np.abs(Fv), np.abs(V)
        yield "signs: proportional columns", [abs(Fv[:, j] @ V[:, j]) for j in range(4)], [V[:, j] @ V[:, j] for j in range(4)]
        a = rng.permutation(20).astype(float)
        for k in (1, 3, 19, 20):
            yield "largest", np.sort(a[du.extremal_indices(a, k)]), np.sort(a)[-k:], dict(inputs=dict(a=a, n=k))
            yield "smallest", np.sort(a[du.extremal_indices(a, k, largest=False)]), np.sort(a)[:k], dict(inputs=dict(a=a, n=k))
        M2 = rng.permutation(24).reshape(4, 6).astype(float)
        for ax in (0, 1, -1):
            for lg in (True, False):
                ix = du.extremal_indices(M2, 2, axis=ax, largest=lg)
                st = np.sort(M2, axis=ax)
                yield "extremal entries along an axis", np.sort(np.take_along_axis(M2, ix, ax), axis=ax), np.take(st, [-2, -1] if lg else [0, 1], axis=ax), dict(inputs=dict(arr=M2, axis=ax, largest=lg))
        s = np.r_[-np.ones(3 + i), np.ones(4)]
        yield "last position before the first sign change", du.sign_change(s), 2 + i
        yield "with an offset", du.sign_change(s + 5, offset=5.0), 2 + i
        yield "by column", du.sign_change(np.column_stack([s, -s[::-1]])), [2 + i, 3], dict(inputs=dict(s=s))
    ck.concrete("tables, indicators and selections", tabs, n=6, functions=[DU + f for f in ("cross_tabulate", "flat_cross_tabulate", "expand_crosstab", "_dummy", "dummy", "_dummy_encode", "dummy_encode", "flip_signs", "extremal_indices", "sign_change", "_sign_change_1d", "_sign_change_2d")])

    def fac(rng, i):
        import scipy.sparse as sps
        n = [1, 3, 6, 10][i]
        A = rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < 0.5)
        A = sps.csc_matrix(A @ A.T + np.eye(n) * n)
        B = A.toarray()
        b = rng.normal(size=n)
        A2 = (A * 2 + sps.eye(n)).tocsc()
        G = sps.csc_matrix(np.c_[np.eye(n), rng.normal(size=(n, 2))])

        def props(nm, f, B):
            yield nm + ": solve", f.solve_A(b), np.linalg.solve(B, b), dict(inputs=dict(A=B))
            P = f.P()
            L = f.L()
            L = L.toarray() if hasattr(L, "toarray") else L
            yield nm + ": P A P' = L L'", L @ L.T, B[np.ix_(P, P)], dict(inputs=dict(A=B))
            yield nm + ": product of D", float(np.prod(f.D())), np.linalg.det(B), dict(rtol=1e-8)
            sg, ld = f.slogdet()
            yield nm + ": log determinant", [float(sg), float(ld)], [1.0, np.linalg.slogdet(B)[1]], dict(rtol=1e-9)
            yield nm + ": permute", f.apply_P(b), b[P]
            yield nm + ": permute back", f.apply_Pt(f.apply_P(b)), b
            iv_ = f.inv()
            yield nm + ": inverse", iv_.toarray() if hasattr(iv_, "toarray") else iv_, np.linalg.inv(B), dict(rtol=1e-8, atol=1e-10)
            yield nm + ": solve with L", f.solve_L(b, use_LDLt_decomposition=False), np.linalg.solve(L, b), dict(rtol=1e-8)
            yield nm + ": solve with L'", f.solve_Lt(b, use_LDLt_decomposition=False), np.linalg.solve(L.T, b), dict(rtol=1e-8)
        f = lo.cholesky(A)
        yield from props("cholesky", f, B)
        f.cholesky_inplace(A2)
        yield from props("refactored", f, A2.toarray())
        g = lo.analyze(A)
        g.cholesky_inplace(A)
        yield from props("analyze", g, B)
        yield from props("shifted", lo.cholesky(A, beta=0.5), B + 0.5 * np.eye(n))
        yield from props("of G G'", lo.cholesky_AAt(G), (G @ G.T).toarray())
        yield from props("dense fallback", lo._DenseCholFactor(A, beta=0.25), B + 0.25 * np.eye(n))
        yield from props("dense fallback of G G'", lo._DenseCholFactor(G, AAt=True), (G @ G.T).toarray())
        Mx = rng.normal(size=(3, n))
        yield "dense times sparse", lo._sparse_post_mult(Mx, A), Mx @ B, dict(inputs=dict(n=n))
    ck.concrete("sparse Cholesky factors", fac, n=4, functions=[LO + f for f in ("cholesky", "cholesky_AAt", "analyze", "_sparse_post_mult")] + [LO + c + "." + m for c in ("_FactorProxy", "_DenseCholFactor") for m in ("L", "D", "P", "apply_P", "apply_Pt", "solve_A", "solve_L", "solve_Lt", "cholesky_inplace", "slogdet", "inv")])
