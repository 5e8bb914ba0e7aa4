"""C15 factor analysis: discrepancy derivatives, rotation criteria, Cayley map, rotations, identification constraints, inference, alignment"""
import importlib
import itertools
import numpy as np
from vf.core import D, jac, hess, substitute
from vf.sym import F, SArr

FA = "pystatsm/pyfa2/"
WARM = ("Cayley map, order 2",)


def obj(a):
    return np.array(a, dtype=object).view(SArr)


def vecF(A):
    return np.asarray(A).reshape(-1, order="F")


def lower(m, k=0):
    """column by column lower triangle"""
    return [(i, j) for j in range(m) for i in range(j + (k < 0), m)]


def skew(t, m):
    S = np.zeros((m, m), dtype=object)
    for (i, j), v in zip(lower(m, -1), t):
        S[i, j] = v
        S[j, i] = -v
    return S


def sigma_spec(L, Phi, psi):
    p, m = np.shape(L)
    return np.array([[sum(L[i, a] * Phi[a, b] * L[j, b] for a in range(m) for b in range(m)) + (psi[i] if i == j else 0) for j in range(p)] for i in range(p)], dtype=object)


def phi_of(v, m):
    P = np.eye(m, dtype=object)
    for (i, j), x in zip(lower(m, -1), v):
        P[i, j] = P[j, i] = x
    return P


def gcf_spec(method, L):
    """Crawford-Ferguson: (1-k) row complexity + k column complexity"""
    p, m = np.shape(L)
    k = {"quartimax": 0, "varimax": 1 / p, "equamax": m / (2 * p), "parsimax": (m - 1) / (p + m - 2)}[method]
    B = [[L[i, j] * L[i, j] for j in range(m)] for i in range(p)]
    rows = sum(B[i][j] * B[i][l] for i in range(p) for j in range(m) for l in range(m) if j != l)
    cols = sum(B[i][j] * B[l][j] for j in range(m) for i in range(p) for l in range(p) if i != l)
    return ((1 - k) * rows + k * cols) / 4


def run(ck):
    cy = importlib.import_module("pystatsm.pyfa2.cayley")
    cr = importlib.import_module("pystatsm.pyfa2.criterion")
    ro = importlib.import_module("pystatsm.pyfa2.rotation")
    so = importlib.import_module("pystatsm.pyfa2.solvers")
    idn = importlib.import_module("pystatsm.pyfa2.identification")
    inf = importlib.import_module("pystatsm.pyfa2.inference")
    lay = importlib.import_module("pystatsm.pyfa2.layout")
    al = importlib.import_module("pystatsm.pyfa2.alignment")
    sm = importlib.import_module("pystatsm.pyfa2.simulation")
    lk = importlib.import_module("pystatsm.pyfa2.likelihood")
    METHODS = ("varimax", "quartimax", "equamax", "parsimax")

    # ---- Cayley map -------------------------------------------------------------------------
    for m in (2, 3, 4):
        n = m * (m - 1) // 2

        def cay(c, t, G, m=m, n=n):
            c.eq("skew matrix of a vector", lambda: cy.vec_to_skew(t, m), lambda: skew(t, m))
            c.eq("vector of a skew matrix", lambda: cy.skew_to_vec(skew(t, m)), lambda: t)
            c.eq("stacked vectors", lambda: cy.vec_to_skew(np.stack([t, 2 * t]), m), lambda: np.stack([skew(t, m), skew(2 * t, m)]))
            Q = cy.vec_to_rot(t, m)
            I = np.eye(m)
            c.eq("definition", lambda: (I + skew(t, m)) @ Q, lambda: I - skew(t, m))
            c.eq("orthogonal", lambda: Q.T @ Q, lambda: I)
            if m < 4:
                c.eq("proper", lambda: F.det(Q) if c.sym else np.linalg.det(Q), lambda: 1.0)
                c.eq("the map is its own inverse", lambda: cy.cayley_inverse(Q), lambda: skew(t, m))
                c.eq("back to the vector", lambda: cy.rot_to_vec(Q), lambda: t)
            G_ = G.reshape(m, m)
            r = ro.OrthoRotation(m)
            c.eq("unconstrained to rotation", lambda: r.unconstrained_to_rotation(t), lambda: Q)
            if m < 4:
                c.eq("rotation to unconstrained", lambda: r.rotation_to_unconstrained(Q), lambda: t)
                c.eq("gradient in the unconstrained coordinates", lambda: r.d_rotation(t, G_), lambda: [D(np.sum(G_ * cy.vec_to_rot(t, m)), s) for s in t])
        ck.contract("Cayley map, order %d" % m, dict(t=((n,), -1, 1), G=((m * m,), -1, 1)), cay, n=2, flips=0,
                    functions=[FA + "cayley.py::" + f for f in ("vec_to_skew", "skew_to_vec", "cayley", "vec_to_rot", "rot_to_vec", "constraint_factor")] +
                    [FA + "rotation.py::OrthoRotation." + f for f in ("unconstrained_to_rotation", "rotation_to_unconstrained", "d_rotation")])

    # ---- criteria -------------------------------------------------------------------------------
    for meth, (p, m) in itertools.product(METHODS, ((2, 2), (3, 2), (3, 3), (4, 2))):
        def crit(c, L, Y, meth=meth, p=p, m=m):
            q = cr.GCFCriterion(meth, p, m)
            Lm = L.reshape(p, m)
            v = [L[i * m + j] for j in range(m) for i in range(p)]
            c.eq("criterion is the Crawford-Ferguson criterion of that name", lambda: q.Q(Lm), lambda: gcf_spec(meth, Lm))
            c.eq("first derivative", lambda: vecF(q.dQ(Lm)), lambda: [D(gcf_spec(meth, Lm), s) for s in v])
            H = lambda: hess(gcf_spec(meth, Lm), v)
            c.eq("second derivative", lambda: q.d2Q(Lm), H)
            y = Y[:p * m]
            c.eq("second derivative applied to a vector", lambda: q.d2Q_apply(Lm, y), lambda: np.asarray(H()) @ y)
            Y2 = Y.reshape(2, p * m).T
            c.eq("second derivative applied to a matrix", lambda: q.d2Q_apply(Lm, Y2), lambda: np.asarray(H()) @ Y2)
        ck.contract("%s criterion %dx%d" % (meth, p, m), dict(L=((p * m,), -1, 1), Y=((2 * p * m,), -1, 1)), crit, n=2, flips=0,
                    functions=[FA + "criterion.py::" + f for f in ("_gcf_constants", "GCFCriterion.Q", "GCFCriterion.dQ", "GCFCriterion.d2Q_apply", "GCFCriterion.d2Q")])

    def general(c, L, k, y):
        q = cr.GCFCriterion("varimax", 3, 2)
        q.k1, q.k2, q.k3, q.k4 = k
        Lm = L.reshape(3, 2)
        v = [L[i * 2 + j] for j in range(2) for i in range(3)]
        B = Lm * Lm

        def Q():
            return (k[0] * np.sum(B) ** 2 + k[1] * sum(np.sum(B[i]) ** 2 for i in range(3)) + k[2] * sum(np.sum(B[:, j]) ** 2 for j in range(2)) + k[3] * np.sum(B * B)) / 4
        c.eq("criterion", lambda: q.Q(Lm), Q)
        c.eq("first derivative", lambda: vecF(q.dQ(Lm)), lambda: [D(q.Q(Lm), s) for s in v])
        c.eq("second derivative applied", lambda: q.d2Q_apply(Lm, y), lambda: np.asarray(hess(q.Q(Lm), v)) @ y)
    ck.contract("general Crawford-Ferguson weights", dict(L=((6,), -1, 1), k=((4,), 0.2, 1), y=((6,), -1, 1)), general, n=2, flips=0, functions=[FA + "criterion.py::GCFCriterion"])

    def target(c, L, H, W, Y):
        v = [L[i * 2 + j] for j in range(2) for i in range(3)]
        Lm, Hm, Wm = (a.reshape(3, 2) for a in (L, H, W))
        for nm, q, w in (("weighted", cr.TargetCriterion(Hm, Wm), Wm), ("plain", cr.TargetCriterion(Hm), np.ones((3, 2)))):
            c.eq(nm + " criterion", lambda: q.Q(Lm), lambda: sum(w[i, j] * (Lm[i, j] - Hm[i, j]) ** 2 for i in range(3) for j in range(2)) / 2)
            c.eq(nm + " first derivative", lambda: vecF(q.dQ(Lm)), lambda: [D(q.Q(Lm), s) for s in v])
            HH = lambda: np.asarray(hess(q.Q(Lm), v))
            c.eq(nm + " second derivative", lambda: q.d2Q(Lm), HH)
            c.eq(nm + " second derivative applied to a vector", lambda: q.d2Q_apply(Lm, Y[:6]), lambda: HH() @ Y[:6])
            c.eq(nm + " second derivative applied to a matrix", lambda: q.d2Q_apply(Lm, Y.reshape(6, 2)), lambda: HH() @ Y.reshape(6, 2))
    ck.contract("target criterion", dict(L=((6,), -1, 1), H=((6,), -1, 1), W=((6,), 0, 2), Y=((12,), -1, 1)), target, n=2, flips=0,
                functions=[FA + "criterion.py::TargetCriterion." + f for f in ("__init__", "Q", "dQ", "d2Q_apply", "d2Q")])

    # ---- discrepancy ----------------------------------------------------------------------------
    def est_of(c, S, m):
        if not c.sym:
            return lk.MLEstimator(np.asarray(S, dtype=float), m)
        e = object.__new__(lk.MLEstimator)
        e.S, e.p, e.m, e.r, e.layout = obj(S), len(S), m, len(S) - m, lay.ParamLayout(len(S), m)
        return e

    def sym_of(s, p):
        A = np.empty((p, p), dtype=object)
        for (i, j), v in zip(lower(p), s):
            A[i, j] = A[j, i] = v
        return A

    def theta_of(l, f, psi, p, m):
        """stacked parameters and the matrices they stand for"""
        L = np.array([[l[j * p + i] for j in range(m)] for i in range(p)], dtype=object)
        return np.concatenate([l, f, psi]), L, phi_of(f, m), psi

    def data(p, m):
        def draw(rng):
            return rng.uniform(-0.3, 0.3, p * (p + 1) // 2) + vech_eye(p)
        return draw

    def vech_eye(p):
        return np.array([float(i == j) for i, j in lower(p)])

    LFN = [FA + "likelihood.py::" + f for f in ("_Workspace", "MLEstimator._sigma_parts", "MLEstimator._F_inner", "MLEstimator._grad_inner", "MLEstimator._dsigma_inner", "MLEstimator._hessian_inner",
                                                 "MLEstimator._score_jacobian_inner", "MLEstimator._meat_inner", "MLEstimator.sigma", "MLEstimator.F", "MLEstimator.grad", "MLEstimator.hessian", "MLEstimator.dsigma")] + \
        [FA + "layout.py::ParamLayout"]
    for p, m in ((2, 1), (2, 2), (3, 1), (3, 2)):
        ns = m * (m - 1) // 2

        def disc(c, l, f, psi, s, p=p, m=m, ns=ns):
            th, L, Phi, ps = theta_of(l, f, psi, p, m)
            S_ = sym_of(s, p)
            e = est_of(c, S_, m)
            if not c.sym:
                th, L, Phi = np.asarray(th, dtype=float), np.asarray(L, dtype=float), np.asarray(Phi, dtype=float)
            else:
                th, L, Phi = obj(th), obj(L), obj(Phi)
            y = e.layout
            a = y.unpack(th)
            c.eq("unpacked loadings", lambda: a[0], lambda: L)
            c.eq("unpacked factor correlations", lambda: a[1], lambda: Phi)
            c.eq("unpacked uniquenesses", lambda: a[2], lambda: ps)
            if not c.sym:
                c.eq("pack", lambda: y.pack(L, Phi, ps), lambda: th)
                c.eq("pack a diagonal matrix", lambda: y.pack(L, Phi, np.diag(ps)), lambda: th)
            Sig = sigma_spec(L, Phi, ps)
            c.eq("implied covariance", lambda: e.sigma(th), lambda: Sig)
            Fx = lambda: np.log(F.det(obj(Sig))) + np.sum(F.inv(obj(Sig)) * S_)
            c.eq("discrepancy", lambda: e.F(th), Fx)
            c.eq("Jacobian of the implied covariance", lambda: e.dsigma(th), lambda: [[[D(Sig[i, j], t) for j in range(p)] for i in range(p)] for t in th])
            c.eq("gradient", lambda: e.grad(th), lambda: [D(Fx(), t) for t in th])
        ck.contract("discrepancy and gradient, %d variables %d factors" % (p, m), dict(l=((p * m,), 0.2, 0.9), f=((ns,), -0.4, 0.4), psi=((p,), 0.4, 1), s=data(p, m)), disc, n=2, flips=0, functions=LFN)

    # the implied covariance and its inverse under contract: symmetric matrices with derivatives dSigma/dt (proved above) and -P dSigma/dt P
    for p, m in ((2, 1), (3, 1), (3, 2), (3, 3), (4, 2)):
        ns = m * (m - 1) // 2

        def hes(c, l, f, psi, s, q, b, z, p=p, m=m, ns=ns):
            th, L, Phi, ps = theta_of(l, f, psi, p, m)
            th, S_, P = obj(th), obj(sym_of(s, p)), obj(sym_of(q, p))
            e = est_of(c, S_, m)
            if not c.sym:
                return
            Sig = obj(sigma_spec(L, Phi, ps))
            dS = [obj([[D(Sig[i, j], t) for j in range(p)] for i in range(p)]) for t in th]
            ws = e.workspace(th)
            ws.__dict__["Sinv"] = P
            Z = obj(sym_of(z, p))
            ws.__dict__["parts"] = ws.parts[:4] + (Z,)
            R = P @ (Z - S_) @ P
            g = ws.grad()
            c.poly("gradient", lambda: g, lambda: [np.sum(R * d) for d in dS])
            dP = [-(P @ d @ P) for d in dS]
            lo = lower(p)
            tot = lambda x, k: D(x, th[k]) + sum(D(x, P[i, j]) * dP[k][i, j] + D(x, Z[i, j]) * dS[k][i, j] for i, j in lo)
            c.poly("Hessian is the derivative of the gradient", ws.hessian, lambda: [[tot(g[i], k) for k in range(len(th))] for i in range(len(th))])
            c.poly("Jacobian of the gradient in the sample covariance", ws.score_jacobian, lambda: [[D(x, S_[i, j]) for i, j in lo] for x in g])
            V = obj(b[:len(lo) ** 2].reshape(len(lo), len(lo)))
            if p < 4:
                J = obj([[D(x, S_[i, j]) for i, j in lo] for x in g])
                c.poly("middle matrix", lambda: ws.meat(V_S=V), lambda: J @ V @ J.T)
            c.poly("normal-theory middle matrix", lambda: ws.meat(n_obs=7), lambda: [[2 * np.sum((P @ x @ P) * y) / 7 for y in dS] for x in dS])
        ck.contract("Hessian given the inverse covariance, %d variables %d factors" % (p, m),
                    dict(l=((p * m,), 0.2, 0.9), f=((ns,), -0.4, 0.4), psi=((p,), 0.4, 1), s=data(p, m), q=data(p, m), z=data(p, m), b=(((p * (p + 1) // 2) ** 2,), -1, 1)), hes, n=1, flips=0, functions=LFN)

    # ---- concentrated discrepancy -------------------------------------------------------------------
    def conc(c, s, psi):
        e = est_of(c, sym_of(s, 2), 1)
        S_ = sym_of(s, 2)

        def f(ps):
            # smaller eigenvalue of the scaled 2x2 matrix
            w = [S_[0, 0] / ps[0], S_[0, 1] / np.sqrt(ps[0] * ps[1]), S_[1, 1] / ps[1]]
            u = (w[0] + w[2]) / 2 - np.sqrt((w[0] - w[2]) ** 2 / 4 + w[1] * w[1])
            return u - np.log(u) - 1
        c.eq("concentrated discrepancy", lambda: e.loglike_psi(psi), lambda: f(psi))
        c.eq("gradient", lambda: e.grad_psi(psi), lambda: [D(f(psi), t) for t in psi])
        c.eq("Hessian", lambda: e.hess_psi(psi), lambda: hess(f(psi), list(psi)))
        rho = np.log(psi)
        c.eq("discrepancy in log uniquenesses", lambda: e.loglike_exp(rho), lambda: f(psi))
        c.eq("gradient in log uniquenesses", lambda: e.grad_exp(rho), lambda: [t * D(f(psi), t) for t in psi])
        c.eq("Hessian in log uniquenesses", lambda: e.hess_exp(rho), lambda: [[a * D(b * D(f(psi), b), a) for b in psi] for a in psi])
    ck.contract("concentrated discrepancy, 2 variables 1 factor", dict(s=data(2, 1), psi=((2,), 0.3, 0.7)), conc, n=2, flips=0,
                functions=[FA + "likelihood.py::MLEstimator." + f for f in ("loglike_psi", "grad_psi", "hess_psi", "loglike_exp", "grad_exp", "hess_exp")])

    # larger sizes: the spectral decomposition under contract (orthogonal vectors, distinct values, first-order perturbation of a simple spectrum)
    def conc_spec(u, V, psi, r):
        """discrepancy, gradient and Hessian in the uniquenesses from the decomposition of the scaled covariance"""
        p = len(psi)
        f = sum(u[i] - np.log(u[i]) - 1 for i in range(r))
        g = [sum((1 - u[i]) * V[k, i] ** 2 for i in range(r)) / psi[k] for k in range(p)]
        H = np.zeros((p, p), dtype=object)
        for j in range(p):
            for k in range(p):
                h = sum(V[j, i] * V[k, i] * V[j, n] * V[k, n] * ((u[i] + u[n] - 1) if n < r else 2 * u[i] * (u[i] - 1) / (u[i] - u[n])) for i in range(r) for n in range(p))
                H[j, k] = h / (psi[j] * psi[k])
        return f, g, H

    def perturbed(u, V, psi, r):
        """the same Hessian by perturbation theory: dW = -(E W + W E) / (2 psi)"""
        p = len(psi)
        H = np.zeros((p, p), dtype=object)
        for k in range(p):
            for j in range(p):
                for i in range(r):
                    du = -u[i] * V[k, i] ** 2 / psi[k]
                    dv = sum(V[j, n] * (-(u[i] + u[n]) * V[k, n] * V[k, i] / (2 * psi[k])) / (u[i] - u[n]) for n in range(p) if n != i)
                    H[j, k] = H[j, k] + (-du * V[j, i] ** 2 + (1 - u[i]) * 2 * V[j, i] * dv) / psi[j] - ((1 - u[i]) * V[j, i] ** 2 / psi[j] ** 2 if j == k else 0)
        return H

    for p, m in ((2, 1), (3, 1), (3, 2)):
        box = {}

        def spec_body(c, d, t, psi, p=p, m=m, box=box):
            r = p - m
            u = [sum(d[:i + 1]) for i in range(p)]
            if not c.sym:
                V = cy.vec_to_rot(t, p)
                S_ = np.sqrt(np.outer(psi, psi)) * ((V * u) @ V.T)
                S_ = (S_ + S_.T) / 2
                e = lk.MLEstimator(S_, m)
                c.near("loadings reproduce the leading part", lambda: e.loadings_from_psi(psi) @ e.loadings_from_psi(psi).T if u[r] > 1 else 0.0,
                       lambda: np.sqrt(np.outer(psi, psi)) * ((V[:, r:] * (np.array(u[r:]) - 1)) @ V[:, r:].T) if u[r] > 1 else 0.0)
                f, g, H = conc_spec(u, V, psi, r)
                c.near("discrepancy ", lambda: e.loglike_psi(psi), lambda: f)
                c.near("gradient ", lambda: e.grad_psi(psi), lambda: np.array(g, dtype=float))
                c.near("Hessian ", lambda: e.hess_psi(psi), lambda: np.array(H, dtype=float))
                return
            I = np.eye(p)
            V = F.inv(obj(I + skew(t, p))) @ obj(I - skew(t, p))
            u = obj(u)
            e = est_of(c, np.eye(p), m)
            box["uV"] = (u, V)
            f, g, H = conc_spec(u, V, psi, r)
            c.poly("discrepancy", lambda: e.loglike_psi(psi), lambda: f)
            c.poly("gradient", lambda: e.grad_psi(psi), lambda: g)
            c.poly("Hessian", lambda: e.hess_psi(psi), lambda: H)
            c.poly("Hessian by perturbation of the spectrum", lambda: e.hess_psi(psi), lambda: perturbed(u, V, psi, r))
            if p == 2:
                c.poly("gradient in log uniquenesses", lambda: e.grad_exp(np.log(psi)), lambda: [a * b for a, b in zip(g, psi)])
            c.poly("loadings", lambda: e.loadings_from_psi(psi) @ e.loadings_from_psi(psi).T, lambda: [[np.sqrt(psi[a]) * np.sqrt(psi[b]) * sum((u[i] - 1) * V[a, i] * V[b, i] for i in range(r, p)) for b in range(p)] for a in range(p)])
            box.clear()
        fake = lambda box: (lambda A, *a, **k: box["uV"], lambda A, *a, **k: box["uV"][0])
        fe = fake(box)
        dd = lambda rng, p=p, m=m: np.concatenate([rng.uniform(0.3, 0.6, 1), rng.uniform(0.1, 0.3, p - m - 1), rng.uniform(1, 2, 1), rng.uniform(0.3, 1, m - 1)])
        ck.contract("concentrated discrepancy given the spectrum, %d variables %d factors" % (p, m), dict(d=dd, t=((p * (p - 1) // 2,), -0.6, 0.6), psi=((p,), 0.3, 0.9)), spec_body, n=1, flips=0,
                    extra=lambda fe=fe: ((np.linalg, "eigh", fe[0]), (np.linalg, "eigvalsh", fe[1])),
                    functions=[FA + "likelihood.py::MLEstimator." + f for f in ("loglike_psi", "grad_psi", "hess_psi", "loadings_from_psi")])

    # ---- rotations --------------------------------------------------------------------------------------
    RFN = lambda cls: [FA + "rotation.py::%s.%s" % (cls, f) for f in ("rotated_loadings", "implied_corr", "grad", "constraint_project", "constraint_retract", "constraint", "d_constraint", "n_constraints")]
    for p, m in ((2, 2), (3, 2), (3, 3)):
        n = m * (m - 1) // 2
        crits = [("GCF", None)] + [(k, k) for k in METHODS[:2]] + [("target", "target")]
        for nm, kind in crits:
            def mk(kk, H, p=p, m=m, kind=kind):
                if kind == "target":
                    return cr.TargetCriterion(H.reshape(p, m), kk.reshape(p, m))
                q = cr.GCFCriterion(kind or "varimax", p, m)
                if kind is None:
                    q.k1, q.k2, q.k3, q.k4 = kk[:4]
                return q

            def orth(c, a, t, kk, H, G, p=p, m=m, n=n, mk=mk):
                A, q, r = a.reshape(p, m), mk(kk, H), ro.OrthoRotation(m)
                T = G.reshape(m, m)
                Qs = lambda L: q.Q(L)
                c.eq("rotated loadings", lambda: r.rotated_loadings(A, T), lambda: A @ T)
                c.eq("implied correlations", lambda: r.implied_corr(T), lambda: np.eye(m))
                c.eq("gradient of the criterion of rotated loadings", lambda: r.grad(A, T, q.dQ(r.rotated_loadings(A, T))), lambda: [[D(Qs(A @ T), x) for x in row] for row in T])
                R = cy.vec_to_rot(t, m)
                Ar = r.rotated_loadings(A, R)
                c.eq("rotation leaves the implied covariance unchanged", lambda: Ar @ r.implied_corr(R) @ Ar.T, lambda: A @ A.T)
                X = r.constraint_project(R, T)
                c.eq("projected direction is tangent", lambda: R.T @ X + X.T @ R, lambda: np.zeros((m, m)))
                c.eq("projection removes a symmetric part", lambda: R.T @ (T - X), lambda: (R.T @ (T - X)).T)
                # constraint: derivative of the criterion along rotations of the loadings
                lo = lower(m, -1)
                Q_ = lambda: [sum(D(Qs(A), A[i, k]) * A[i, j] - D(Qs(A), A[i, j]) * A[i, k] for i in range(p)) for k, j in lo]
                c.eq("constraint is the derivative along infinitesimal rotations", lambda: r.constraint(A, np.eye(m), q), lambda: [-x for x in Q_()])
                v = [A[i, j] for j in range(m) for i in range(p)]
                dc = lambda: r.d_constraint(A, np.eye(m), q)
                c.eq("Jacobian of the constraint in the loadings", lambda: dc()[0], lambda: [[D(-x, y) for y in v] for x in Q_()])
                c.eq("Jacobian of the constraint in the factor correlations", lambda: dc()[1], lambda: np.zeros((n, n)))
                c.holds("number of constraints", r.n_constraints() == n and r.constraint_dim == n)
                if n == 1 or p == m == 2:
                    s = so.CayleySolver(q, r)
                    c.eq("criterion along the Cayley coordinates", lambda: s._fg(t, A)[0], lambda: Qs(A @ cy.vec_to_rot(t, m)))
                    c.eq("gradient along the Cayley coordinates", lambda: s._fg(t, A)[1], lambda: [D(Qs(A @ cy.vec_to_rot(t, m)), x) for x in t])
            dom = dict(a=((p * m,), -1, 1), t=((n,), -1, 1), kk=((max(4, p * m),), 0.2, 1), H=((p * m,), -1, 1), G=((m * m,), -1, 1))
            ck.contract("orthogonal rotation %dx%d, %s" % (p, m, nm), dom, orth, n=1, flips=0, functions=RFN("OrthoRotation") + [FA + "solvers.py::CayleySolver._fg"])

            def obl(c, a, f, t, kk, H, G, p=p, m=m, n=n, mk=mk):
                A, q, r = a.reshape(p, m), mk(kk, H), ro.ObliqueRotation(m)
                T = np.eye(m) * 1.5 + G.reshape(m, m)
                Gm = t.reshape(m, m)
                Ti = F.inv(obj(T)) if c.sym else np.linalg.inv(T)
                L = r.rotated_loadings(A, T)
                c.eq("rotated loadings", lambda: L @ T.T, lambda: A)
                c.eq("implied correlations", lambda: r.implied_corr(T), lambda: T.T @ T)
                c.eq("rotation leaves the implied covariance unchanged", lambda: L @ r.implied_corr(T) @ L.T, lambda: A @ A.T)
                g = G.reshape(m, m)
                if m < 3:
                    c.eq("gradient of the criterion of rotated loadings", lambda: r.grad(A, T, q.dQ(L)), lambda: [[D(q.Q(A @ F.inv(obj(T)).T), x) for x in row] for row in g])
                if m < 3:
                    c.eq("constraint matrix is the gradient in the frame of the factors", lambda: -Ti @ r.grad(A, T, q.dQ(L)), lambda: (L.T @ q.dQ(L) @ F.inv(obj(T.T @ T))).T)
                U = r.constraint_retract(T)
                c.eq("retraction gives unit columns", lambda: np.sum(U * U, axis=0), lambda: np.ones(m))
                c.eq("retraction keeps directions", lambda: U * np.sqrt(np.sum(T * T, axis=0)), lambda: T)
                X = r.constraint_project(U, Gm)
                c.eq("projected direction keeps unit columns", lambda: np.sum(U * X, axis=0), lambda: np.zeros(m))
                c.eq("projection removes multiples of the columns", lambda: Gm - X, lambda: U * np.sum(U * Gm, axis=0))
                # constraint
                lo = lower(m, -1)
                Phi = phi_of(f, m)
                Phi = obj(Phi) if c.sym else np.asarray(Phi, dtype=float)
                v = [A[i, j] for j in range(m) for i in range(p)]

                def C():
                    dQ = obj([[D(q.Q(A), x) for x in row] for row in A])
                    M = obj(A).T @ dQ @ F.inv(obj(Phi))
                    return [M[i, j] for j in range(m) for i in range(m) if i != j]
                c.eq("constraint: off-diagonal elements of L'dQ/dL Phi^-1", lambda: r.constraint(A, Phi, q), C)
                dc = lambda: r.d_constraint(A, Phi, q)
                c.eq("Jacobian of the constraint in the loadings", lambda: dc()[0], lambda: [[D(x, y) for y in v] for x in C()])
                c.eq("Jacobian of the constraint in the factor correlations", lambda: dc()[1], lambda: [[D(x, y) for y in f] for x in C()])
                c.holds("number of constraints", r.n_constraints() == m * (m - 1))
            dom = dict(a=((p * m,), -1, 1), f=((n,), -0.4, 0.4), t=((m * m,), -1, 1), kk=((max(4, p * m),), 0.2, 1), H=((p * m,), -1, 1), G=((m * m,), -0.3, 0.3))
            ck.contract("oblique rotation %dx%d, %s" % (p, m, nm), dom, obl, n=1, flips=0, functions=RFN("ObliqueRotation") + [FA + "rotation.py::ObliqueRotation._dM_dPhi_stril"])

    # ---- identification, canonical form, inference, alignment -------------------------------------------
    class Rec:
        """criterion and rotation that record what they are given"""
        def __init__(self, p, m):
            self.p, self.m = p, m

    for p, m in ((2, 1), (3, 2), (4, 3)):
        ns = m * (m - 1) // 2

        def can(c, l, f, psi, G, p=p, m=m, ns=ns):
            th, L, Phi, ps = theta_of(l, f, psi, p, m)
            th = obj(th) if c.sym else np.asarray(th, dtype=float)
            k = idn.CanonicalIdentification(p, m)
            C = lambda: [sum(L[a, i] * L[a, j] / ps[a] for a in range(p)) for i, j in lower(m, -1)]
            c.eq("canonical constraint", lambda: k.constraint(th), lambda: np.array(C(), dtype=object).reshape(ns))
            c.eq("its Jacobian", lambda: k.d_constraint(th), lambda: np.array([[D(x, t) for t in th] for x in C()], dtype=object).reshape(ns, len(th)))
            fm = k.free_mask()
            c.holds("free parameters: loadings and uniquenesses", list(np.flatnonzero(~fm)) == list(range(p * m, p * m + ns)) and k.n_constraints() == ns)
            if m > 1:
                for nm, rot in (("orthogonal", ro.OrthoRotation(m)), ("oblique", ro.ObliqueRotation(m))):
                    q = cr.GCFCriterion("varimax", p, m)
                    d = idn.RotationIdentification(rot, q)
                    c.holds(nm + " free parameters", list(np.flatnonzero(~d.free_mask())) == ([] if nm == "oblique" else list(range(p * m, p * m + ns))))
                    c.holds(nm + " number of constraints", d.n_constraints() == (ns if nm == "orthogonal" else 2 * ns))
                    if m == 2:
                        Lm = obj(L) if c.sym else np.asarray(L, dtype=float)
                        Pm = obj(Phi) if c.sym else np.asarray(Phi, dtype=float)
                        c.eq(nm + " constraint of the stacked parameters", lambda: d.constraint(th), lambda: rot.constraint(Lm, Pm, q))
                        c.eq(nm + " Jacobian of the constraint of the stacked parameters", lambda: d.d_constraint(th), lambda: [[D(x, t) for t in th] for x in rot.constraint(Lm, Pm, q)])
        ck.contract("identification constraints, %d variables %d factors" % (p, m), dict(l=((p * m,), 0.2, 0.9), f=((ns,), -0.4, 0.4), psi=((p,), 0.4, 1), G=((4,), -1, 1)), can, n=1, flips=0,
                    functions=[FA + "identification.py::" + f for f in ("CanonicalIdentification.constraint", "CanonicalIdentification.d_constraint", "CanonicalIdentification.free_mask",
                                                                         "RotationIdentification.constraint", "RotationIdentification.d_constraint", "RotationIdentification.free_mask")])

    def infer(c, h, k, b, free=(True, True, False, True)):
        H = obj(sym_of(h, 4)) if c.sym else np.asarray(sym_of(h, 4), dtype=float)
        H = H + 2 * np.eye(4)
        C = k.reshape(1, 4)
        fm = np.array(free)
        ix = np.flatnonzero(fm)
        c.eq("bordered Hessian", lambda: inf.augmented_hessian(H, C), lambda: np.block([[np.asarray(H), np.asarray(C).T], [np.asarray(C), np.zeros((1, 1))]]))
        B = inf.bread(H, C, fm)
        Hf, Cf = H[np.ix_(ix, ix)], C[:, ix]
        c.eq("bread stays on the constraint", lambda: Cf @ B, lambda: np.zeros((1, len(ix))))
        # B H = I - (multiples of the constraint normal): rows orthogonal to the constraint are reproduced
        R = B @ Hf - np.eye(len(ix))
        c.eq("bread inverts the Hessian along the constraint", lambda: [R[:, i] * Cf[0, j] - R[:, j] * Cf[0, i] for i in range(len(ix)) for j in range(len(ix))], lambda: np.zeros((len(ix) ** 2, len(ix))))
        c.eq("bread is symmetric", lambda: B, lambda: B.T)
        c.eq("covariance of the parameters", lambda: inf.param_cov(H, C, fm, 8), lambda: B / 4)
        J = obj(sym_of(b, 4)) if c.sym else np.asarray(sym_of(b, 4), dtype=float)
        c.eq("sandwich covariance", lambda: inf.sandwich_cov(H, C, J, fm), lambda: B @ J[np.ix_(ix, ix)] @ B.T)
        V = np.diag(np.asarray(k) ** 2 + 1)
        c.eq("standard errors", lambda: inf.se_from_cov(V), lambda: np.sqrt(np.asarray(k) ** 2 + 1))
    ck.contract("covariance of constrained estimates", dict(h=((10,), -0.4, 0.4), k=((4,), 0.3, 1), b=((10,), -1, 1)), infer, n=2, flips=0,
                functions=[FA + "inference.py::" + f for f in ("augmented_hessian", "bread", "param_cov", "sandwich_cov", "se_from_cov")])
    ck.contract("covariance of constrained estimates, all free", dict(h=((10,), -0.4, 0.4), k=((4,), 0.3, 1), b=((10,), -1, 1)), lambda c, **k: infer(c, free=(True,) * 4, **k), n=1, flips=0, functions=[FA + "inference.py::bread"])

    def vcov(c, X):
        X = X.reshape(4, 3)
        mean = [sum(X[i, j] for i in range(4)) / 4 for j in range(3)]
        Y = [[(X[r, i] - mean[i]) * (X[r, j] - mean[j]) for i, j in lower(3)] for r in range(4)]
        mu = [sum(y[a] for y in Y) / 4 for a in range(6)]
        c.eq("covariance of the sample covariances", lambda: inf.empirical_cov_vech_S(X), lambda: [[sum((y[a] - mu[a]) * (y[b] - mu[b]) for y in Y) / 12 for b in range(6)] for a in range(6)])
    ck.contract("empirical covariance of sample covariances", dict(X=((12,), -2, 2)), vcov, n=2, flips=0, functions=[FA + "inference.py::empirical_cov_vech_S"])

    PERMS = list(itertools.product(itertools.permutations(range(3)), ((1.0, 1.0, 1.0), (1.0, -1.0, 1.0), (-1.0, -1.0, 1.0))))

    def align_(c, L, f, e, s):
        Lm = L.reshape(3, 3)
        Phi = obj(phi_of(f, 3)) if c.sym else np.asarray(phi_of(f, 3), dtype=float)
        for perm, sg in PERMS:
            pm, sv = np.array(perm), np.array(sg)
            tag = " %s %s" % (perm, sg)
            La, Pa = al.apply(Lm, pm, sv), al.apply_phi(Phi, pm, sv)
            c.eq("reordered loadings" + tag, lambda: La, lambda: [[Lm[i, perm[j]] * sg[j] for j in range(3)] for i in range(3)])
            c.eq("reordered correlations" + tag, lambda: Pa, lambda: [[Phi[perm[i], perm[j]] * sg[i] * sg[j] for j in range(3)] for i in range(3)])
            c.eq("the implied covariance does not change" + tag, lambda: La @ Pa @ La.T, lambda: Lm @ Phi @ Lm.T)
            c.eq("reordered standard errors" + tag, lambda: al.apply_se(Lm, pm), lambda: [[Lm[i, perm[j]] for j in range(3)] for i in range(3)])
            c.eq("reordered standard errors of correlations" + tag, lambda: al.apply_phi_se(Phi, pm), lambda: [[Phi[perm[i], perm[j]] for j in range(3)] for i in range(3)])
    ck.contract("factor alignment", dict(L=((9,), -1, 1), f=((3,), -0.5, 0.5), e=((9,), 0, 1), s=((3,), 0, 1)), align_, n=1, flips=0, functions=[FA + "alignment.py::" + f for f in ("apply", "apply_phi", "apply_se", "apply_phi_se")])

    # ---- run-time contracts ---------------------------------------------------------------------------------
    def numdiff(f, x, h=1e-5):
        x = np.asarray(x, dtype=float)
        out = []
        for i in range(len(x)):
            d = np.zeros(len(x))
            d[i] = h
            out.append((8 * (np.asarray(f(x + d)) - np.asarray(f(x - d))) - (np.asarray(f(x + 2 * d)) - np.asarray(f(x - 2 * d)))) / (12 * h))
        return np.moveaxis(np.array(out), 0, -1)

    def population(rng, p, m, kind="clear"):
        L = 0.2 * rng.normal(size=(p, m))
        for i in range(p):
            L[i, i % m] += rng.uniform(0.6, 1.2) * rng.choice([-1, 1])
        A = rng.normal(size=(m, 2 * m)) + 2 * np.eye(m, 2 * m)
        Phi = A @ A.T
        d = np.sqrt(np.diag(Phi))
        Phi = Phi / np.outer(d, d)
        psi = rng.uniform(0.3, 1.0, p)
        return L, Phi, psi

    def larger(rng, i):
        p, m = [(5, 1), (6, 2), (8, 3), (5, 2), (9, 3), (4, 1), (1, 1), (12, 4)][i % 8]
        L, Phi, psi = population(rng, p, m)
        Sig = L @ Phi @ L.T + np.diag(psi)
        if p == 1:
            S = Sig * 1.3
        else:
            X = rng.multivariate_normal(np.zeros(p), Sig, size=max(60, 6 * p))
            S = np.cov(X, rowvar=False)
        e = lk.MLEstimator(S, m)
        y = e.layout
        th = y.pack(L, Phi, psi)
        inp = dict(inputs=dict(L=L, Phi=Phi, psi=psi, S=S))
        yield "parameter order", th, np.concatenate([vecF(L), [Phi[a, b] for a, b in lower(m, -1)], psi])
        yield "implied covariance", e.sigma(th), Sig
        f = lambda t: (lambda q: np.linalg.slogdet(q)[1] + np.trace(np.linalg.solve(q, S)))(sigma_spec(*[np.asarray(a, dtype=float) for a in (t[:p * m].reshape(m, p).T, phi_of(t[p * m:p * m + y.ns], m), t[p * m + y.ns:])]).astype(float))
        yield "discrepancy", e.F(th), f(th), inp
        fd = lambda a, b: (a, b, dict(rtol=1e-5, atol=1e-5, **inp))
        yield ("gradient",) + fd(e.grad(th), numdiff(e.F, th))
        yield ("Hessian",) + fd(e.hessian(th), numdiff(e.grad, th))
        yield ("Jacobian of the implied covariance",) + fd(e.dsigma(th), np.moveaxis(numdiff(e.sigma, th), -1, 0))
        ws = e.workspace(th)
        order = [("F", lambda: ws.F()), ("grad", lambda: ws.grad()), ("hessian", lambda: ws.hessian()), ("score_jacobian", lambda: ws.score_jacobian()), ("meat", lambda: ws.meat(n_obs=50))]
        for k in rng.permutation(5):
            nm, g = order[k]
            yield "workspace %s" % nm, g(), getattr(e, nm)(th, **({"n_obs": 50} if nm == "meat" else {})), inp

        def with_S(v):
            q = np.zeros((p, p))
            for (a, b), x in zip(lower(p), v):
                q[a, b] = q[b, a] = x
            return lk.MLEstimator(q, m).grad(th)
        s = np.array([S[a, b] for a, b in lower(p)])
        J = numdiff(with_S, s)
        yield ("Jacobian of the gradient in the sample covariance",) + fd(e.score_jacobian(th), J)
        B = rng.normal(size=(len(s), len(s)))
        yield ("middle matrix",) + fd(e.meat(th, V_S=B), J @ B @ J.T)
        G = [x for x in e.dsigma(th)]
        P = np.linalg.inv(Sig)
        yield "normal-theory middle matrix", e.meat(th, n_obs=50), [[2 * np.trace(P @ a @ P @ b) / 50 for b in G] for a in G], inp
        # concentrated discrepancy: value, stationarity in the loadings, derivatives
        if p > 1:
            Lp = e.loadings_from_psi(psi)
            if np.all(np.isfinite(Lp)):
                t2 = y.pack(Lp, np.eye(m), psi)
                yield "concentrated discrepancy", e.loglike_psi(psi), e.F(t2) - np.linalg.slogdet(S)[1] - p, inp
                yield "concentrated loadings are stationary", e.grad(t2)[:p * m], np.zeros(p * m), dict(atol=1e-8, **inp)
                yield "gradient is that of the full discrepancy", e.grad_psi(psi), e.grad(t2)[y.ixr], inp
            for nm, h, x in (("psi", None, psi), ("exp", None, np.log(psi))):
                yield ("concentrated gradient " + nm,) + fd(getattr(e, "grad_" + nm)(x), numdiff(getattr(e, "loglike_" + nm), x))
                yield ("concentrated Hessian " + nm,) + fd(getattr(e, "hess_" + nm)(x), numdiff(getattr(e, "grad_" + nm), x))
            # exactly fitting covariance: the small eigenvalues coincide
            E = lk.MLEstimator(L @ L.T + np.diag(psi), m)
            yield ("Hessian where the model fits exactly",) + (E.hess_psi(psi), numdiff(E.grad_psi, psi, 1e-4), dict(rtol=1e-4, atol=1e-4, inputs=dict(L=L, psi=psi)))
            yield "discrepancy where the model fits exactly", E.loglike_psi(psi), 0.0, dict(atol=1e-9)
            LL = E.loadings_from_psi(psi)
            yield "loadings where the model fits exactly", LL @ LL.T, L @ L.T, dict(atol=1e-8, rtol=1e-6)
    ck.concrete("larger factor models", larger, 24, functions=LFN)

    def fits(rng, i):
        p, m = [(6, 2), (8, 3), (5, 1), (9, 3), (6, 2)][i % 5]
        L, Phi, psi = population(rng, p, m)
        S = L @ L.T + np.diag(psi)
        E = rng.normal(size=(p, 4 * p)) * 0.1
        S = S + 0.3 * E @ E.T
        e = lk.MLEstimator(S, m)
        r = e.fit_psi(options=dict(gtol=1e-8, maxiter=2000))
        if np.min(r["psi"]) > 0.02:
            yield "fitted uniquenesses are stationary", e.grad_exp(np.log(r["psi"])), np.zeros(p), dict(atol=1e-4)
            yield "fitted loadings", r["Lambda"], e.loadings_from_psi(r["psi"])
            t = e.layout.pack(r["Lambda"], np.eye(m), r["psi"])
            yield "fitted parameters are stationary", e.grad(t), np.zeros(len(t)), dict(atol=1e-3)
        k = idn.CanonicalIdentification(p, m)
        A = L @ cy.vec_to_rot(rng.normal(size=m * (m - 1) // 2), m)
        for Psi in (None, psi):
            o = k.fit(A, Psi)
            yield "canonical form keeps the covariance", o["L"] @ o["L"].T, A @ A.T
            yield "canonical rotation", o["T"].T @ o["T"], np.eye(m)
            yield "canonical rotation relates the loadings", o["L"], A @ o["T"]
            th = e.layout.pack(o["L"], o["Phi"], np.ones(p) if Psi is None else psi)
            yield "canonical constraint holds", k.constraint(th), np.zeros(k.n_constraints()), dict(atol=1e-9)
            ev = np.diag((o["L"].T / (1 if Psi is None else psi)) @ o["L"])
            yield "canonical factors in decreasing order", np.sort(ev)[::-1], ev
            yield "canonical eigenvalues", o["info"]["eigvals"], ev
        if m == 1:
            return
        H = np.zeros((p, m))
        H[np.arange(p), np.arange(p) % m] = 1.0
        for crit in [cr.GCFCriterion(METHODS[i % 4], p, m), cr.TargetCriterion(H, rng.uniform(0.5, 1.5, (p, m)))]:
            for rot in (ro.OrthoRotation(m), ro.ObliqueRotation(m)):
                for solver in ("gpa", "cayley"):
                    if solver == "cayley" and rot.phi_free:
                        continue
                    d = idn.RotationIdentification(rot, crit, solver=solver, **(dict(tol=1e-9, n_iters=5000) if solver == "gpa" else dict(options=dict(gtol=1e-10, maxiter=3000))))
                    T0 = None if i % 2 else np.linalg.qr(np.eye(m) + 0.2 * rng.normal(size=(m, m)))[0]
                    if T0 is not None:
                        T0 = T0 * np.sign(np.diag(T0))
                    o = d.fit(A, T0=T0)
                    tag = " (%s %s %s)" % (type(crit).__name__, type(rot).__name__, solver)
                    T = o["T"]
                    yield "rotated loadings" + tag, o["L"] @ (np.eye(m) if not rot.phi_free else T.T), A @ (T if not rot.phi_free else np.eye(m)), dict(atol=1e-8)
                    yield "implied covariance is unchanged" + tag, o["L"] @ o["Phi"] @ o["L"].T, A @ A.T, dict(atol=1e-8)
                    yield "factor correlations" + tag, np.diag(o["Phi"]), np.ones(m), dict(atol=1e-9)
                    if rot.phi_free:
                        yield "factor correlations of the rotation" + tag, o["Phi"], T.T @ T
                    else:
                        yield "proper rotation" + tag, [np.linalg.det(T)], [1.0], dict(atol=1e-8)
                        yield "orthogonal rotation" + tag, T.T @ T, np.eye(m), dict(atol=1e-8)
                    T1 = np.eye(m) if T0 is None else T0
                    start = crit.Q(rot.rotated_loadings(A, T1))
                    yield "criterion does not increase" + tag, float(crit.Q(o["L"]) <= start + 1e-10), 1.0
                    yield "reported criterion" + tag, o["info"]["f"], crit.Q(o["L"]), dict(atol=1e-9)
                    gn = o["info"].get("grad_norm", None)
                    if gn is None or gn < 1e-8:
                        if gn is not None or (o["info"]["opt"].status == 1 and np.max(np.abs(o["info"]["theta"])) < 5):  # gradient tolerance met, away from half turns
                            th = d.layout.pack(o["L"], o["Phi"], psi)
                            yield "constraint holds at a converged rotation" + tag, d.constraint(th), np.zeros(d.n_constraints()), dict(atol=1e-4)
    ck.concrete("fitted, canonical and rotated solutions", fits, 8, functions=[FA + "solvers.py::GPA.solve", FA + "solvers.py::CayleySolver.solve", FA + "identification.py::RotationIdentification.fit",
                                                                                FA + "identification.py::CanonicalIdentification.fit", FA + "likelihood.py::MLEstimator.fit_psi"])

    def retract(rng, i):
        m = 2 + i % 4
        X = rng.normal(size=(m, m))
        r = ro.OrthoRotation(m)
        Q = r.constraint_retract(X)
        yield "orthogonal", Q.T @ Q, np.eye(m)
        yield "proper", [np.linalg.det(Q)], [1.0]
        R = cy.vec_to_rot(rng.normal(size=r.n_c), m)
        yield "rotations stay", r.constraint_retract(R), R
        # nearest rotation: X'Q symmetric for det(X) > 0
        if np.linalg.det(X) > 0:
            yield "nearest rotation", X.T @ Q, Q.T @ X
            for _ in range(5):
                R = cy.vec_to_rot(rng.normal(size=r.n_c), m)
                yield "no rotation is nearer", float(np.linalg.norm(X - Q) <= np.linalg.norm(X - R) + 1e-9), 1.0
        t = rng.normal(size=r.n_c) * 3
        for tt in (t, np.round(t), np.stack([t, 2 * t, -t])):
            Q = cy.vec_to_rot(tt, m)
            yield "Cayley rotations are orthogonal", np.swapaxes(Q, -1, -2) @ Q, np.broadcast_to(np.eye(m), Q.shape), dict(atol=1e-9)
            yield "Cayley rotations are proper", np.linalg.det(Q), np.ones(Q.shape[:-2]), dict(atol=1e-8)
            yield "Cayley map and back", cy.rot_to_vec(Q), tt, dict(atol=1e-6, rtol=1e-6)
    ck.concrete("retraction and Cayley rotations", retract, 24, functions=[FA + "rotation.py::OrthoRotation.constraint_retract", FA + "cayley.py::vec_to_rot"])

    def aligned(rng, i):
        m = 1 + i % 4
        p = m + 3
        Lt = population(rng, p, m)[0]
        perm0, s0 = rng.permutation(m), rng.choice([-1.0, 1.0], m)
        Le = (Lt * s0)[:, perm0] + 0.05 * rng.normal(size=(p, m))
        for norm in (False, True):
            pm, sg = al.align(Le, Lt, normalize=norm)
            yield "alignment recovers order and sign", al.apply(Le, pm, sg), Lt, dict(atol=0.3, rtol=0)
            M = Lt.T @ Le
            if norm:
                M = M / np.outer(np.linalg.norm(Lt, axis=0), np.linalg.norm(Le, axis=0))
            best = max(sum(abs(M[k, q[k]]) for k in range(m)) for q in itertools.permutations(range(m)))
            yield "alignment is the best assignment", sum(abs(M[k, pm[k]]) for k in range(m)), best
            Phi = population(rng, p, m)[1]
            o = al.align_model(Le, Lt, Phi, np.abs(Le), np.abs(Phi), normalize=norm)
            yield "aligned loadings", o["L"], Le[:, pm] * sg
            yield "aligned correlations", o["L"] @ o["Phi"] @ o["L"].T, Le @ Phi @ Le.T
            yield "aligned standard errors", o["L_se"], np.abs(Le)[:, pm]
            yield "aligned standard errors of correlations", o["Phi_se"], np.abs(Phi)[np.ix_(pm, pm)]
            yield "aligned columns point the same way", np.sign(np.sum(o["L"] * Lt, axis=0)), np.ones(m)
    ck.concrete("alignment to a target", aligned, 16, functions=[FA + "alignment.py::align", FA + "alignment.py::align_model"])

    def simul(rng, i):
        p, m = [(6, 2), (7, 3), (5, 1)][i % 3]
        L = sm.generate_loadings(p, m, random=bool(i % 2), rng=rng)
        yield "one loading per variable", np.sum(L != 0, axis=1), np.ones(p)
        Phi = sm.generate_factor_corr(m)
        yield "factor correlations", np.diag(Phi), np.ones(m)
        yield "factor correlations are admissible", float(np.linalg.eigvalsh(Phi).min() > 0), 1.0
        psi = sm.generate_uniquenesses(p, rng=rng)
        for ps in (psi, np.diag(psi)):
            yield "model covariance", sm.FactorModel(L, Phi, ps).Sigma, L @ Phi @ L.T + np.diag(psi)
    ck.concrete("simulated factor models", simul, 6, functions=[FA + "simulation.py::FactorModel"])

    def study(rng, i):
        import contextlib
        import io
        sf = importlib.import_module("pystatsm.pyfa2.sim_factor_model")
        kind = ("ortho", "oblique")[i % 2]
        with contextlib.redirect_stderr(io.StringIO()):
            o = sf.run(6, 2, 400, 2, rotation_kind=kind, seed=i)
        V = o["Vs"]
        yield "covariances are symmetric", V, np.swapaxes(V, 1, 2), dict(atol=1e-10)
        y = lay.ParamLayout(6, 2)
        free = np.ones(y.nt, dtype=bool)
        if kind == "ortho":
            free[y.ixs] = False
        rot = ro.OrthoRotation(2) if kind == "ortho" else ro.ObliqueRotation(2)
        d = idn.RotationIdentification(rot, cr.GCFCriterion("varimax", 6, 2))
        for k in range(2):
            C = d.d_constraint(y.pack(o["L_ests"][k], o["Phi_ests"][k], o["psi_ests"][k]))[:, free]
            yield "aligned covariance respects the constraint at the aligned estimate", C @ V[k], np.zeros((len(C), V.shape[1])), dict(atol=1e-6)
        n = free.sum()
        for perm in itertools.permutations(range(2)):
            for sg in ((1.0, 1.0), (1.0, -1.0)):
                M = sf.alignment_matrix(y, free, np.array(perm), np.array(sg))
                L, Phi, psi = population(rng, 6, 2)
                if kind == "ortho":
                    Phi = np.eye(2)
                a = y.pack(L, Phi, psi)[free]
                b = y.pack(al.apply(L, np.array(perm), np.array(sg)), al.apply_phi(Phi, np.array(perm), np.array(sg)), psi)[free]
                yield "alignment matrix", M @ a, b
        se = np.arange(1.0, n + 1)
        ls, ps, us = sf.unpack_se(se, free, y, kind == "oblique")
        full = np.zeros(y.nt)
        full[free] = se
        yield "standard errors of loadings", vecF(ls), full[y.ixl]
        yield "standard errors of uniquenesses", us, full[y.ixr]
        yield "standard errors of correlations", ps, [[0, full[y.ixs][0]], [full[y.ixs][0], 0]]
    ck.concrete("simulation study", study, 2, functions=[FA + "sim_factor_model.py::run", FA + "sim_factor_model.py::alignment_matrix", FA + "sim_factor_model.py::unpack_se"])
