"""C03 vectorisation and structured matrices"""
import importlib
import itertools
import numpy as np
from vf.sym import SArr

LO = "pystatsm/utilities/linalg_operations.py::"
SM = "pystatsm/utilities/special_mats.py::"


def run(ck):
    lo = importlib.import_module("pystatsm.utilities.linalg_operations")
    sm = importlib.import_module("pystatsm.utilities.special_mats")
    td = lambda M: np.asarray(M.toarray() if hasattr(M, "toarray") else M, dtype=float)

    # specifications by index sets ---------------------------------------------------------
    hv = lambda n: [(r, c) for c in range(n) for r in range(c, n)]
    lhv = lambda n: [t for t in hv(n) if t[0] != t[1]]

    def arr(shape, f):
        A = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            A[ix] = f(*ix)
        return A.view(SArr)

    def symm(v, n, packed=hv, diag=None):
        pos = {}
        for k, (r, c) in enumerate(packed(n)):
            pos[r, c] = pos[c, r] = k
        return arr((n, n), lambda r, c: v[pos[r, c]] if (r, c) in pos else diag)

    def K(p, q):
        """specification: K vec(A) = vec(A') for A p x q"""
        M = np.zeros((p * q, p * q))
        for r in range(p):
            for c in range(q):
                M[r * q + c, c * p + r] = 1
        return M

    def Dm(n):
        M = np.zeros((n * n, len(hv(n))))
        for k, (r, c) in enumerate(hv(n)):
            M[c * n + r, k] = M[r * n + c, k] = 1
        return M

    def Lm(n):
        M = np.zeros((len(hv(n)), n * n))
        for k, (r, c) in enumerate(hv(n)):
            M[k, c * n + r] = 1
        return M

    def Dp(n):
        d = Dm(n)
        return np.linalg.inv(d.T @ d) @ d.T

    vecf = lambda A: [A[r, c] for c in range(A.shape[1]) for r in range(A.shape[0])]

    # ---- vectorisation ------------------------------------------------------------------
    def rect(n, m):
        def body(c, A, x):
            c.eq("vec", lambda: lo.vec(A), lambda: vecf(A))
            c.eq("invec undoes vec", lambda: lo.invec(lo.vec(A), n, m), lambda: A)
            c.eq("vec undoes invec", lambda: lo.vec(lo.invec(x, n, m)), lambda: x)
            c.eq("_vec", lambda: lo._vec(A), lambda: vecf(A))
            c.eq("_invec", lambda: lo._invec(x, n, m), lambda: arr((n, m), lambda r, s: x[s * n + r]))
            c.eq("_invec undoes _vec", lambda: lo._invec(lo._vec(A), n, m), lambda: A)
            c.eq("vdg", lambda: lo.vdg(A), lambda: arr((n * m, n * m), lambda i, j: vecf(A)[i] if i == j else 0))
            c.eq("apply_kmat1", lambda: sm.apply_kmat1(lo.vec(A), n, m), lambda: vecf(A.T))
            c.eq("apply_kmat2", lambda: sm.apply_kmat2(lo.vec(A), n, m), lambda: vecf(A.T))
            c.eq("kmat vec(A) = vec(A')", lambda: sm.kmat(n, m) @ lo.vec(A), lambda: vecf(A.T))
            c.eq("comm_mat vec(A) = vec(A')", lambda: sm.comm_mat(n, m) @ lo.vec(A), lambda: vecf(A.T))
            C = sm.CommutationMatrix(n, m)
            c.eq("CommutationMatrix.apply", lambda: C.apply(lo.vec(A)), lambda: vecf(A.T))
            c.eq("CommutationMatrix.apply_alt", lambda: C.apply_alt(lo.vec(A)), lambda: vecf(A.T))
        return body
    for n, m in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (4, 3), (3, 5)):
        ck.contract("vectorisation of %d x %d matrices" % (n, m), dict(A=((n, m), -3, 3), x=((n * m,), -3, 3)), rect(n, m), n=1,
                    functions=[LO + f for f in ("vec", "invec", "_vec", "_invec", "vdg")] + [SM + f for f in ("apply_kmat1", "apply_kmat2", "_apply_kmat1", "_apply_kmat2", "_kmat", "kmat", "comm_mat", "CommutationMatrix.apply", "CommutationMatrix.apply_alt", "CommutationMatrix._compute_indices")])

    def square(n):
        p, q = len(hv(n)), len(lhv(n))
        dg = [k for k, (r, c) in enumerate(hv(n)) if r == c]
        of = [k for k, (r, c) in enumerate(hv(n)) if r != c]

        def body(c, A, h, l=None):
            S = symm(h, n) if c.sym else np.asarray(symm(h, n), dtype=float)
            half = [A[t] for t in hv(n)]
            for f in ("vech", "_vech", "_vech_nb"):
                c.eq(f, lambda f=f: getattr(lo, f)(A), lambda: half)
            for f in ("invech", "_invech"):
                c.eq(f, lambda f=f: getattr(lo, f)(h), lambda: S)
                c.eq("vech of " + f, lambda f=f: lo.vech(getattr(lo, f)(h)), lambda: h)
                c.eq(f + " of vech", lambda f=f: getattr(lo, f)(lo._vech(S)), lambda: S)
            c.eq("invech_chol", lambda: lo.invech_chol(h), lambda: arr((n, n), lambda r, s: h[hv(n).index((r, s))] if r >= s else 0))
            c.eq("_vec_ndg", lambda: lo._vec_ndg(A), lambda: [A[r, s] for s in range(n) for r in range(n) if r != s])
            E = sm.EliminationMatrix(n)
            c.eq("elimination: lmat", lambda: sm.lmat(n) @ lo.vec(A), lambda: half)
            c.eq("elimination: elim_mat", lambda: sm.elim_mat(n) @ lo.vec(A), lambda: half)
            for f in (sm.apply_lmat1, sm.apply_lmat2, E.apply, E.apply_alt, lambda v: E.app(v)):
                c.eq("elimination without the matrix: %s" % getattr(f, "__qualname__", "app"), lambda f=f: f(lo.vec(A)), lambda: half)
            c.eq("duplication: dmat vech(S) = vec(S)", lambda: sm.dmat(n) @ h, lambda: vecf(S))
            c.eq("inverse duplication: dpmat vec(S) = vech(S)", lambda: sm.dpmat(n) @ lo.vec(S), lambda: h)
            c.eq("dpmat vec(A) = vech of the symmetric part", lambda: sm.dpmat(n) @ lo.vec(A), lambda: [(A[r, s] + A[s, r]) / 2 for r, s in hv(n)])
            c.eq("nmat vec(A) = vec(A + A')", lambda: sm.nmat(n) @ lo.vec(A), lambda: vecf(A + A.T))
            c.eq("pattern_mat_s vec(A) = vec of the symmetric part", lambda: sm.pattern_mat_s(n) @ lo.vec(A), lambda: vecf((A + A.T) / 2))
            c.eq("pattern_mat_d vec(A) = vec(diag A)", lambda: sm.pattern_mat_d(n) @ lo.vec(A), lambda: vecf(arr((n, n), lambda r, s: A[r, s] if r == s else 0)))
            if n > 1:
                c.eq("pattern_mat_c vec(A) = vec of the off-diagonal symmetric part", lambda: sm.pattern_mat_c(n) @ lo.vec(A), lambda: vecf(arr((n, n), lambda r, s: (A[r, s] + A[s, r]) / 2 if r != s else 0)))
            c.eq("pattern_mat_k d = vec(diag(d))", lambda: sm.pattern_mat_k(n) @ A[0], lambda: vecf(arr((n, n), lambda r, s: A[0, r] if r == s else 0)))
            if q:
                low = [A[t] for t in lhv(n)]
                for f in ("vecl", "_vecl", "lower_half_vec"):
                    c.eq(f, lambda f=f: getattr(lo, f)(A), lambda: low)
                C = symm(l, n, lhv, 1)
                for f in ("invecl", "_invecl"):
                    c.eq(f + ": unit diagonal", lambda f=f: getattr(lo, f)(l), lambda: C)
                    c.eq("vecl of " + f, lambda f=f: lo._vecl(getattr(lo, f)(l)), lambda: l)
                    c.eq("vecl (compiled) of " + f, lambda f=f: lo.vecl(getattr(lo, f)(l)), lambda: l)
                c.eq("inv_lower_half_vec", lambda: lo.inv_lower_half_vec(l), lambda: arr((n, n), lambda r, s: l[lhv(n).index((r, s))] if r > s else 0))
                c.eq("strict half of inv_lower_half_vec", lambda: lo.lower_half_vec(lo.inv_lower_half_vec(l)), lambda: l)
                c.eq("lhv_row_norms", lambda: lo.lhv_row_norms(l), lambda: [np.sqrt(1 + sum([l[k] ** 2 for k, (r, s) in enumerate(lhv(n)) if r == i])) for i in range(n)])
        d = dict(A=((n, n), -3, 3), h=((p,), -3, 3))
        if q:
            d["l"] = ((q,), -0.9, 0.9)
        ck.contract("half vectorisation of order %d" % n, d, body, n=1,
                    functions=[LO + f for f in ("vech", "_vech", "_vech_nb", "invech", "_invech", "invech_chol", "_vec_ndg", "_vec_ndg_mask", "vecl", "_vecl", "lower_half_vec", "invecl", "_invecl", "inv_lower_half_vec", "lhv_row_norms", "lhv_indices", "lhv_ind_parts")] +
                    [SM + f for f in ("_lmat", "lmat", "elim_mat", "_dmat", "dmat", "dpmat", "nmat", "pattern_mat_s", "pattern_mat_d", "pattern_mat_c", "pattern_mat_k", "apply_lmat1", "apply_lmat2", "_apply_lmat1", "_apply_lmat2", "EliminationMatrix.apply", "EliminationMatrix.apply_alt", "EliminationMatrix.app", "EliminationMatrix._compute_indices")])
    for n in (1, 2, 3, 4, 5):
        square(n)

    # ---- products offered without forming the matrices ------------------------------------
    def prods(n, k):
        p, N = len(hv(n)), n * n

        def body(c, X, Y, Z, W, V):
            D, L, P = Dm(n), Lm(n), Dp(n)
            mm = lambda A, B: np.asarray([[sum([A[i, t] * B[t, j] for t in range(A.shape[1]) if not (isinstance(A[i, t], float) and A[i, t] == 0) and not (isinstance(B[t, j], float) and B[t, j] == 0)]) for j in range(B.shape[1])] for i in range(A.shape[0])], dtype=object).view(SArr)
            E, U, Q = sm.EliminationMatrix(n), sm.DuplicationMatrix(n), sm.DpMatrix(n)
            cp = lambda A: A.copy()
            # X: n^2 x k, Y: k x n^2, Z: n^2 x n^2, W: p x k, V: k x p
            for nm, f in (("apply_lmat1", sm.apply_lmat1), ("apply_lmat2", sm.apply_lmat2), ("EliminationMatrix.apply", E.apply), ("EliminationMatrix.apply_alt", E.apply_alt), ("EliminationMatrix.app pre", E.app)):
                c.eq("L X: " + nm, lambda f=f: f(cp(X)), lambda: mm(L, X))
            for nm, f in (("apply_lmat_post1", sm.apply_lmat_post1), ("EliminationMatrix.apply_post", E.apply_post), ("EliminationMatrix.app post", lambda A: E.app(A, False, True))):
                c.eq("Y L': " + nm, lambda f=f: f(cp(Y)), lambda: mm(Y, L.T))
            c.eq("V L: apply_lmat_post2", lambda: sm.apply_lmat_post2(cp(V), n), lambda: mm(V, L))
            c.eq("V L: EliminationMatrix.apply_post_alt", lambda: E.apply_post_alt(cp(V)), lambda: mm(V, L))
            for nm, f in (("apply_lmat_pre_post1", sm.apply_lmat_pre_post1), ("EliminationMatrix.app both", lambda A: E.app(A, True, True))):
                c.eq("L Z L': " + nm, lambda f=f: f(cp(Z)), lambda: mm(mm(L, Z), L.T))
            for nm, f in (("apply_dmat1", sm.apply_dmat1), ("apply_dmat2_pre", sm.apply_dmat2_pre), ("apply_dmat3", lambda A: sm.apply_dmat3(A, n)), ("DuplicationMatrix.apply", U.apply), ("DuplicationMatrix.apply_pre", U.apply_pre)):
                c.eq("D' X: " + nm, lambda f=f: f(cp(X)), lambda: mm(D.T, X))
            c.eq("D W: apply_dmat2_pre", lambda: sm.apply_dmat2_pre(cp(W), n, transpose=False), lambda: mm(D, W))
            c.eq("D W: DuplicationMatrix.apply_pre", lambda: U.apply_pre(cp(W), transpose=False), lambda: mm(D, W))
            for nm, f in (("apply_dmat1", lambda A: sm.apply_dmat1(A, n, pre_mult=False, post_mult=True)), ("apply_dmat2_post", lambda A: sm.apply_dmat2_post(A, transpose=False)), ("apply_dmat3", lambda A: sm.apply_dmat3(A, pre_mult=False, post_mult=True)),
                          ("DuplicationMatrix.apply", lambda A: U.apply(A, False, True)), ("DuplicationMatrix.apply_post", U.apply_post)):
                c.eq("Y D: " + nm, lambda f=f: f(cp(Y)), lambda: mm(Y, D))
            c.eq("V D': apply_dmat2_post", lambda: sm.apply_dmat2_post(cp(V), n), lambda: mm(V, D.T))
            c.eq("V D': DuplicationMatrix.apply_post", lambda: U.apply_post(cp(V), transpose=False), lambda: mm(V, D.T))
            for nm, f in (("apply_dmat1", lambda A: sm.apply_dmat1(A, post_mult=True)), ("apply_dmat2_pre_post", sm.apply_dmat2_pre_post), ("apply_dmat3", lambda A: sm.apply_dmat3(A, post_mult=True)), ("DuplicationMatrix.apply", lambda A: U.apply(A, True, True)), ("DuplicationMatrix.apply_pre_post", U.apply_pre_post)):
                c.eq("D' Z D: " + nm, lambda f=f: f(cp(Z)), lambda: mm(mm(D.T, Z), D))
            c.eq("D+ X: DpMatrix.apply", lambda: Q.apply(cp(X)), lambda: mm(P, X))
            c.eq("Y D+': DpMatrix.apply", lambda: Q.apply(cp(Y), False, True), lambda: mm(Y, P.T))
            c.eq("D+ Z D+': DpMatrix.apply", lambda: Q.apply(cp(Z), True, True), lambda: mm(mm(P, Z), P.T))
        ck.contract("products of order %d" % n, dict(X=((N, k), -2, 2), Y=((k, N), -2, 2), Z=((N, N), -2, 2), W=((p, k), -2, 2), V=((k, p), -2, 2)), body, n=1,
                    functions=[SM + f for f in ("apply_lmat1", "apply_lmat2", "apply_lmat_post1", "apply_lmat_post2", "apply_lmat_pre_post1", "_apply_lmat_post1", "_apply_lmat_post2", "_apply_lmat_pre_post1", "apply_dmat1", "_apply_dmat1", "apply_dmat2_pre", "_apply_dmat2_pre", "apply_dmat2_post", "_apply_dmat2_post", "apply_dmat2_pre_post", "_apply_dmat2_pre_post", "apply_dmat3", "_apply_dmat3",
                                                "EliminationMatrix.apply_post", "EliminationMatrix.apply_post_alt", "EliminationMatrix.app", "DuplicationMatrix.apply", "DuplicationMatrix.apply_pre", "DuplicationMatrix.apply_post", "DuplicationMatrix.apply_pre_post", "DuplicationMatrix._compute_indices", "DpMatrix.apply", "DpMatrix._compute_indices")])
    for n, k in ((1, 2), (2, 3), (3, 2)):
        prods(n, k)

    def kvec(c, A, B):
        (n, p), (q, r) = A.shape, B.shape
        M = sm.kronvec_mat((n, p), (q, r))
        kk = np.array([[A[i // q, j // r] * B[i % q, j % r] for j in range(p * r)] for i in range(n * q)], dtype=object)
        vv = np.array([a * b for a in vecf(A) for b in vecf(B)], dtype=object).view(SArr) if c.sym else np.kron(A.reshape(-1, order="F"), B.reshape(-1, order="F"))
        c.eq("vec of a Kronecker product", lambda: M @ vv, lambda: [kk[i, j] for j in range(p * r) for i in range(n * q)])
    for a, b in (((1, 1), (1, 1)), ((2, 3), (3, 2)), ((2, 2), (2, 2)), ((3, 1), (2, 4)), ((1, 3), (3, 1))):
        ck.contract("Kronecker vectorisation %s %s" % (a, b), dict(A=(a, -2, 2), B=(b, -2, 2)), kvec, n=1, functions=[SM + "kronvec_mat"])

    def d2(n):
        def body(c, A, h):
            half = np.zeros((n, n)).astype(object)
            for k, t in enumerate(hv(n)):
                half[t] = h[k]
            Lw = half.view(SArr) if c.sym else half.astype(float)
            for nm, f in (("make_mats", sm.make_mats), ("make_mats2", sm.make_mats2)):
                o = []

                def get(i, f=f, o=o):
                    if not o:
                        o.append(f(n))
                    return o[0][i]
                c.eq(nm + ": vech(A + A')", lambda: get(0) @ lo.vec(A), lambda: [A[r, s] + A[s, r] for r, s in hv(n)])
                c.near(nm + ": identity", lambda: td(get(1)), np.eye(n))
                c.eq(nm + ": elimination", lambda: get(2) @ lo.vec(A), lambda: [A[t] for t in hv(n)])
                # the derivative of vech(L L') is LN (L (x) I) E'; D2 maps vech(L) to the rows of that derivative's second differential:
                c.near(nm + ": second derivative of vech(LL')", lambda: td(get(3)), lambda: d2spec(n))
        return body

    def d2spec(n):
        """second derivative of vech(LL') in vech(L), stacked as the library stacks it: row (k, i), column j"""
        p = len(hv(n))
        H = np.zeros((p, p, p))
        for i, (r, s) in enumerate(hv(n)):
            for j, (u, v) in enumerate(hv(n)):
                Ei, Ej = np.zeros((n, n)), np.zeros((n, n))
                Ei[r, s], Ej[u, v] = 1, 1
                M = Ei @ Ej.T + Ej @ Ei.T
                for k, t in enumerate(hv(n)):
                    H[k, i, j] = M[t]
        return STACK(H)
    STACK = lambda H: H.transpose(1, 0, 2).reshape(H.shape[0] ** 2, H.shape[0])
    for n in (1, 2, 3):
        ck.contract("derivative matrices of order %d" % n, dict(A=((n, n), -2, 2), h=((len(hv(n)),), -2, 2)), d2(n), n=1, functions=[SM + "make_mats", SM + "make_mats2"],
                    extra=lambda: ((sm, "sparse_kron", lambda A, B: importlib.import_module("scipy.sparse").csc_array(np.kron(td(A), td(B)))),))  # contract of sparse_kron: C01

    # ---- exact matrices at larger sizes, batches, layouts: bounded -------------------------
    def mats(rng, i):
        for q in range(1, 9):
            p = i
            I = dict(rtol=0, atol=0, inputs=dict(p=p, q=q))
            yield "kmat", td(sm.kmat(p, q)), K(p, q), I
            yield "comm_mat", td(sm.comm_mat(p, q)), K(p, q), I
            yield "kmat applied to an integer array", sm.apply_kmat1(np.arange(p * q), p, q), K(p, q) @ np.arange(p * q), I
        n = i
        I = dict(rtol=0, atol=0, inputs=dict(n=n))
        yield "lmat", td(sm.lmat(n)), Lm(n), I
        yield "elim_mat", td(sm.elim_mat(n)), Lm(n), I
        yield "dmat", td(sm.dmat(n)), Dm(n), I
        yield "dpmat", td(sm.dpmat(n)), Dp(n), dict(atol=1e-12, inputs=dict(n=n))
        yield "nmat", td(sm.nmat(n)), K(n, n) + np.eye(n * n), I
        if n <= 6:
            yield "pattern_mat_s", td(sm.pattern_mat_s(n)), (K(n, n) + np.eye(n * n)) / 2, I
            dd = np.diag(np.eye(n).reshape(-1))
            yield "pattern_mat_d", td(sm.pattern_mat_d(n)), dd, I
            if n > 1:
                yield "pattern_mat_c", td(sm.pattern_mat_c(n)), (K(n, n) + np.eye(n * n)) / 2 - dd, I
        yield "pattern_mat_k", td(sm.pattern_mat_k(n)), np.eye(n * n)[:, ::n + 1], I
        for o in range(1, 4):
            if n > o:
                x = rng.normal(size=n)
                yield "difference matrix", sm.difference_mat(n, o) @ x, np.diff(x, o), dict(atol=1e-12, inputs=dict(n=n, order=o))
        j, k = lo.lhv_indices((n, n))
        yield "lhv_indices", list(zip(j.tolist(), k.tolist())), lhv(n), I
        j, k = lo.hv_indices((n, n))
        yield "hv_indices", list(zip(j.tolist(), k.tolist())), hv(n), I
        for k in (-2, -1, 0, 1):
            yield "_vec_tril_mask", lo._vec_tril_mask(n, k), [c - r <= k for c in range(n) for r in range(n)], I
        yield "_vec_ndg_mask", lo._vec_ndg_mask(n), [c != r for c in range(n) for r in range(n)], I
        yield "lhv_ind_parts", lo.lhv_ind_parts(n), [(t * (t - 1) // 2, t * (t + 1) // 2) for t in range(1, n)], I
    ck.concrete("structured matrices", lambda rng, i: mats(rng, i + 1), n=10, functions=[SM + "difference_mat", LO + "hv_indices", LO + "_vec_tril_mask"])

    def batch(rng, i):
        n, m = [(2, 3), (3, 3), (1, 4), (4, 2), (5, 5), (7, 7)][i]
        for lead in ((), (2,), (3, 1), (2, 3, 2)):
            for layout in ("C", "F"):
                A = np.array(rng.normal(size=lead + (n, m)), order=layout)
                I = dict(rtol=0, atol=0, inputs=dict(shape=A.shape, layout=layout))
                st = np.swapaxes(A, -1, -2).reshape(lead + (n * m,), order="C")
                yield "stacks of matrices: _vec", lo._vec(A), st, I
                yield "stacks of vectors: _invec", lo._invec(np.array(st, order=layout), n, m), A, I
                if n == m:
                    h = np.stack([A[..., r, c] for r, c in hv(n)], -1)
                    S = A.copy()
                    for r, c in hv(n):
                        S[..., c, r] = S[..., r, c]
                    yield "stacks: _vech", lo._vech(A), h, I
                    yield "stacks: _invech", lo._invech(h), S, I
                    if n > 1:
                        l = np.stack([A[..., r, c] for r, c in lhv(n)], -1)
                        C = S.copy()
                        C[..., np.arange(n), np.arange(n)] = 1
                        yield "stacks: _vecl", lo._vecl(A), l, I
                        yield "stacks: _invecl", lo._invecl(l), C, I
                        yield "stacks: lower_half_vec", lo.lower_half_vec(A), l, I
                        yield "stacks: inv_lower_half_vec", lo.inv_lower_half_vec(l), np.tril(A, -1), I
                    if not lead:
                        yield "vech", lo.vech(A), h, I
                        yield "_vech_nb", lo._vech_nb(A), h, I
                        yield "invech", lo.invech(h), S, dict(atol=1e-14, inputs=I["inputs"])
                        yield "invech_chol", lo.invech_chol(h), np.tril(A), I
                        if n > 1:
                            yield "vecl", lo.vecl(A), l, I
                            yield "invecl", lo.invecl(l), C, dict(atol=1e-14, inputs=I["inputs"])
                    T = rng.normal(size=lead + (n * n, n * n))
                    D = Dm(n)
                    yield "stacks: D' T D (apply_dmat3)", sm.apply_dmat3(T, post_mult=True), D.T @ T @ D, dict(atol=1e-12, inputs=I["inputs"])
        bl = [rng.normal(size=(int(a), int(b))) for a, b in rng.integers(1, 4, size=(3, 2))]
        R = np.zeros((sum(b.shape[0] for b in bl), sum(b.shape[1] for b in bl)))
        r = c = 0
        for b in bl:
            R[r:r + b.shape[0], c:c + b.shape[1]] = b
            r, c = r + b.shape[0], c + b.shape[1]
        yield "block diagonal", lo.gb_diag(*bl), R
        S3 = [rng.normal(size=(2, 1, 2)), rng.normal(size=(1, 3, 2))]
        R3 = np.zeros((3, 4, 4))
        R3[:2, :1, :2], R3[2:, 1:, 2:] = S3
        yield "block diagonal of three-way arrays", lo.gb_diag(*S3), R3
    ck.concrete("stacked and strided arrays", batch, n=6, functions=[LO + "gb_diag"])
