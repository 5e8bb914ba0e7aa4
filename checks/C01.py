"""C01 sparse-matrix kernels: equal to dense algebra, well-formed output, in bounds, operands untouched"""
import importlib
import itertools
import os
import numpy as np
import scipy.sparse as sps
from vf.cexec import Wrappers

PW = "pystatsm/utilities/python_wrappers.py::"
SRC = "pystatsm/utilities/src/"


class CSC:
    """compressed-column matrix of symbolic entries: the attributes the wrappers use"""

    def __init__(self, arg, shape=None, **k):
        x, i, p = arg
        self.data, self.indices, self.indptr, self.shape = x, i, p, tuple(int(v) for v in shape)

    @property
    def nnz(self):
        return int(self.indptr[-1])

    def copy(self):
        return CSC((self.data.copy(), self.indices.copy(), self.indptr.copy()), self.shape)

    def sort_indices(self):
        for j in range(len(self.indptr) - 1):
            a, b = self.indptr[j], self.indptr[j + 1]
            o = np.argsort(self.indices[a:b], kind="stable")
            self.indices[a:b] = self.indices[a:b][o]
            self.data[a:b] = self.data[a:b][o]

    def eliminate_zeros(self):
        pass


def dense(M, csr=False):
    if isinstance(M, CSC):
        out = np.zeros(M.shape, dtype=object)
        for j in range(M.shape[0 if csr else 1]):
            for k in range(M.indptr[j], M.indptr[j + 1]):
                if csr:
                    out[j, M.indices[k]] = out[j, M.indices[k]] + M.data[k]
                else:
                    out[M.indices[k], j] = out[M.indices[k], j] + M.data[k]
        return out
    return M.toarray() if sps.issparse(M) else np.asarray(M)


def wellformed(M, srt=True):
    p, i = np.asarray(M.indptr), np.asarray(M.indices)
    ok = len(p) == M.shape[1] + 1 and p[0] == 0 and np.all(np.diff(p) >= 0) and p[-1] <= len(i) and p[-1] <= len(M.data)
    if not ok:
        return False
    for j in range(M.shape[1]):
        s = i[p[j]:p[j + 1]]
        if len(s) and (s.min() < 0 or s.max() >= M.shape[0]):
            return False
        if srt and len(s) > 1 and np.any(np.diff(s) <= 0):
            return False
    return True


def pattern(mask, unsorted=False):
    """(indptr, indices, shape) of a 0/1 array"""
    mask = np.asarray(mask)
    ip, ix = [0], []
    for j in range(mask.shape[1]):
        r = list(np.nonzero(mask[:, j])[0])
        ix += r[::-1] if unsorted else r
        ip.append(len(ix))
    return np.array(ip, dtype=np.int32), np.array(ix, dtype=np.int32), mask.shape


def allmasks(r, c):
    for b in itertools.product((0, 1), repeat=r * c):
        yield np.array(b).reshape(r, c)


GUARD = 8


def guarded(v, dtype=float):
    """array holding v inside a larger one whose other cells are watched"""
    v = np.asarray(v)
    big = np.full(len(v) + 2 * GUARD, 77, dtype=v.dtype if dtype is None else dtype)
    big[GUARD:GUARD + len(v)] = v
    return big[GUARD:GUARD + len(v)], big


def unguarded_ok(bigs):
    return all(np.all(b[:GUARD] == 77) and np.all(b[-GUARD:] == 77) for b in bigs)


def run(ck):
    pw = importlib.import_module("pystatsm.utilities.python_wrappers")
    sp = pw.sp.sparse
    repo = os.environ.get("VF_REPO", "/repo")
    W = Wrappers(repo)
    names = [n for n in W.fn if hasattr(pw, n)]
    ck.trust("clang's abstract syntax trees are those of the C sources in setup.py; the C subset is executed by vf/cexec.py (32-bit int arithmetic checked for overflow, doubles as exact elements of a commutative ring)",
             "the .pyx wrappers are translated line by line (types dropped, &X[0] read as a pointer to the first element); Cython and the C compiler are exercised by the run-time contracts")

    def extra():
        e = [(pw, n, W.get(n)) for n in names]
        e += [(sp, "csc_array", CSC), (sp, "csc_matrix", CSC), (sp, "issparse", lambda a: isinstance(a, CSC))]
        return e

    def mat(c, pat, x, arr=True):
        """operand with the given pattern and entries x"""
        ip, ix, shape = pat
        if c.sym:
            return CSC((x[:len(ix)].copy(), ix.copy(), ip.copy()), shape)
        M = (sps.csc_array if arr else sps.csc_matrix)((np.array(x[:len(ix)]), ix.copy(), ip.copy()), shape=shape)
        d, b1 = guarded(M.data, M.data.dtype)
        i, b2 = guarded(M.indices, np.int32)
        p, b3 = guarded(M.indptr, np.int32)
        M.data, M.indices, M.indptr = d, i, p
        M._vf = (b1, b2, b3)
        return M

    def blank(c, pat, val=None):
        """output with the given pattern, entries arbitrary"""
        return mat(c, pat, np.array([99.0] * len(pat[1])) if not c.sym else np.array([99.0] * len(pat[1]), dtype=object))

    def same(a, b):
        return a.shape == b.shape and all(x is y or x == y for x, y in zip(np.ravel(a).tolist(), np.ravel(b).tolist()))

    def op(c, label, call, want, ops=(), out=None, wf=True, srt=True, csr=False):
        """clauses of one call: value, shape, well-formedness, operands untouched, nothing written outside"""
        before = [(M.data.copy(), M.indices.copy(), M.indptr.copy()) if hasattr(M, "indptr") else (np.array(M, copy=True),) for M in ops]
        r = c.eq(label, lambda: (lambda r: dense(r) if hasattr(r, "indptr") else r)(keep(call())), want)
        M = keep.last
        if r is None:
            return
        if wf and hasattr(M, "indptr"):
            c.near(label + ": shape and well-formedness", lambda: (M.shape == np.shape(r), wellformed(M, srt)), (True, True))
        c.near(label + ": operands untouched", lambda: all(same(a, b) for M, bs in zip(ops, before) for a, b in zip((M.data, M.indices, M.indptr) if hasattr(M, "indptr") else (M,), bs)), True)
        c.near(label + ": nothing written around the operands", lambda: all(unguarded_ok(M._vf) for M in list(ops) + [M] if hasattr(M, "_vf")), True)

    class Keep:
        last = None

        def __call__(self, M):
            self.last = M
            return M
    keep = Keep()

    def kronpat(A, B):
        return pattern(np.kron(A, B))

    def num(a):
        return np.array(a, dtype=object) if isinstance(a, np.ndarray) and a.dtype == object else np.asarray(a)

    rng = np.random.default_rng(11)

    def masks(shapes, k):
        """all masks of the first shape, and k random ones of each other shape"""
        out = []
        for r, c in shapes:
            ms = list(allmasks(r, c)) if r * c <= 4 else [(rng.random((r, c)) < p).astype(int) for p in (0.0, 0.3, 0.5, 0.7, 1.0) for _ in range(k)]
            out += ms
        return out
    A22 = list(allmasks(2, 2))
    Bs = masks([(1, 1), (1, 2), (2, 1)], 1) + [np.array(m) for m in ([[1, 0, 1], [0, 1, 1]], [[0, 0, 0], [1, 0, 1]], [[1, 1], [0, 1], [1, 0]], [[0, 0], [0, 0]], [[1, 1], [1, 1]], [[1, 0], [0, 0], [1, 0]], [[0], [1], [1]])]
    As = A22 + [np.array(m) for m in ([[1, 0, 1], [0, 1, 1]], [[1, 1], [0, 1], [1, 0]], [[0, 0, 1]], [[1], [0], [1]], [[1, 1, 0], [0, 0, 0], [1, 0, 1]])]
    V = lambda n: ((n,), -2, 2)
    tag = lambda m: "x".join(map(str, m.shape)) + ":" + "".join(map(str, m.ravel()))
    groups = [Bs[i::4] for i in range(4)]

    def kinds(c, Am, Bm, a, b, uns):
        A, B = mat(c, pattern(Am, uns), a, not uns), mat(c, pattern(Bm, uns), b, uns)
        dA, dB = dense(A), dense(B)
        fA, fB = np.zeros(Am.shape, dtype=dA.dtype, order="F"), np.zeros(Bm.shape, dtype=dB.dtype, order="F")
        fA[...], fB[...] = a[:Am.size].reshape(Am.shape), b[:Bm.size].reshape(Bm.shape)
        return A, B, dA, dB, fA, fB

    for g, Bg in enumerate(groups):
        for h, Ag in enumerate((As[::2], As[1::2])):
            def kron(c, a, b):
                for Am in Ag:
                    for Bm in Bg:
                        for uns in ((False, True) if Am.sum() + Bm.sum() < 6 else (False,)):
                            t = "%s (x) %s%s" % (tag(Am), tag(Bm), " unsorted" if uns else "")
                            A, B, dA, dB, fA, fB = kinds(c, Am, Bm, a, b, uns)
                            srt = not uns
                            op(c, "sparse_kron " + t, lambda: pw.sparse_kron(A, B), lambda: np.kron(num(dA), num(dB)), (A, B), srt=srt)
                            if srt:
                                o = blank(c, kronpat(Am, Bm))
                                op(c, "sparse_kron_inplace " + t, lambda: pw.sparse_kron_inplace(A, B, o), lambda: np.kron(num(dA), num(dB)), (A, B))
                                o2 = blank(c, kronpat(Am, Bm))
                                o2.indices[:], o2.indptr[1:] = 0, 0
                                op(c, "sparse_kron with out " + t, lambda: pw.sparse_kron(A, B, o2), lambda: np.kron(num(dA), num(dB)), (A, B))
                            op(c, "ds_kron " + t, lambda: pw.ds_kron(fA, B), lambda: np.kron(num(fA), num(dB)), (fA, B), srt=srt)
                            op(c, "dense_sparse_kron " + t, lambda: pw.dense_sparse_kron(fA, B), lambda: np.kron(num(fA), num(dB)), (fA, B), srt=srt)
                            op(c, "sparse_dense_kron " + t, lambda: pw.sparse_dense_kron(A, fB), lambda: np.kron(num(dA), num(fB)), (A, fB), srt=srt)
                            if srt:
                                fa, fb = np.ones(Am.shape, int), np.ones(Bm.shape, int)
                                for nm, fn, ops, P, w in (("ds_kron", pw.ds_kron, (fA, B), kronpat(fa, Bm), (fA, dB)), ("sparse_dense_kron", pw.sparse_dense_kron, (A, fB), kronpat(Am, fb), (dA, fB))):
                                    o3 = blank(c, P)
                                    op(c, "%s_inplace %s" % (nm, t), lambda: getattr(pw, nm + "_inplace")(*ops, o3), lambda: np.kron(num(w[0]), num(w[1])), ops)
                                    o4 = blank(c, P)
                                    o4.indices[:], o4.indptr[1:] = 0, 0
                                    op(c, "%s with out %s" % (nm, t), lambda: fn(*ops, o4), lambda: np.kron(num(w[0]), num(w[1])), ops)
                                    o5 = blank(c, P)
                                    c.eq("%s_inplace into an array %s" % (nm, t), lambda: getattr(pw, nm + "_inplace")(*ops, o5.data), lambda: dense(mat(c, P, (lambda D: np.array([D[P[1][k], j] for j in range(P[2][1]) for k in range(P[0][j], P[0][j + 1])], dtype=object))(np.kron(num(w[0]), num(w[1]))), True)).ravel(order="F")[np.nonzero((np.kron(fa, Bm) if nm == "ds_kron" else np.kron(Am, fb)).ravel(order="F"))[0]])
            ck.contract("Kronecker products, group %d%d" % (g, h), dict(a=V(9), b=V(9)), kron, n=1, flips=0, extra=extra,
                        functions=[PW + f for f in ("sparse_kron", "sparse_kron_inplace", "ds_kron", "ds_kron_inplace", "dense_sparse_kron", "sparse_dense_kron", "sparse_dense_kron_inplace", "fully_dense_to_csc")]
                        + [SRC + f for f in ("cs_kron_ss.c::cs_kron_ss", "cs_kron_ss.c::cs_kron_ss_inplace", "cs_kron_ds.c::cs_kron_ds", "cs_kron_ds.c::cs_kron_ds_inplace", "cs_kron_sd.c::cs_kron_sd", "cs_kron_sd.c::cs_kron_sd_inplace")])

    def idk(c, b):
        for Bm in Bs + As:
            for m in (1, 2, 3):
                for uns in (False, True):
                    B = mat(c, pattern(Bm, uns), b)
                    dB = dense(B)
                    t = "%d, %s%s" % (m, tag(Bm), " unsorted" if uns else "")
                    op(c, "id_sp_kron " + t, lambda: pw.id_sp_kron(m, B), lambda: np.kron(np.eye(m, dtype=int), num(dB)), (B,), srt=not uns)
                    if not uns:
                        o = blank(c, kronpat(np.eye(m, dtype=int), Bm))
                        op(c, "id_sp_kron_inplace " + t, lambda: pw.id_sp_kron_inplace(m, B, o), lambda: np.kron(np.eye(m, dtype=int), num(dB)), (B,))
    ck.contract("identity Kronecker products", dict(b=V(9)), idk, n=1, flips=0, extra=extra, functions=[PW + "id_sp_kron", PW + "id_sp_kron_inplace", SRC + "cs_kron_id_sp.c::cs_kron_id_sp", SRC + "cs_kron_id_sp.c::cs_kron_id_sp_inplace"])

    # ---- addition -----------------------------------------------------------------------------
    cplx = lambda c, v, w: v if c.sym else v + 1j * w
    for g in range(4):
        def add(c, a, b, al, be):
            for k, Am in enumerate(A22 + [np.array([[1, 0, 1], [0, 1, 1], [0, 0, 1]]), np.zeros((3, 2), int)]):
                for Bm in (A22[g::4] if Am.shape == (2, 2) else [np.array([[0, 0, 1], [1, 0, 1], [0, 0, 0]])] if Am.shape == (3, 3) else [np.array([[0, 1], [1, 1], [0, 0]])]):
                    for Cm, uns in ((((Am | Bm), False), ((Am | Bm), True), (np.ones_like(Am), False))):
                        t = "%s + %s into %s%s" % (tag(Am), tag(Bm), tag(Cm), " unsorted" if uns else "")
                        A, B = mat(c, pattern(Am), a), mat(c, pattern(Bm, uns), b)
                        dA, dB = dense(A), dense(B)
                        o = blank(c, pattern(Cm))
                        op(c, "cs_add_inplace " + t, lambda: pw.cs_add_inplace(A, B, o, al, be), lambda: num(dA) * al + num(dB) * be, (A, B))
                        if k % 3 == 0:
                            o1 = blank(c, pattern(Cm))
                            op(c, "cs_add_inplace, default multipliers " + t, lambda: pw.cs_add_inplace(A, B, o1), lambda: num(dA) + num(dB), (A, B))
                            A2, B2 = mat(c, pattern(Am), cplx(c, a, 0.3 * b)), mat(c, pattern(Bm, uns), cplx(c, b, a + 1))
                            dA2, dB2 = dense(A2), dense(B2)
                            a2, b2 = (al, be) if c.sym else (al + 0.5j, be - 0.25j)
                            o2 = mat(c, pattern(Cm), np.array([99.0] * 9, dtype=object if c.sym else complex))
                            if c.sym:
                                op(c, "cs_add_inplace_complex " + t, lambda: pw.cs_add_inplace_complex(A2, B2, o2, a2, b2), lambda: num(dA2) * a2 + num(dB2) * b2, (A2, B2))
                            else:
                                c.near("cs_add_inplace_complex, complex entries " + t, lambda: dense(pw.cs_add_inplace_complex(A2, B2, o2, a2, b2)), lambda: dA2 * a2 + dB2 * b2)
        ck.contract("addition, group %d" % g, dict(a=V(9), b=V(9), al=(None, -2, 2), be=(None, -2, 2)), add, n=1, flips=0, extra=extra,
                    functions=[PW + "cs_add_inplace", PW + "cs_add_inplace_complex", SRC + "cs_add_inplace.c::cs_add_inplace", SRC + "cs_add_inplace_complex.c::cs_add_inplace_complex"])

    # ---- products -------------------------------------------------------------------------------
    mm = [(A, B) for A in A22 for B in A22] + [(A, B) for A in (np.array([[1, 0, 1], [0, 1, 1]]), np.array([[1, 1, 0], [1, 0, 0], [0, 1, 0], [1, 1, 1]]), np.array([[0, 1, 0]])) for B in (np.array([[1, 0, 1, 0], [0, 0, 1, 0], [1, 0, 1, 1]]), np.array([[1], [1], [0]]), np.array([[0, 1], [1, 1], [1, 0]]))]
    for g in range(4):
        def mul(c, a, b):
            for Am, Bm in mm[g::4]:
                Cm = ((Am @ Bm) > 0).astype(int)
                for uns in (False, True):
                    for Om in ((Cm, np.ones_like(Cm)) if Am.shape == (2, 2) else (Cm,)):
                        t = "%s * %s into %s%s" % (tag(Am), tag(Bm), tag(Om), " unsorted" if uns else "")
                        A, B = mat(c, pattern(Am, uns), a), mat(c, pattern(Bm, uns), b)
                        dA, dB = dense(A), dense(B)
                        o = blank(c, pattern(Om))
                        op(c, "cs_matmul_inplace " + t, lambda: pw.cs_matmul_inplace(A, B, o), lambda: np.dot(num(dA), num(dB)), (A, B))
                        A2, B2 = mat(c, pattern(Am, uns), cplx(c, a, 0.3 * b)), mat(c, pattern(Bm, uns), cplx(c, b, a + 1))
                        dA2, dB2 = dense(A2), dense(B2)
                        o2 = mat(c, pattern(Om), np.array([99.0] * 16, dtype=object if c.sym else complex))
                        if c.sym:
                            op(c, "cs_matmul_inplace_complex " + t, lambda: pw.cs_matmul_inplace_complex(A2, B2, o2), lambda: np.dot(num(dA2), num(dB2)), (A2, B2))
                        else:
                            c.near("cs_matmul_inplace_complex, complex entries " + t, lambda: dense(pw.cs_matmul_inplace_complex(A2, B2, o2)), lambda: dA2 @ dB2)
        ck.contract("products, group %d" % g, dict(a=V(12), b=V(12)), mul, n=1, flips=0, extra=extra,
                    functions=[PW + "cs_matmul_inplace", PW + "cs_matmul_inplace_complex", SRC + "cs_matmul_inplace.c::cs_matmul_inplace", SRC + "cs_matmul_inplace_complex.c::cs_matmul_inplace_complex"])

    def naive(c, a, b):
        for n, m, k in itertools.product((1, 2, 3), repeat=3):
            A, B = a[:n * m].reshape(n, m).copy(), b[:m * k].reshape(m, k).copy()
            for f in ("naive_matmul_inplace", "naive_matmul_inplace2"):
                op(c, "%s %d %d %d" % (f, n, m, k), lambda: getattr(pw, f)(A, B), lambda: np.dot(A, B), (A, B))
                o = np.full((n, k), 99.0) if not c.sym else np.full((n, k), 99.0, dtype=object)
                op(c, "%s into an array %d %d %d" % (f, n, m, k), lambda: getattr(pw, f)(A, B, o), lambda: np.dot(A, B), (A, B))
                c.near("%s writes into the given array %d %d %d" % (f, n, m, k), lambda: o, lambda: A @ B)
    ck.contract("dense products", dict(a=V(9), b=V(9)), naive, n=1, flips=0, extra=extra,
                functions=[PW + "naive_matmul_inplace", PW + "naive_matmul_inplace2", SRC + "naive_matmul_inplace.c::naive_matmul_inplace", SRC + "naive_matmul_inplace.c::naive_matmul_inplace2"])

    # ---- triplets ---------------------------------------------------------------------------------
    trip = []
    for r, k in ((1, 1), (2, 2), (2, 3), (3, 2)):
        cells = [(i, j) for i in range(r) for j in range(k)]
        for n in range(0, 4):
            ls = list(itertools.permutations(cells, n))
            for s in (ls if len(ls) <= 24 else [ls[i] for i in rng.choice(len(ls), 16, replace=False)]):
                trip.append((r, k, s))
    trip += [(2, 2, ((0, 0), (0, 0), (1, 1))), (3, 2, ((2, 1), (0, 1), (2, 1), (1, 0)))]

    def coo(c, a):
        for r, k, s in trip:
            ri, ci, x = np.array([i for i, _ in s], dtype=int), np.array([j for _, j in s], dtype=int), a[:len(s)].copy()
            D = np.zeros((r, k), dtype=object)
            for (i, j), v in zip(s, x):
                D[i, j] = D[i, j] + v
            t = "%dx%d %s" % (r, k, s)
            op(c, "coo_to_csc " + t, lambda: pw.coo_to_csc(ri, ci, x, (r, k)), lambda: D, (ri, ci, x), srt=False)
            c.eq("coo_to_csc as arrays " + t, lambda: (lambda R: dense(CSC((R[4], R[3], R[2]), R[0])))(pw.coo_to_csc(ri, ci, x, (r, k), return_array=False)), lambda: D)
    ck.contract("triplets to compressed columns", dict(a=V(6)), coo, n=1, flips=0, extra=extra, functions=[PW + "coo_to_csc", SRC + "coo_to_csc.c::coo_to_csc"])

    # ---- dots and traces ----------------------------------------------------------------------------
    def dots(c, a, b, s):
        for n in (1, 2, 3):
            for am in allmasks(n, 1):
                for bm in allmasks(n, 1):
                    A, B = mat(c, pattern(am), a), mat(c, pattern(bm), b)
                    dA, dB = dense(A), dense(B)
                    t = "%s %s" % (tag(am), tag(bm))
                    op(c, "sparse_dot " + t, lambda: pw.sparse_dot(A, B), lambda: sum(num(dA)[:, 0] * num(dB)[:, 0]), (A, B), wf=False)
                    op(c, "sparse_dot added to a start value " + t, lambda: pw.sparse_dot(A, B, s), lambda: s + sum(num(dA)[:, 0] * num(dB)[:, 0]), (A, B), wf=False)
    ck.contract("sparse dot products", dict(a=V(3), b=V(3), s=(None, -2, 2)), dots, n=1, flips=0, extra=extra, functions=[PW + "sparse_dot", SRC + "cs_dot.c::cs_dot"])

    def ptr(c, b, x, s):
        for Bm in A22 + [np.array(m) for m in ([[1, 0], [1, 1], [0, 1]], [[1, 1, 0], [0, 1, 1]], [[1, 1, 1], [1, 0, 1], [0, 1, 1]], [[0, 1, 0]])]:
            k = Bm.shape[1]
            for Cm in (A22 if k == 2 else [np.array(m) for m in ([[1, 0, 1], [0, 0, 1], [1, 1, 0]], [[0, 0, 0], [1, 0, 0], [0, 1, 1]])]):
                B, C = mat(c, pattern(Bm), b), mat(c, pattern(Cm), x)
                dB, dC = num(dense(B)), num(dense(C))
                w = lambda: np.sum(dC * np.dot(dB.T, dB))
                t = "%s %s" % (tag(Bm), tag(Cm))
                op(c, "sparse_pattern_trace " + t, lambda: pw.sparse_pattern_trace(B, C), w, (B, C), wf=False)
                op(c, "sparse_pattern_trace added to a start value " + t, lambda: pw.sparse_pattern_trace(B, C, s), lambda: s + w(), (B, C), wf=False)
    ck.contract("pattern traces", dict(b=V(9), x=V(9), s=(None, -2, 2)), ptr, n=1, flips=0, extra=extra, functions=[PW + "sparse_pattern_trace", SRC + "cs_pattern_trace.c::cs_pattern_trace"])

    def bds(c, a):
        for ng, nv, nc in ((1, 1, 2), (1, 2, 2), (2, 1, 2), (2, 2, 2), (3, 2, 3), (1, 3, 2), (2, 3, 4)):
            ms = list(allmasks(ng * nv, nc)) if ng * nv * nc <= 4 else [(rng2.random((ng * nv, nc)) < p).astype(int) for rng2 in (np.random.default_rng(5),) for p in (0.0, 0.3, 0.5, 0.5, 0.7, 1.0)]
            for m in ms:
                ip, ix, _ = pattern(m.T)
                if c.sym:
                    L = CSC((a[:len(ix)].copy(), ix, ip), m.shape)
                else:
                    L = sps.csr_matrix((np.array(a[:len(ix)]), ix, ip), shape=m.shape)
                dL = num(dense(L, True)).reshape(ng, nv, nc)
                t = "%d groups, %s" % (ng, tag(m))
                w = lambda: sum(np.dot(dL[g], dL[g].T) for g in range(ng))
                op(c, "block_diag_self_dot " + t, lambda: pw.block_diag_self_dot(L, ng, nv), w, (L,), wf=False)
                o = np.full((nv, nv), 99.0) if not c.sym else np.full((nv, nv), 99.0, dtype=object)
                op(c, "block_diag_self_dot into an array " + t, lambda: pw.block_diag_self_dot(L, ng, nv, o), w, (L,), wf=False)
    ck.contract("block self products", dict(a=V(24)), bds, n=1, flips=0, extra=extra, functions=[PW + "block_diag_self_dot", SRC + "cs_block_diag_self_dot.c::cs_block_diag_self_dot"])

    # ---- repeat and tile --------------------------------------------------------------------------------
    def rep(c, a):
        for n in range(0, 5):
            for r in range(0, 4):
                x = a[:n].copy()
                z = x if c.sym else x + 1j * x[::-1]
                for f, v, w in (("tile_1d", x, lambda v=x: np.tile(v, r)), ("repeat_1d", x, lambda v=x: np.repeat(v, r)), ("tile_1d_complex", z, lambda v=z: np.tile(v, r))):
                    t = "%s %d %d" % (f, n, r)
                    if v.dtype == complex:
                        c.near(t, lambda: getattr(pw, f)(v, r), w)
                    else:
                        op(c, t, lambda: getattr(pw, f)(v, r), w, (v,))
                    dt = object if c.sym else v.dtype
                    big = np.full(n * r + 2 * GUARD, 77, dtype=dt)
                    o = big[GUARD:GUARD + n * r]
                    c.near(t + ", given array", lambda: (getattr(pw, f)(v, r, o), o), lambda: (w(), w()))
                    c.near(t + ", nothing written around it", lambda: unguarded_ok([big]), True)
    ck.contract("repeat and tile", dict(a=V(5)), rep, n=1, flips=0, extra=extra, functions=[PW + f for f in ("tile_1d", "repeat_1d", "tile_1d_complex")] + [SRC + f for f in ("tile_1d.c::tile_1d_nested", "repeat_1d.c::repeat_1d", "tile_1d_complex.c::tile_1d_nested_complex")])

    def helpers(c, a):
        for n, m in ((1, 1), (2, 3), (3, 2), (4, 1)):
            A = a[:n * m].reshape(n, m)
            c.eq("fully_dense_to_csc %d %d" % (n, m), lambda: (lambda R: dense(CSC((R[4], R[3], R[2]), R[0])))(pw.fully_dense_to_csc(A)), lambda: A)
        M = mat(c, pattern(np.array([[1, 0], [1, 1]])), a)
        c.eq("symbolic_csc_like", lambda: pw.symbolic_csc_like(M).data, lambda: [0, 0, 0])
        c.eq("symbolic_csc_like keeping the values", lambda: dense(pw.symbolic_csc_like(M, zero=False)), lambda: dense(M))
    ck.contract("packing helpers", dict(a=V(9)), helpers, n=1, flips=0, extra=extra, functions=[PW + "fully_dense_to_csc", PW + "symbolic_csc_like"])

    # ---- larger operands on the compiled code: bounded ---------------------------------------------------
    def big(rng, i):
        def m(r, c, d, z=False):
            M = sps.random(r, c, d, format="csc", random_state=rng, data_rvs=lambda k: rng.normal(size=k))
            M = sps.csc_array(M) if i % 2 else M
            M.indices, M.indptr = M.indices.astype(np.int32), M.indptr.astype(np.int32)
            return M
        d = [0.0, 0.1, 0.3, 0.6, 1.0][i % 5]
        r, k, n = (int(v) for v in rng.integers(1, 12, 3))
        A, B = m(r, k, d), m(int(rng.integers(1, 9)), int(rng.integers(1, 9)), [0.5, 0.2, 0.9, 0.0][i % 4])
        X = dict(inputs=dict(A=A.toarray(), B=B.toarray()))
        a, b = A.toarray(), B.toarray()
        fa, fb = np.asfortranarray(rng.normal(size=a.shape)), np.asfortranarray(rng.normal(size=b.shape))
        for nm, f, w in (("sparse_kron", lambda: pw.sparse_kron(A, B), np.kron(a, b)), ("ds_kron", lambda: pw.ds_kron(fa, B), np.kron(fa, b)),
                         ("dense_sparse_kron", lambda: pw.dense_sparse_kron(fa, B), np.kron(fa, b)), ("sparse_dense_kron", lambda: pw.sparse_dense_kron(A, fb), np.kron(a, fb)),
                         ("id_sp_kron", lambda: pw.id_sp_kron(n, B), np.kron(np.eye(n), b))):
            R = f()
            yield nm, R.toarray(), w, X
            yield nm + " is well formed", wellformed(R), True, X
        B2 = m(k, n, [0.4, 0.1, 0.8, 0.0][i % 4])
        C = (sps.csc_array(((A != 0).astype(float) @ (B2 != 0).astype(float))))
        C.indices, C.indptr = C.indices.astype(np.int32), C.indptr.astype(np.int32)
        C.data[:] = np.nan
        yield "cs_matmul_inplace", pw.cs_matmul_inplace(A, B2, C).toarray(), a @ B2.toarray(), X
        A2 = m(r, k, 0.4)
        P = sps.csc_array((abs(A) + abs(A2) + sps.random(r, k, 0.2, random_state=rng, format="csc")))
        P.indices, P.indptr = P.indices.astype(np.int32), P.indptr.astype(np.int32)
        al, be = rng.normal(size=2)
        yield "cs_add_inplace", pw.cs_add_inplace(A, A2, P, al, be).toarray(), al * a + be * A2.toarray(), X
        G = A.tocoo()
        o = rng.permutation(G.nnz)
        yield "coo_to_csc", pw.coo_to_csc(G.row[o], G.col[o], G.data[o], (r, k)).toarray(), a, X
        S = m(k, k, 0.4)
        yield "sparse_pattern_trace", pw.sparse_pattern_trace(A, S), np.sum(S.toarray() * (a.T @ a)), X
        u, v = m(30, 1, 0.5), m(30, 1, 0.4)
        yield "sparse_dot", pw.sparse_dot(u, v), float((u.toarray() * v.toarray()).sum())
        nv, ng = int(rng.integers(1, 5)), int(rng.integers(1, 6))
        L = sps.csr_matrix(m(nv * ng, n, 0.4))
        T = L.toarray().reshape(ng, nv, n)
        yield "block_diag_self_dot", pw.block_diag_self_dot(L, ng, nv), np.einsum("gap,gbp->ab", T, T), X
    ck.concrete("larger operands", big, n=60, functions=["pystatsm/utilities/cython_wrappers.pyx::" + n for n in names])
