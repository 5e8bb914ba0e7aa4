"""Compressed sparse columns with symbolic entries, and the contracts of the sparse kernels over them.

The patterns (indptr, indices) are concrete and the kernels keep the patterns scipy and the compiled kernels keep (sums and
products keep structurally non-zero entries; scipy's sum drops those whose value is the number zero).  The contracts of the
compiled kernels are the clauses proved for them in C01; the sparse Cholesky factorisation is contracted as the exact
factorisation under an arbitrary fixed, here reversed, elimination order."""
import numpy as np
from .sym import S, SArr, oarr, F


def _zero(v):
    return not isinstance(v, S) and v == 0


class CSC:
    __array_ufunc__ = None
    __array_priority__ = 1e9
    format = "csc"

    def __init__(self, arg, shape=None, dtype=None):
        if isinstance(arg, CSC):
            self.data, self.indices, self.indptr, self.shape = arg.data.copy(), arg.indices.copy(), arg.indptr.copy(), arg.shape
        elif isinstance(arg, tuple) and len(arg) == 3:
            self.data, self.indices, self.indptr = oarr(arg[0]).view(SArr), np.asarray(arg[1]), np.asarray(arg[2])
            self.shape = tuple(shape)
        elif isinstance(arg, tuple):
            d, (r, c) = arg
            self._coo(np.asarray(r), np.asarray(c), oarr(d), shape)
        else:
            A = oarr(arg.toarray() if hasattr(arg, "toarray") else arg)
            r, c = np.array([(i, j) for j in range(A.shape[1]) for i in range(A.shape[0]) if not _zero(A[i, j])], dtype=int).reshape(-1, 2).T
            self._coo(r, c, A[r, c], A.shape)

    def _coo(self, r, c, d, shape):
        acc = {}
        for i, j, v in zip(r, c, d):
            k = (int(j), int(i))
            acc[k] = acc[k] + v if k in acc else v
        self._dict(acc, shape)

    def _dict(self, acc, shape):
        ks = sorted(acc)
        self.data = np.empty(len(ks), dtype=object).view(SArr)
        for q, k in enumerate(ks):
            self.data[q] = acc[k]
        self.indices = np.array([k[1] for k in ks], dtype=np.int32)
        self.indptr = np.searchsorted([k[0] for k in ks], np.arange(shape[1] + 1)).astype(np.int32)
        self.shape = tuple(int(s) for s in shape)

    @classmethod
    def of(cls, acc, shape):
        o = cls.__new__(cls)
        o._dict(acc, shape)
        return o

    def items(self):
        for j in range(self.shape[1]):
            for p in range(self.indptr[j], self.indptr[j + 1]):
                yield int(self.indices[p]), j, self.data[p]

    @property
    def nnz(self):
        return len(self.data)

    def copy(self):
        return CSC(self)

    def sort_indices(self):
        o = CSC.of({(j, i): v for i, j, v in self.items()}, self.shape)
        self.data[:] = o.data
        self.indices[:] = o.indices

    def eliminate_zeros(self):
        o = CSC.of({(j, i): v for i, j, v in self.items() if not _zero(v)}, self.shape)
        self.data, self.indices, self.indptr = o.data, o.indices, o.indptr

    def tocsc(self):
        return self

    tocsr = tocsc

    @property
    def T(self):
        return CSC.of({(i, j): v for i, j, v in self.items()}, self.shape[::-1])

    def transpose(self):
        return self.T

    def toarray(self):
        A = np.zeros(self.shape, dtype=object)
        A[...] = 0.0
        for i, j, v in self.items():
            A[i, j] = A[i, j] + v
        return A.view(SArr)

    def diagonal(self):
        A = self.toarray()
        return np.array([A[i, i] for i in range(min(A.shape))], dtype=object).view(SArr)

    def sum(self, axis=None):
        if axis is None:
            s = 0.0
            for v in self.data:
                s = s + v
            return s
        return self.toarray().sum(axis=axis)

    def dot(self, o):
        if not isinstance(self, CSC):
            return oarr(self).view(SArr).dot(o.toarray() if isinstance(o, CSC) else o)
        if np.isscalar(o) or isinstance(o, S):
            return self * o
        if isinstance(o, CSC):
            cols = [[(int(self.indices[p]), self.data[p]) for p in range(self.indptr[k], self.indptr[k + 1])] for k in range(self.shape[1])]
            acc = {}
            for k, j, v in o.items():
                for i, w in cols[k]:
                    t = w * v
                    acc[j, i] = acc[j, i] + t if (j, i) in acc else t
            return CSC.of(acc, (self.shape[0], o.shape[1]))
        B = oarr(o)
        out = np.zeros((self.shape[0],) + B.shape[1:], dtype=object)
        out[...] = 0.0
        for i, j, v in self.items():
            out[i] = out[i] + v * B[j]
        return out.view(SArr)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return self.T.dot(oarr(o).T).T

    def __mul__(self, s):
        return CSC((self.data * s, self.indices, self.indptr), self.shape)

    __rmul__ = __mul__

    def multiply(self, o):
        B = o.toarray() if isinstance(o, CSC) else oarr(o)
        return CSC.of({(j, i): v * B[i, j] for i, j, v in self.items()}, self.shape)

    def __add__(self, o):
        if not isinstance(o, CSC):
            return self.toarray() + o
        acc = {(j, i): v for i, j, v in self.items()}
        for i, j, v in o.items():
            acc[j, i] = acc[j, i] + v if (j, i) in acc else v
        return CSC.of({k: v for k, v in acc.items() if not _zero(v)}, self.shape)

    def __radd__(self, o):
        return self.toarray() + o

    def __rsub__(self, o):
        return o - self.toarray()

    def __neg__(self):
        return self * -1.0

    def __sub__(self, o):
        return self + (-o)

    def __getitem__(self, ix):
        if not isinstance(ix, tuple):
            ix = (ix, slice(None))
        rr = np.arange(self.shape[0])[ix[0]]
        cc = np.arange(self.shape[1])[ix[1]]
        if rr.ndim == 0 and cc.ndim == 0:
            return self.toarray()[ix]
        rr, cc = np.atleast_1d(rr), np.atleast_1d(cc)
        cell = {}
        for i, j, v in self.items():
            cell[i, j] = v
        return CSC.of({(b, a): cell[i, j] for a, i in enumerate(rr) for b, j in enumerate(cc) if (i, j) in cell}, (len(rr), len(cc)))


def hstack(ms, format=None):
    acc, off = {}, 0
    for m in ms:
        acc.update({(j + off, i): v for i, j, v in m.items()})
        off += m.shape[1]
    return CSC.of(acc, (ms[0].shape[0], off))


def block_diag(ms, format=None):
    acc, r, c = {}, 0, 0
    for m in ms:
        acc.update({(j + c, i + r): v for i, j, v in m.items()})
        r, c = r + m.shape[0], c + m.shape[1]
    return CSC.of(acc, (r, c))


def eye(n, m=None, format=None):
    return CSC.of({(i, i): 1.0 for i in range(n)}, (n, n))


class Sparse:
    csc_array = csc_matrix = csr_array = csr_matrix = CSC
    hstack, block_diag, eye = staticmethod(hstack), staticmethod(block_diag), staticmethod(eye)

    @staticmethod
    def issparse(x):
        return isinstance(x, CSC)


# ---- contracts of the kernels --------------------------------------------------------------------
def coo_to_csc(r, c, d, shape, return_array=True):
    """columns in order, entries of a column in the order given (no duplicates)"""
    r, c, d = np.asarray(r), np.asarray(c), oarr(d)
    o = np.argsort(c, kind="stable")
    p = np.searchsorted(c[o], np.arange(shape[1] + 1)).astype(np.int32)
    m = CSC((d[o], r[o].astype(np.int32), p), shape)
    return m if return_array else ((shape[0], shape[1]), len(d), m.indptr, m.indices, m.data)


def cs_add_inplace(A, B, C, alpha=1.0, beta=1.0):
    a = {(i, j): alpha * v for i, j, v in A.items()}
    for i, j, v in B.items():
        t = beta * v
        a[i, j] = a[i, j] + t if (i, j) in a else t
    for j in range(C.shape[1]):
        for p in range(C.indptr[j], C.indptr[j + 1]):
            C.data[p] = a.pop((int(C.indices[p]), j), 0.0)
    if any(not _zero(v) for v in a.values()):
        raise AssertionError("cs_add_inplace requires the pattern of the result to contain those of the summands")
    return C


def cs_matmul_inplace(A, B, C):
    P = A.dot(B)
    C.data[:] = P.data
    C.indices[:] = P.indices
    C.indptr[:] = P.indptr
    return C


def tile_1d(arr, reps, out=None):
    t = np.tile(oarr(arr), reps)
    if out is None:
        return t.view(SArr)
    out[:] = t
    return out


def block_diag_self_dot(L, ng, nv, out=None):
    A = L.toarray()
    M = np.zeros((nv, nv), dtype=object)
    M[...] = 0.0
    for j in range(ng):
        B = A[j * nv:(j + 1) * nv]
        M = M + B.dot(B.T)
    return M.view(SArr)


def sparse_pattern_trace(B, C, out=0.0):
    A = B.toarray()
    for j, i, v in C.items():
        out = out + v * A[:, i].dot(A[:, j])
    return out


def _kron(a, b, shape):
    """product pattern in the order of the kernels: columns of a, columns of b, entries of a, entries of b"""
    d, ix, pt = [], [], [0]
    for ja in range(len(a)):
        for jb in range(len(b)):
            for ia, va in a[ja]:
                for ib, vb in b[jb]:
                    d.append(va * vb)
                    ix.append(ia * shape[2] + ib)
            pt.append(len(d))
    data = np.empty(len(d), dtype=object)
    for q, v in enumerate(d):
        data[q] = v
    return CSC((data, np.array(ix, dtype=np.int32), np.array(pt, dtype=np.int32)), shape[:2])


def _cols(M):
    if isinstance(M, CSC):
        return [[(int(M.indices[p]), M.data[p]) for p in range(M.indptr[j], M.indptr[j + 1])] for j in range(M.shape[1])]
    M = oarr(M)
    return [[(i, M[i, j]) for i in range(M.shape[0])] for j in range(M.shape[1])]


def kron(A, B, out=None):
    return _kron(_cols(A), _cols(B), (A.shape[0] * B.shape[0], A.shape[1] * B.shape[1], B.shape[0]))


def kron_inplace(A, B, C):
    K = kron(A, B)
    d = C if isinstance(C, np.ndarray) else C.data
    if len(d) != K.nnz:
        raise AssertionError("the in-place Kronecker product requires room for exactly its entries: %d != %d" % (len(d), K.nnz))
    d[:] = K.data
    return C


class Factor:
    """sparse Cholesky factorisation L L' = C[p][:, p] with elimination order p"""

    def __init__(self, C):
        n = C.shape[0]
        self.p = np.arange(n)[::-1].copy()
        self.inv = np.argsort(self.p)
        self.C = None

    def cholesky_inplace(self, C):
        self.C = C.toarray()
        self._L = None
        self._inv = None
        return self

    def _chol(self):
        if self._L is None:
            self._L = F.chol(self.C[self.p][:, self.p])
        return self._L

    def P(self):
        return self.p

    def L(self):
        return CSC(self._chol())

    def D(self):
        return np.diag(self._chol()) ** 2

    @staticmethod
    def _same(b, f):
        return CSC(f(b.toarray())) if isinstance(b, CSC) else f(oarr(b).view(SArr))

    def apply_P(self, b):
        return b[self.p]

    def apply_Pt(self, b):
        return b[self.inv]

    def solve_A(self, b):
        if self._inv is None:
            self._inv = F.inv(self.C)
        return self._same(b, lambda x: self._inv.dot(x))

    def solve_L(self, b, use_LDLt_decomposition=True):
        if use_LDLt_decomposition:
            raise NotImplementedError("unit triangular factor")
        L = self._chol()

        def f(x):
            y = np.empty(x.shape, dtype=object)
            for i in range(len(L)):
                t = x[i]
                for k in range(i):
                    t = t - L[i, k] * y[k]
                y[i] = t / L[i, i]
            return y.view(SArr)
        return self._same(b, f)

    def slogdet(self):
        return 1.0, np.log(S.lift(F.det(self.C)))


def analyze(A, *a, **k):
    return Factor(A)


def cholesky(A, *a, **k):
    return Factor(A).cholesky_inplace(A)


KERNELS = dict(coo_to_csc=coo_to_csc, cs_add_inplace=cs_add_inplace, cs_matmul_inplace=cs_matmul_inplace, tile_1d=tile_1d,
               block_diag_self_dot=block_diag_self_dot, sparse_pattern_trace=sparse_pattern_trace, sparse_dense_kron=kron,
               sparse_dense_kron_inplace=kron_inplace, ds_kron=kron, ds_kron_inplace=kron_inplace, analyze=analyze, cholesky=cholesky)
