"""C02 packed-index maps are bijections, index enumerations are complete"""
import importlib
import itertools
import math
import numpy as np
from vf.core import D, jac
from vf.sym import F, SArr
from vf import zint
from vf.zint import IntChecker, ZI

FN = "pystatsm/utilities/indexing_utils.py::"


def run(ck):
    ix = importlib.import_module("pystatsm.utilities.indexing_utils")
    oi = importlib.import_module("pystatsm.utilities.ordered_indices")
    lo = importlib.import_module("pystatsm.utilities.linalg_operations")
    uc = importlib.import_module("pystatsm.utilities.unconstrained_chol")
    T = lambda s: s * (s + 1)

    # ---- proved for all sizes --------------------------------------------------
    def lt_contract(n):
        """contract of largest_triangular: for n >= 0, s >= 0 and s(s+1) <= 2n < (s+1)(s+2)"""
        if not isinstance(n, ZI):
            return ix.__dict__["_vf_lt"](n) if "_vf_lt" in ix.__dict__ else LT(n)
        P = zint.Path.cur
        if not P.implied(n.e >= 0):
            raise zint.Unsupported("largest_triangular: precondition n >= 0 not established")
        z3 = zint.z3m()
        s = z3.FreshInt("tri")
        P.lemmas += [s >= 0, s * (s + 1) <= 2 * n.e, 2 * n.e < (s + 1) * (s + 2)]
        for w in ghost:
            # instance of the proved lemma "triangular numbers increase", and of T(s) even
            P.lemmas += [z3.Implies(z3.And(w.e >= 0, s < w.e), (s + 1) * (s + 2) <= w.e * (w.e + 1)), z3.Implies(z3.And(w.e >= 0, w.e < s), (w.e + 1) * (w.e + 2) <= s * (s + 1))]
        return ZI(s)
    ghost = []

    def with_ghost(w, body):
        ghost[:] = [w]
        try:
            return body()
        finally:
            ghost[:] = []
    LT = ix.largest_triangular
    small = [dict(n=n, j=j, k=k) for n in (1, 2, 3, 5, 8) for k in range(n) for j in range(k, n)]
    strict = [dict(n=n, j=j, k=k) for n in (2, 3, 5, 8) for k in range(n) for j in range(k + 1, n)]
    flat = [dict(n=n, i=i) for n in (1, 2, 3, 6, 9) for i in range(n * (n + 1) // 2)]
    flats = [dict(n=n, i=i) for n in (2, 3, 6, 9) for i in range(n * (n - 1) // 2)]

    I = IntChecker(ck, "largest triangular index", [ix], [FN + "largest_triangular"])
    edge = [dict(n=v) for k in (0, 1, 2, 3, 10, 1000, 10 ** 5, 10 ** 7) for v in (k * (k + 1) // 2 - 1, k * (k + 1) // 2, k * (k + 1) // 2 + 1) if v >= 0]
    I.prove("k(k+1)/2 <= n < (k+1)(k+2)/2", ["n"], lambda n: [n >= 0], lambda n: (lambda k: [k >= 0, T(k) <= 2 * n, 2 * n < T(k + 1)])(ix.largest_triangular(n)),
            lambda n: (ix.largest_triangular(n), (math.isqrt(8 * n + 1) - 1) // 2), brute=edge)

    IntChecker(ck, "triangular numbers increase", []).prove("lemma", ["s", "d"], lambda s, d: [s >= 0, d > s], lambda s, d: [(s + 1) * (s + 2) <= d * (d + 1)], None)

    def pk(name, fwd, rev, first, size, fl, sm, low, mods, cal):
        """first(k, n, j): first-in-column position; size2(n): twice the number of elements; low: smallest row of column k minus k"""
        I = IntChecker(ck, name, mods, [FN + fwd, FN + rev], callees=cal)
        f = lambda *a: getattr(ix, fwd)(*a)
        r = lambda *a: getattr(ix, rev)(*a)
        dom = lambda n, j, k: [n >= 1, k >= 0, j >= k + low, j < n]
        I.prove("position after mapping there and back", ["n", "j", "k"], dom, lambda n, j, k: with_ghost(n - k - 1 - low, lambda: (lambda q: [q[1] == k, q[0] == j])(r(f(j, k, n), n))), lambda n, j, k: (r(f(j, k, n), n), (j, k)), brute=sm)
        I.prove("index after mapping back and there", ["n", "i"], lambda n, i: [n >= 1, i >= 0, 2 * i < size(n)],
                lambda n, i: (lambda q: [q[1] >= 0, q[0] >= q[1] + low, q[0] < n, f(q[0], q[1], n) == i])(r(i, n)),
                lambda n, i: (f(*r(i, n), n), i), brute=fl)
        I.prove("first position is 0", ["n"], lambda n: [n >= 1 + low], lambda n: [f(low, 0, n) == 0], lambda n: (f(low, 0, n), 0), brute=[dict(n=n) for n in (2, 3, 7)])
        I.prove("next row is the next index", ["n", "j", "k"], lambda n, j, k: dom(n, j, k) + [j + 1 < n], lambda n, j, k: [f(j + 1, k, n) == f(j, k, n) + 1], lambda n, j, k: (f(j + 1, k, n), f(j, k, n) + 1))
        I.prove("next column continues after the last row", ["n", "k"], lambda n, k: [n >= 1, k >= 0, k + 1 + low < n], lambda n, k: [f(k + 1 + low, k + 1, n) == f(n - 1, k, n) + 1],
                lambda n, k: (f(k + 1 + low, k + 1, n), f(n - 1, k, n) + 1), brute=[dict(n=n, k=k) for n in (3, 6) for k in range(n - 1 - low)])
    cal = {"largest_triangular": lt_contract}
    pk("half vectorisation indices", "vech_inds_forwards", "vech_inds_reverse", None, lambda n: n * (n + 1), flat, small, 0, [ix], cal)
    pk("strict half vectorisation indices", "vecl_inds_forwards", "vecl_inds_reverse", None, lambda n: n * (n - 1), flats, strict, 1, [ix], cal)
    I = IntChecker(ck, "full vectorisation indices", [ix], [FN + "vec_inds_forwards", FN + "vec_inds_reverse"])
    I.prove("position after mapping there and back", ["m", "r", "s"], lambda m, r, s: [m >= 1, r >= 0, r < m, s >= 0], lambda m, r, s: (lambda q: [q[0] == r, q[1] == s])(ix.vec_inds_reverse(ix.vec_inds_forwards(r, s, m), m)),
            lambda m, r, s: (ix.vec_inds_reverse(ix.vec_inds_forwards(r, s, m), m), (r, s)), brute=[dict(m=3, r=r, s=s) for r in range(3) for s in range(4)])
    I.prove("index after mapping back and there", ["m", "i"], lambda m, i: [m >= 1, i >= 0], lambda m, i: (lambda q: [q[0] >= 0, q[0] < m, q[1] >= 0, ix.vec_inds_forwards(q[0], q[1], m) == i])(ix.vec_inds_reverse(i, m)),
            lambda m, i: (ix.vec_inds_forwards(*ix.vec_inds_reverse(i, m), m), i), brute=[dict(m=3, i=i) for i in range(12)])
    I.prove("column-major stacking", ["m", "r", "s"], lambda m, r, s: [m >= 1, r >= 0, r < m, s >= 0], lambda m, r, s: [ix.vec_inds_forwards(r, s, m) == r + m * s], lambda m, r, s: (ix.vec_inds_forwards(r, s, m), r + m * s))
    I = IntChecker(ck, "Kronecker indices", [ix], [FN + "kronecker_indices_forward", FN + "kronecker_indices_reverse"])
    I.prove("forward then reverse", ["i", "j", "p", "q"], lambda i, j, p, q: [i >= 0, j >= 0, p >= 1, q >= 1],
            lambda i, j, p, q: (lambda a: [ix.kronecker_indices_reverse(*a[0], *a[1], p, q)[0] == i, ix.kronecker_indices_reverse(*a[0], *a[1], p, q)[1] == j, a[1][0] >= 0, a[1][0] < p, a[1][1] >= 0, a[1][1] < q])(ix.kronecker_indices_forward(i, j, p, q)),
            lambda i, j, p, q: ((lambda a: ix.kronecker_indices_reverse(*a[0], *a[1], p, q))(ix.kronecker_indices_forward(i, j, p, q)), (i, j)), brute=[dict(i=i, j=j, p=3, q=2) for i in range(7) for j in range(5)])
    I.prove("reverse then forward", ["r", "s", "t", "u", "p", "q"], lambda r, s, t, u, p, q: [r >= 0, s >= 0, t >= 0, u >= 0, t < p, u < q],
            lambda r, s, t, u, p, q: (lambda a: [a[0][0] == r, a[0][1] == s, a[1][0] == t, a[1][1] == u])(ix.kronecker_indices_forward(*ix.kronecker_indices_reverse(r, s, t, u, p, q), p, q)),
            lambda r, s, t, u, p, q: (ix.kronecker_indices_forward(*ix.kronecker_indices_reverse(r, s, t, u, p, q), p, q), ((r, s), (t, u))), brute=[dict(r=1, s=2, t=2, u=1, p=3, q=2), dict(r=0, s=3, t=1, u=0, p=2, q=4)])
    I.prove("entry of the Kronecker product", ["r", "s", "t", "u", "p", "q"], lambda r, s, t, u, p, q: [r >= 0, s >= 0, t >= 0, u >= 0, t < p, u < q],
            lambda r, s, t, u, p, q: (lambda a: [a[0] == r * p + t, a[1] == s * q + u])(ix.kronecker_indices_reverse(r, s, t, u, p, q)),
            lambda r, s, t, u, p, q: (ix.kronecker_indices_reverse(r, s, t, u, p, q), (r * p + t, s * q + u)))
    IntChecker(ck, "digits", []).prove("lemma", ["r", "m", "x", "a"], lambda r, m, x, a: [r >= 0, r < m, x >= 0, x < a], lambda r, m, x, a: [r + m * x >= 0, r + m * x < m * a, m * a > 0], None)
    # multi-indices of arrays with symbolic dimensions
    for d in (1, 2, 3, 4):
        dims = ["d%d" % k for k in range(d)]
        xs = ["x%d" % k for k in range(d)]

        def dom(**v):
            return [v[a] >= 1 for a in dims] + [v[x] >= 0 for x in xs] + [v[x] < v[a] for x, a in zip(xs, dims)]
        oa = lambda v, ks: np.array([v[k] for k in ks], dtype=object)
        ia = lambda v, ks: np.array([v[k] for k in ks], dtype=np.int64)
        brute = []
        for sh in ((3,) * d, tuple(range(2, 2 + d)), tuple(range(4, 4 - d, -1))):
            for ind in itertools.islice(np.ndindex(*sh), 0, None, 3):
                brute.append({**dict(zip(dims, sh)), **dict(zip(xs, ind))})
        for nm, colex in (("colex", True), ("lex", False)):
            fw, rv = nm + "_index_forward", "_%s_index_reverse_nb" % nm
            I = IntChecker(ck, "%s indices of order %d" % (nm, d), [ix], [FN + fw, FN + nm + "_index_reverse", FN + rv])

            def horner(v):
                s = 0
                for x, a in (zip(xs[::-1], dims[::-1]) if colex else zip(xs, dims)):
                    s = s * v[a] + v[x]
                return s
            I.prove("rank in the enumeration", dims + xs, dom, lambda **v: [getattr(ix, fw)(oa(v, xs), oa(v, dims)) == horner(v)], lambda **v: (getattr(ix, fw)(ia(v, xs), ia(v, dims)), horner(v)), brute=brute)
            def hinted(v):
                # ghost: quotients and remainders of the Horner form by every partial product of the dimensions
                o = list(zip(xs, dims)) if colex else list(zip(xs, dims))[::-1]
                z3, P = zint.z3m(), zint.Path.cur
                R, M = zint.ZI(z3.IntVal(0)), zint.ZI(z3.IntVal(1))
                for t in range(1, d):
                    x, a = (v[w] for w in o[t - 1])
                    R2, M2 = R + M * x, M * a
                    # instance of the proved lemma "digits"
                    P.lemmas.append(z3.Implies(z3.And(R.e >= 0, R.e < M.e, x.e >= 0, x.e < a.e), z3.And(R2.e >= 0, R2.e < M2.e, M2.e > 0)))
                    R, M = R2, M2
                    q = 0
                    for x, a in o[t:][::-1]:
                        q = q * v[a] + v[x]
                    P.hints += [(M, q, R), (M, v[o[t][0]], R)]
                return True
            I.prove("reverse undoes the rank", dims + xs, dom, lambda **v: hinted(v) and (lambda a: [a[k] == v[x] for k, x in enumerate(xs)])(getattr(ix, rv)(horner(v), oa(v, dims))),
                    lambda **v: (getattr(ix, nm + "_index_reverse")(horner(v), tuple(v[a] for a in dims)), [v[x] for x in xs]), brute=brute)
    IntChecker(ck, "quotient bound", []).prove("lemma", ["q", "d", "r", "m"], lambda q, d, r, m: [d >= 1, r >= 0, q >= m], lambda q, d, r, m: [q * d + r >= m * d], None)

    def qb(q, d, r, m):
        z3 = zint.z3m()
        q, d, r, m = map(zint.e, (q, d, r, m))
        zint.Path.cur.lemmas.append(z3.Implies(z3.And(d >= 1, r >= 0, q >= m), q * d + r >= m * d))
        return True
    # index vectors of structured matrices, one generic element
    I = IntChecker(ck, "commutation matrix indices", [ix], [FN + "commutation_matrix_indices"])
    I.prove("row rn+s takes column sm+r", ["m", "n"], lambda m, n: [m >= 1, n >= 1], lambda m, n: (lambda a: (lambda r, s: [qb(r, n, s, m), a[1] == s * m + r, s >= 0, s < n, r >= 0, r < m])(a[0] // n, a[0] % n))(ix.commutation_matrix_indices(m, n)),
            lambda m, n: (np.array(ix.commutation_matrix_indices(m, n)), [[r * n + s for r in range(m) for s in range(n)], [s * m + r for r in range(m) for s in range(n)]]), brute=[dict(m=m, n=n) for m in range(1, 5) for n in range(1, 5)])
    I = IntChecker(ck, "positions of diagonal elements", [ix], [FN + "vech_diag_indices", FN + "vech_diag_indices_forward"])
    I.prove("vech_diag_indices", ["p"], lambda p: [p >= 1], lambda p: (lambda j: [zint.ZB(zint.z3m().Or([2 * j.e == t * 2 * p.e - t * (t - 1) for t in [zint.Path.cur.assume[-1].arg(0)]]))])(ix.vech_diag_indices(p)),
            lambda p: (ix.vech_diag_indices(p), [ix.vech_inds_forwards(k, k, p) for k in range(p)]), brute=[dict(p=p) for p in (1, 2, 5, 8)])
    I.prove("vech_diag_indices_forward", ["k", "p"], lambda k, p: [p >= 1, k >= 0, k < p], lambda k, p: [ix.vech_diag_indices_forward(k, p) == ix.vech_inds_forwards(k, k, p)], lambda k, p: (ix.vech_diag_indices_forward(k, p), ix.vech_inds_forwards(k, k, p)), brute=[dict(k=k, p=6) for k in range(6)])
    I = IntChecker(ck, "packed sizes", [lo, uc], ["pystatsm/utilities/linalg_operations.py::" + f for f in ("lhv_size_to_mat_size", "mat_size_to_lhv_size", "hv_size_to_mat_size", "mat_size_to_hv_size")] + ["pystatsm/utilities/unconstrained_chol.py::lhv_size_to_mat_size"])
    nb = [dict(n=n) for n in (1, 2, 3, 10, 1000, 10 ** 6)]
    I.prove("half size", ["n"], lambda n: [n >= 1], lambda n: [2 * lo.mat_size_to_hv_size(n) == n * (n + 1), lo.hv_size_to_mat_size(lo.mat_size_to_hv_size(n)) == n], lambda n: ((lo.mat_size_to_hv_size(n), lo.hv_size_to_mat_size(n * (n + 1) // 2)), (n * (n + 1) // 2, n)), brute=nb)
    I.prove("strict half size", ["n"], lambda n: [n >= 2], lambda n: [2 * lo.mat_size_to_lhv_size(n) == n * (n - 1), lo.lhv_size_to_mat_size(lo.mat_size_to_lhv_size(n)) == n, uc.lhv_size_to_mat_size(lo.mat_size_to_lhv_size(n)) == n],
            lambda n: ((lo.mat_size_to_lhv_size(n), lo.lhv_size_to_mat_size(n * (n - 1) // 2), uc.lhv_size_to_mat_size(n * (n - 1) // 2)), (n * (n - 1) // 2, n, n)), brute=nb[1:])
    I = IntChecker(ck, "strict packing of the unconstrained Cholesky module", [uc], ["pystatsm/utilities/unconstrained_chol.py::vecl_inds_forwards"])
    I.prove("same map as the shared one", ["n", "j", "k"], lambda n, j, k: [n >= 1, k >= 0, j > k, j < n], lambda n, j, k: [2 * uc.vecl_inds_forwards(j, k, n) == 2 * (j - k - 1) + k * (2 * n - k - 1)], lambda n, j, k: (uc.vecl_inds_forwards(j, k, n), ix.vecl_inds_forwards(j, k, n)), brute=strict)

    # ---- ranks of monotone multi-indices: polynomial identities in the index values ---------------
    def C(n, k):
        r = 1
        for t in range(k):
            r = r * (n - t)
        return r / math.factorial(k)

    def comb(n, k):
        """contract of comb_numba for k >= 0 constant: falling factorial over factorial"""
        return C(n, int(k))
    for d in (1, 2, 3, 4, 5):
        for nm, f in (("ascending", "_colex_ascending_indices_forward_nb"), ("descending", "_colex_descending_indices_forward_nb")):
            def rank(c, x):
                # x: increments; a_0 <= a_1 <= ... ; the successor raises position j (a_j < a_{j+1}) and resets the ones below
                a = np.cumsum(x)
                g = getattr(ix, f)
                rk = lambda v: g((v[::-1] if nm == "descending" else v) if c.sym else np.asarray(v[::-1] if nm == "descending" else v).round().astype(np.int64))
                c.eq("first multi-index has rank 0", lambda: rk(0 * x) if not c.sym else rk(a * 0), lambda: 0 * x[0])
                for j in range(d):
                    def two(j=j):
                        lo_ = a.copy()
                        for t in range(j + 1):
                            lo_[t] = a[j]      # positions 0..j equal: the last index before position j moves up
                        hi = lo_.copy()
                        hi[j] = hi[j] + 1
                        for t in range(j):
                            hi[t] = hi[t] * 0
                        return lo_, hi
                    if j == d - 1 or True:
                        c.eq("successor at position %d has the next rank" % j, lambda j=j: rk(two(j)[1]) - rk(two(j)[0]), lambda: 1 + 0 * x[0])
            ck.contract("rank of %s multi-indices, order %d" % (nm, d), dict(x=((d,), 2, 5, "int")), rank, n=2, functions=[FN + f], extra=lambda: ((ix, "comb_numba", comb),), consts=None)

    # ---- bounded: enumerations, orders, multiplicities, reverse ranks -----------------------------
    def combs(rng, i):
        for n in range(0, 30):
            for k in range(-1, n + 2):
                yield "binomial coefficient", ix.comb_numba(n, k), math.comb(n, k) if 0 <= k <= n else 0, dict(inputs=dict(n=n, k=k))
    ck.concrete("binomials", combs, n=1, functions=[FN + "comb_numba"])

    def enum(rng, i):
        d, p = [(1, 5), (2, 4), (3, 3), (3, 5), (4, 4), (2, 1), (4, 2), (5, 3)][i]
        sh = (p,) * d
        asc = list(itertools.combinations_with_replacement(range(p), d))
        I = dict(inputs=dict(shape=sh))
        for nm, fn in (("compiled", oi.ascending_indices), ("Python", ix.ascending_indices), ("generator", lambda s: list(ix.ascending_indices_generator(s)))):
            yield "ascending indices, each once, in order (%s)" % nm, fn(sh), asc, I
        yield "descending indices, each once, in reverse order", oi.descending_indices(sh), sorted([t[::-1] for t in asc], reverse=True), I
        for a, s, ff in itertools.product((True, False), (True, False), (True, False)):
            want = [t for t in itertools.product(range(p), repeat=d) if all((x < y if s else x <= y) if a else (x > y if s else x >= y) for x, y in zip(t, t[1:]))]
            if not ff:
                want = sorted(want, key=lambda t: t[::-1])
            yield "generate_indices(ascending=%s, strict=%s, first_fastest=%s)" % (a, s, ff), oi.generate_indices(sh, ascending=a, strict=s, first_indices_change_fastest=ff), want, I
        co = sorted(asc, key=lambda t: t[::-1])
        for r, t in enumerate(co):
            yield "rank of an ascending multi-index", ix.colex_ascending_indices_forward(t), r, dict(inputs=dict(index=t))
            yield "rank does not depend on the order of the entries", ix.colex_ascending_indices_forward(rng.permutation(t)), r, dict(inputs=dict(index=t))
            yield "ascending multi-index of a rank", ix.colex_ascending_indices_reverse(r, sh), t, dict(inputs=dict(rank=r, shape=sh))
            yield "rank (float version)", ix.ascending_indices_forward(t), r, dict(inputs=dict(index=t))
            yield "multi-index (float version)", ix.ascending_indices_reversed(r, d, p), t, dict(inputs=dict(rank=r, shape=sh))
            yield "rank of a descending multi-index", ix.colex_descending_indices_forward(t[::-1]), r, dict(inputs=dict(index=t[::-1]))
            yield "descending multi-index of a rank", ix.colex_descending_indices_reverse(r, sh), t[::-1], dict(inputs=dict(rank=r, shape=sh))
            yield "rearrangements, each once", sorted(tuple(q) for q in (list(z) for z in ix.multiset_permutations(list(t)))), sorted(set(itertools.permutations(t))), dict(inputs=dict(index=t))
            m = math.factorial(d)
            for v in set(t):
                m //= math.factorial(t.count(v))
            yield "multiplicity", len([list(z) for z in ix.multiset_permutations(list(t))]), m, dict(inputs=dict(index=t))
        for lead in ((), (2,), (2, 3)):
            A = rng.normal(size=lead + (len(asc),))
            W = np.zeros(lead + sh)
            for t in itertools.product(range(p), repeat=d):
                W[(Ellipsis,) + t] = A[..., asc.index(tuple(sorted(t)))]
            yield "symmetric tensor", ix.fill_tensor(A, sh), W, dict(rtol=0, atol=0, inputs=dict(shape=sh))
    ck.concrete("monotone index enumerations", enum, n=8, functions=[FN + f for f in ("ascending_indices", "ascending_indices_generator", "ascending_indices_forward", "ascending_indices_reversed", "colex_ascending_indices_forward", "colex_ascending_indices_reverse", "colex_descending_indices_forward", "colex_descending_indices_reverse", "multiset_permutations", "fill_tensor")] + ["pystatsm/utilities/ordered_indices.pyx::" + f for f in ("ascending_indices", "descending_indices", "generate_indices")])

    def uneven(rng, i):
        sh = [(2, 3), (3, 2), (2, 4, 3), (4, 1, 2), (1, 3, 5)][i]
        want = sorted(t for t in itertools.product(*map(range, sh)) if all(a <= b for a, b in zip(t, t[1:])))
        wd = sorted((t for t in itertools.product(*map(range, sh)) if all(a >= b for a, b in zip(t, t[1:]))), reverse=True)
        yield "ascending, uneven shape", oi.ascending_indices(sh), want, dict(inputs=dict(shape=sh))
        yield "ascending (Python), uneven shape", ix.ascending_indices(sh), want
        yield "ascending (generator), uneven shape", list(ix.ascending_indices_generator(sh)), want
        yield "descending, uneven shape", oi.descending_indices(sh), wd
        for o in "CF":
            yield "ndindex order %s" % o, [tuple(t) for t in ix.ndindex(*sh, order=o)], sorted(np.ndindex(*sh), key=(lambda t: t) if o == "C" else (lambda t: t[::-1])), dict(inputs=dict(shape=sh))
            yield "ndindex of a tuple, order %s" % o, [tuple(t) for t in ix.ndindex(sh, order=o)], sorted(np.ndindex(*sh), key=(lambda t: t) if o == "C" else (lambda t: t[::-1]))
        for r, t in enumerate(sorted(np.ndindex(*sh), key=lambda t: t[::-1])):
            yield "colex rank", ix.colex_index_forward(np.array(t), np.array(sh)), r
            yield "colex index", ix.colex_index_reverse(r, sh), t
        for r, t in enumerate(np.ndindex(*sh)):
            yield "lex rank", ix.lex_index_forward(np.array(t), np.array(sh)), r
            yield "lex index", ix.lex_index_reverse(r, sh), t
    ck.concrete("enumerations of uneven shapes", uneven, n=5, functions=[FN + "ndindex"])

    def tri(rng, i):
        n = i
        for m in (None, n, n + 2, max(n - 1, 1)):
            mm = n if m is None else m
            for k in (-2, -1, 0, 1, 2):
                low = [(r, c) for c in range(mm) for r in range(n) if c - r <= k]
                upp = [(r, c) for c in range(mm) for r in range(n) if c - r >= k]
                rect = dict(inputs=dict(n=n, m=m, k=k))
                if mm == n:
                    for o, srt in (("F", lambda t: t[::-1]), ("C", lambda t: t)):
                        yield "lower triangle, order %s" % o, list(zip(*map(list, ix.tril_indices(n, k, m, o)))), sorted(low, key=srt), rect
                        yield "upper triangle, order %s" % o, list(zip(*map(list, ix.triu_indices(n, k, m, o)))), sorted(upp, key=srt), rect
                else:
                    yield "lower triangle, C order", list(zip(*map(list, ix.tril_indices(n, k, m, "C")))), sorted(low), rect
                    yield "upper triangle, C order", list(zip(*map(list, ix.triu_indices(n, k, m, "C")))), sorted(upp), rect
        for k in range(-n + 1, n):
            r, c = ix.diag_indices(n, k)
            yield "k-th diagonal", list(zip(r.tolist(), c.tolist())), [(a, a + k) for a in range(n) if 0 <= a + k < n], dict(inputs=dict(n=n, k=k))
        A = np.arange(n * n).reshape(n, n, order="F")
        yield "mask of the strict lower half", A.reshape(-1, order="F")[ix.vecl_inds(n)], [A[r, c] for c in range(n) for r in range(c + 1, n)], dict(inputs=dict(n=n))
        for o in "FC":
            for start in (0, 1):
                inv = ix.inv_tril_indices(n, -1, order=o, indexing=start)
                pos = list(zip(*ix.tril_indices(n, -1, order=o)))
                yield "inverse positions (strict), order %s" % o, [(inv[p], inv[p[::-1]]) for p in pos], [(start + q, start + q) for q in range(len(pos))], dict(inputs=dict(n=n, start=start))
                inv = ix.inv_tril_indices(n, 0, order=o, indexing=start)
                pos = list(zip(*ix.tril_indices(n, 0, order=o)))
                yield "inverse positions (with diagonal), order %s" % o, [(inv[p], inv[p[::-1]]) for p in pos], [(start + q, start + q) for q in range(len(pos))], dict(inputs=dict(n=n, start=start))
        hv = [(r, c) for c in range(n) for r in range(c, n)]
        rr, cc = ix.duplication_matrix_indices(n)
        yield "duplication indices", sorted(zip(rr.tolist(), cc.tolist())), sorted({(c * n + r, q) for q, (r, c) in enumerate(hv)} | {(r * n + c, q) for q, (r, c) in enumerate(hv)}), dict(inputs=dict(n=n))
        rr, cc = ix.elimination_matrix_indices(n)
        yield "elimination indices", list(zip(rr.tolist(), cc.tolist())), [(q, c * n + r) for q, (r, c) in enumerate(hv)], dict(inputs=dict(n=n))
        ii = np.arange(n * (n + 1) // 2)
        j, k = ix.vech_inds_reverse(ii, n)
        yield "array arguments, half", list(zip(j.tolist(), k.tolist())), hv, dict(inputs=dict(n=n))
        yield "array arguments, half, forwards", ix.vech_inds_forwards(j, k, n), ii
        if n > 1:
            ii = np.arange(n * (n - 1) // 2)
            j, k = ix.vecl_inds_reverse(ii, n)
            yield "array arguments, strict", list(zip(j.tolist(), k.tolist())), [t for t in hv if t[0] != t[1]], dict(inputs=dict(n=n))
            yield "array arguments, strict, forwards", ix.vecl_inds_forwards(j, k, n), ii
        g = ix.flat_mgrid(np.arange(n), np.arange(2), indexing="ij")
        yield "grid", list(zip(g[0].tolist(), g[1].tolist())), list(itertools.product(range(n), range(2)))
    ck.concrete("triangular index enumerations", lambda rng, i: tri(rng, i + 1), n=7, functions=[FN + f for f in ("diag_indices", "vecl_inds", "tril_indices", "inv_tril_indices", "triu_indices", "duplication_matrix_indices", "elimination_matrix_indices", "flat_mgrid")])

    def match(rng, i):
        x = rng.permutation(40)[:12]
        y = rng.choice(x, size=7)
        yield "positions of values", x[ix.array_match(x, y)], y, dict(inputs=dict(x=x, y=y))
        y2 = np.r_[y, 99, -5]
        yield "positions of the values present", x[ix.array_match(x, y2)], y
        mk = ix.array_match(x, y2, mask=True)
        yield "mask marks the absent values", np.ma.getmaskarray(mk), [False] * 7 + [True, True]
        A = rng.integers(0, 2, size=(3, 4, 2)[: 2 + i % 2])
        nz = ix.nonzero(A)
        yield "non-zero positions in column-major order", [tuple(t) for t in nz.T.tolist()], sorted((tuple(t) for t in np.argwhere(A).tolist()), key=lambda t: t[::-1]), dict(inputs=dict(A=A))
        yield "non-zero positions as a tuple", [tuple(t) for t in np.array(ix.nonzero(A, True)).T.tolist()], [tuple(t) for t in nz.T.tolist()]
        a = rng.integers(0, 6, size=12)
        u, inv, ind = ix.unique(a)
        seen = list(dict.fromkeys(a.tolist()))
        yield "unique values in order of appearance", u, seen, dict(inputs=dict(a=a))
        yield "inverse restores the array", u[inv], a, dict(inputs=dict(a=a))
        yield "first occurrences", ind, [a.tolist().index(v) for v in seen]
    ck.concrete("matching and uniqueness", match, n=6, functions=[FN + f for f in ("array_match", "nonzero", "unique")])
