"""C16 structural equation models: implied moments, fit function, derivatives and parameter mapping (pysem2) against an independent reading of the formula"""
import importlib
import itertools
import warnings
import numpy as np
import pandas as pd
import scipy.stats
from vf.core import D
from vf.sym import F, S, SArr

P = "pystatsm/pysem2/"
WARM = ("pystatsm.pysem2.sem",)


def obj(a):
    return np.array(a, dtype=object).view(SArr)


# ---- independent reading of the model language ----------------------------------------------------
def parse(formula):
    rows = []
    for line in formula.split("\n"):
        line = line.split("#")[0].strip()
        if not line:
            continue
        for rel in ("=~", "~~", "~"):
            if rel in line:
                a, b = line.split(rel)
                break
        for l in a.split("+"):
            for r in b.split("+"):
                mod, _, nm = r.rpartition("*")
                rows.append((l.strip(), rel, nm.strip(), mod.strip() or None))
    return rows


def number(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


class Model:
    """every entry of the directed path matrix A, the covariance S and the mean m: ('fix', value), ('free', label or None) or ('sample', ...)"""

    def __init__(s, formula):
        rows = parse(formula)
        s.lat = {l for l, r, n, m in rows if r == "=~"}
        ind = {n for l, r, n, m in rows if r == "=~"}
        end = {l for l, r, n, m in rows if r == "~" and n != "1"}
        exo = {n for l, r, n, m in rows if r == "~" and n != "1"}
        s.vars = sorted(({l for l, *_ in rows} | {n for _, _, n, _ in rows}) - {"1"})
        s.obs = [v for v in s.vars if v not in s.lat]
        s.lav = s.lat | end | exo
        e = {}
        first = {}
        for l, rel, n, mod in rows:
            x = number(mod)
            v = ("fix", x) if x is not None else ("free", mod)
            if rel == "=~":
                e["A", n, l] = v
                first.setdefault(l, []).append(("A", n, l))
            elif rel == "~~":
                e["S", frozenset((l, n))] = v
            elif n == "1":
                e["m", l] = v
            else:
                e["A", l, n] = v
        for l, ks in first.items():
            if not any(e[k][0] == "fix" for k in ks):
                e[ks[0]] = ("fix", 1.0)
        lox = {v for v in exo if v not in s.lat and v not in end and v not in ind}
        enx = end - exo
        lvx = s.lat - ind - end
        for v in s.vars:
            e.setdefault(("S", frozenset((v,))), ("sample", v, v) if v in lox else ("free", None))
            e.setdefault(("m", v), ("sample", v) if v in lox else ("fix", 0.0) if v in s.lat else ("free", None))
        for grp, kind in ((lox, "sample"), (lvx, "free"), (enx, "free")):
            g = sorted(grp)
            for i, a in enumerate(g):
                for b in g[:i]:
                    e.setdefault(("S", frozenset((a, b))), ("sample", a, b) if kind == "sample" else ("free", None))
        s.e = e

    def matrix(s, k):
        """which of the six model matrices holds an entry"""
        if k[0] == "A":
            return 1 if k[1] in s.lav else 0
        if k[0] == "S":
            return 2 if all(v in s.lav for v in k[1]) else 3
        return 5 if k[1] in s.lav else 4

    def key(s, k, g, shared):
        """parameters with equal keys are one parameter"""
        lab = s.e[k][1]
        return (lab if lab is not None else k,) + (() if shared[s.matrix(k)] else (g,))

    def matrices(s, get, cov, mean):
        ix = {v: i for i, v in enumerate(s.vars)}
        n = len(s.vars)
        A, C, m = (np.zeros(q, dtype=object) for q in ((n, n), (n, n), n))
        for a in (A, C, m):
            a[...] = 0.0
        for k, e in s.e.items():
            v = e[1] if e[0] == "fix" else get(k) if e[0] == "free" else cov(e[1], e[2]) if len(e) == 3 else mean(e[1])
            if k[0] == "A":
                A[ix[k[1]], ix[k[2]]] = v
            elif k[0] == "S":
                a = sorted(k[1])
                C[ix[a[0]], ix[a[-1]]] = C[ix[a[-1]], ix[a[0]]] = v
            else:
                m[ix[k[1]]] = v
        return A, C, m

    def moments(s, get, cov, mean):
        """moments of the observed variables of v = A v + e, e of mean m and covariance C; the paths have no cycles"""
        A, C, m = s.matrices(get, cov, mean)
        n = len(m)
        B = T = np.eye(n, dtype=object)
        for _ in range(n):
            T = A @ T
            if not any(isinstance(t, S) or t != 0 for t in T.ravel()):
                break
            B = B + T
        o = [s.vars.index(v) for v in s.obs]
        Sg, mu = (B @ C @ B.T)[np.ix_(o, o)], (B @ m)[o]
        return Sg, mu


FORMS = ["f =~ x1 + x2 + x3 + x4", "f =~ x1 + a*x2 + a*x3 + x4", "f =~ x1 + x2 + x3\ng =~ x4 + x5 + x6", "f =~ x1 + x2 + x3\ng =~ x4 + x5 + x6\ng ~ f",
         "f =~ x1 + x2 + x3\nf ~ x4 + x5", "y1 ~ x1 + x2\ny2 ~ y1 + x1", "x3 ~ b*x1 + b*x2\nx4 ~ x3 + x1", "f =~ x1+x2+x3\ng =~ x4+x5+x6\nh =~ f + g + x7\nx1 ~~ x4",
         "f =~ 1*x1 + x2 + x3\ng =~ 1*x4+x5+x6\ng ~ f\nf ~ 0*1\ng~1\nx1~0*1\nx2~1\nx3~1\nx4~0*1\nx5~1\nx6~1", "f =~ x1 + x2 + x3\nx2 ~ c*1\nx3 ~ c*1\nx1 ~~ v*x1\nx2 ~~ v*x2\nx3 ~~ x3",
         "f =~ x1 + x2 + x3\ny1 ~ f + x4", "f =~ x1 + x2\nf ~ x5\nx5 ~ x6\nx1 ~ x6", "x2 ~ x1\nx3 ~ x2\nx4 ~ x3\nx2 ~~ x4", "f =~ x10 + x2 + x1\ng =~ y2 + y1 + y10\ng ~ f\nx1 ~~ y1\nx2 ~~ y2",
         "y ~ x\ny ~ 2*1", "f =~ x1 + x2 + -0.5*x3 # comment", "y1 + y2 ~ x1 + x2", "f =~ x1 + a*x2 + x3\ng =~ x4 + a*x5 + x6\ng ~ a*f",
         "y ~ x + z\nx ~~ 2*x\nz ~ 3*1", "y ~ x + z\nz ~~ 0*x\nx ~~ x", "f =~ x1 + x2 + x3\nf ~ z1 + z2\nz1 ~ 1\nz2 ~~ v*z2\nz1 ~~ v*z1"]
GROUPS = (None, [True] * 6, [True, False, True, False, False, False], [False] * 6, [True, True, False, True, True, False], [False, True, False, False, True, True])


def random_formula(rng):
    """measurement models, regressions among latent and observed variables without cycles, covariances, intercepts, labels and fixed values"""
    nl = int(rng.integers(0, 4))
    pool = ["x%d" % i for i in rng.permutation(np.arange(1, 14))]
    lat = list(rng.permutation(["f", "g", "h", "eta1", "F2"])[:nl])
    lines, inds = [], []

    def mod(p=0.15):
        u = rng.uniform()
        return "%.2f*" % rng.uniform(-1, 1) if u < p / 2 else "%s*" % rng.choice(["a", "b"]) if u < p else ""
    for l in lat:
        k = int(rng.integers(2, 5))
        q, pool = pool[:k], pool[k:]
        inds += q
        lines.append("%s =~ %s" % (l, " + ".join([q[0]] + [mod() + v for v in q[1:]])))
    order = lat + pool[:int(rng.integers(2 if not lat else 0, 5))]
    order = list(rng.permutation(order))
    used = set()
    for i in range(1, len(order)):
        prev = [v for v in order[:i] if rng.uniform() < 0.5]
        if prev:
            lines.append("%s ~ %s" % (order[i], " + ".join(mod() + v for v in prev)))
            used |= {order[i], *prev}
    if not lines:
        lines.append("%s ~ %s" % (order[1], order[0]))
    free = [v for v in inds]
    if len(free) > 2 and rng.uniform() < 0.5:
        a, b = rng.choice(free, 2, replace=False)
        lines.append("%s ~~ %s" % (a, b))
    for v in free:
        u = rng.uniform()
        if u < 0.1:
            lines.append("%s ~~ %s%s" % (v, rng.choice(["v*", "1.3*", ""]), v))
        elif u < 0.2:
            lines.append("%s ~ %s1" % (v, rng.choice(["c*", "0.4*", ""])))
    for v in sorted(used - set(lat)):
        u = rng.uniform()
        if u < 0.08:
            lines.append("%s ~~ %s%s" % (v, rng.choice(["v*", "1.3*", ""]), v))
        elif u < 0.16:
            lines.append("%s ~ %s1" % (v, rng.choice(["c*", "0.4*", ""])))
    return "\n".join(lines)


class Inst:
    """a model built from data, the data by group, and what every parameter should be"""

    def __init__(s, SEM, formula, shared, rng, n=None, stats=None):
        s.formula, s.model = formula, Model(formula)
        sp = s.model
        q = len(sp.obs)
        n = int(rng.integers(25, 50)) + 3 * q if n is None else n
        X = rng.normal(size=(n, q)) @ (np.eye(q) + 0.3 * rng.normal(size=(q, q))) + rng.normal(size=q)
        df = pd.DataFrame(X, columns=sp.obs)[list(rng.permutation(sp.obs))]
        if rng.uniform() < 0.5:
            df.insert(int(rng.integers(0, q)), "zz", rng.normal(size=n) * 3)
        gv, kw = np.zeros(n, int), None
        if shared is not None:
            k = int(rng.integers(2, 4))
            gv = rng.permutation(np.arange(n) % k)
            lab = [np.arange(k), np.arange(k) * 2 + 1, np.array(list("pqr"))[:k], np.array([-1.5, 0.5, 7.0])[:k]][int(rng.integers(4))]
            df["grp"] = lab[gv]
            df.index = rng.permutation(n)
            kw = dict(group_col="grp", shared=list(shared))
        s.shared = [True] * 6 if shared is None else list(shared)
        s.df, s.gv, s.n, s.ng = df, gv, n, int(gv.max()) + 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.m = SEM(formula, df, model_spec_kws=kw)
        s.X = [df[sp.obs].to_numpy()[gv == g] for g in range(s.ng)]
        s.S = [np.cov(x.T, ddof=0).reshape(q, q) for x in s.X]
        s.mu = [x.mean(0) for x in s.X]
        if stats is not None:
            # moments of few binary digits, so that products of fixed values are exact
            s.S = [np.round(c / np.abs(c).max() * 16) / 32 + 2 * np.eye(q) for c in s.S]
            s.mu = [np.round(u * 8) / 8 for u in s.mu]
            d = stats({g: pd.DataFrame(c, index=sp.obs, columns=sp.obs) for g, c in enumerate(s.S)}, {g: pd.Series(u, index=sp.obs) for g, u in enumerate(s.mu)}, {g: len(x) for g, x in enumerate(s.X)})
            s.m = SEM(formula, None, model_spec_kws=dict(model_data=d, shared=s.shared))
        s.start = s.m.parameter_templates
        fd = s.m.free_df
        keys, s.where = {}, {}
        for k, r in enumerate(fd[["lhs", "rel", "rhs", "group"]].itertuples(index=False)):
            e = ("A", r.rhs, r.lhs) if r.rel == "=~" else ("S", frozenset((r.lhs, r.rhs))) if r.rel == "~~" else ("m", r.lhs) if r.rhs == "1" else ("A", r.lhs, r.rhs)
            s.where[e, int(r.group)] = keys.setdefault(sp.key(e, int(r.group), s.shared), len(keys)) if sp.e.get(e, ("",))[0] == "free" else -1
        s.nt = len(keys)
        s.cls = list(s.where.values())
        s.isvar = np.zeros(s.nt, dtype=bool)
        for (e, g), k in s.where.items():
            if e[0] == "S" and len(e[1]) == 1:
                s.isvar[k] = True
        s.perm = [sp.obs.index(v) for v in s.m.sorted_obs_names]

    def expected(s):
        return {(e, g) for e, v in s.model.e.items() if v[0] == "free" for g in range(s.ng)}

    def theta(s, rng):
        return np.where(s.isvar, rng.uniform(1.5, 2.5, s.nt), rng.uniform(0.2, 0.6, s.nt) * rng.choice([-1, 1, 1], s.nt))

    def moments(s, th, stats=None):
        sp = s.model
        ix = {v: i for i, v in enumerate(sp.obs)}
        out = []
        for g in range(s.ng):
            Sg, mu = sp.moments(lambda k: th[s.where[k, g]], lambda a, b: s.S[g][ix[a], ix[b]], lambda a: s.mu[g][ix[a]])
            out.append((Sg[np.ix_(s.perm, s.perm)], mu[s.perm]))
        return out

    def num(s, th):
        return [(np.asarray(a, float), np.asarray(b, float)) for a, b in s.moments(th)]

    def nll(s, th):
        """by observation, groups in turn"""
        out = []
        for (Sg, mu), X in zip(s.num(th), s.X):
            R = X[:, s.perm] - mu
            out.append((np.linalg.slogdet(Sg)[1] + np.einsum("ij,ij->i", R @ np.linalg.inv(Sg), R) + len(mu) * np.log(2 * np.pi)) / 2)
        return out

    def obs_order(s, parts):
        o = np.zeros((s.n,) + np.shape(parts[0])[1:])
        for g, x in enumerate(parts):
            o[s.gv == g] = x
        return o

    def fit(s, th):
        out = []
        for g, (Sg, mu) in enumerate(s.num(th)):
            Sm, r, V = s.S[g][np.ix_(s.perm, s.perm)], s.mu[g][s.perm] - mu, np.linalg.inv(Sg)
            out.append(len(s.X[g]) / 2 * (r @ V @ r + np.sum(V * Sm) + np.linalg.slogdet(Sg)[1] - np.linalg.slogdet(Sm)[1] - len(mu)))
        return np.array(out)

    # exact derivatives of the moments by complex-free polynomial differences: paths without cycles give polynomials in the parameters
    def dmom(s, th, h=1e-5):
        J = [[] for _ in range(s.ng)]
        for k in range(s.nt):
            e = np.zeros(s.nt)
            e[k] = h
            a, b = s.num(th + e), s.num(th - e)
            for g in range(s.ng):
                J[g].append(((a[g][0] - b[g][0]) / (2 * h), (a[g][1] - b[g][1]) / (2 * h)))
        return J

    def grad(s, th):
        """(groups, parameters)"""
        J, M = s.dmom(th), s.num(th)
        out = np.zeros((s.ng, s.nt))
        for g, (Sg, mu) in enumerate(M):
            V = np.linalg.inv(Sg)
            r = s.mu[g][s.perm] - mu
            G = V - V @ (s.S[g][np.ix_(s.perm, s.perm)] + np.outer(r, r)) @ V
            for k, (dS, dm) in enumerate(J[g]):
                out[g, k] = len(s.X[g]) / 2 * (np.sum(G * dS) - 2 * dm @ V @ r)
        return out

    def scores(s, th):
        J, M = s.dmom(th), s.num(th)
        out = []
        for g, (Sg, mu) in enumerate(M):
            V = np.linalg.inv(Sg)
            R = (s.X[g][:, s.perm] - mu) @ V
            out.append(np.array([(np.sum(V * dS) - np.einsum("ij,jk,ik->i", R, dS, R)) / 2 - R @ dm for dS, dm in J[g]]).T)
        return s.obs_order(out)

    def hess(s, th, h=1e-4):
        out = []
        for k in range(s.nt):
            e = np.zeros(s.nt)
            e[k] = h
            out.append((s.grad(th + e) - s.grad(th - e)).T / (2 * h))
        H = np.moveaxis(np.array(out), 2, 0)
        return (H + np.swapaxes(H, 1, 2)) / 2


def vech_mu(Sg, mu):
    p = len(mu)
    return [Sg[i, j] for j in range(p) for i in range(j, p)] + list(mu)


def run(ck):
    warnings.simplefilter("ignore")
    semm = importlib.import_module("pystatsm.pysem2.sem")
    dv = importlib.import_module("pystatsm.pysem2.derivatives")
    ixm = importlib.import_module("pystatsm.pysem2.indexers")
    md = importlib.import_module("pystatsm.pysem2.model_data")
    ms = importlib.import_module("pystatsm.pysem2.model_simulator")
    SEM = semm.SEM
    MAP = [P + "formula.py::FormulaParser", P + "model_builder.py::ModelBuilder", P + "model_matrices.py::ModelMatrixMapper", P + "variable_ordering.py::VariableOrder", P + "param_table.py::ParameterTable",
           P + "model_base.py::FixedValueManager", P + "model_base.py::ParameterMapping", P + "model_base.py::ModelBase", P + "model_specification.py::ModelSpecification", P + "indexers.py::FlattenedArray",
           P + "indexers.py::BlockFlattenedArrays", P + "indexers.py::equality_constraint_mat", P + "model_data.py::ModelData"]
    FIT = [P + "sem.py::SEM." + f for f in ("fit_func", "gradient", "hessian", "_implied_cov_mean", "implied_cov_mean", "implied_sample_stats", "loglike", "gradient_obs", "dsigma_mu", "d2sigma_mu")]
    KER = [P + "derivatives.py::" + f for f in ("_dsigma_mu", "_d2sigma_mu", "_dloglike_mu", "_dloglike_mu_alt", "_d2loglike_mu")]

    # ---- derivative kernels, the inverses I - B and Sigma under contract --------------------------------
    def kernels(p, q, pat):
        mats = [np.zeros(d) for d in ((p, q), (q, q), (q, q), (p, p), (1, p), (1, q))]
        for k, (i, r, c) in enumerate(pat, 1):
            mats[i][r, c] = k
        ib = ixm.BlockFlattenedArrays([ixm.FlattenedArray(a, i in (2, 3)) for i, a in enumerate(mats)])
        ib.create_derivative_arrays([(0, 0), (1, 0), (2, 0), (1, 1), (2, 1), (5, 0), (5, 1)])
        n = ib.n_nonzero
        assert n == len(pat)
        entries = list(zip(ib.block_indices, ib.row_indices, ib.col_indices))

        def body(c, L, B, f, b, v, s, z, rb, mu, pp, aa):
            lo = [(i, j) for j in range(p) for i in range(j, p)]
            lq = [(i, j) for j in range(q) for i in range(j, q)]

            def sy(x, l, m):
                A = np.empty((m, m), dtype=object if c.sym else float)
                for (i, j), t in zip(l, x):
                    A[i, j] = A[j, i] = t
                return A.view(SArr) if c.sym else A
            L, B = L.reshape(p, q), B.reshape(q, q)
            Fm, V, Sm, Z, Pm = sy(f, lq, q), sy(v, lo, p), sy(s, lo, p), sy(z, lo, p), sy(pp, lo, p)
            if not c.sym:
                L, B = np.asfortranarray(L), np.ascontiguousarray(B)
            r = rb - mu
            VRV, rtV = V @ (Sm - Z) @ V, r @ V
            Sig, m = L @ B @ Fm @ B.T @ L.T + Pm, aa + L @ B @ b
            kinds = [e[0] for e in entries]
            c.holds("parameter kinds, matrix by matrix", lambda: sorted(entries) == sorted((i, max(r_, c_), min(r_, c_)) if i in (2, 3) else (i, r_, c_) for i, r_, c_ in pat) and kinds == sorted(kinds))
            vind = np.array([i + j * p for i, j in lo])
            z0 = lambda *sh: np.zeros(sh) if not c.sym else obj(np.zeros(sh))

            def J(i, r_, c_, sh):
                a = np.zeros(sh)
                a[r_, c_] = 1.0
                if i in (2, 3):
                    a[c_, r_] = 1.0
                return a
            # total derivative along one parameter
            def base(x, e):
                i, r_, c_ = e
                if i == 0:
                    return D(x, L[r_, c_])
                if i == 1:
                    return sum(D(x, B[a, k]) * B[a, r_] * B[c_, k] for a in range(q) for k in range(q))
                return D(x, Fm[r_, c_] if i == 2 else Pm[r_, c_] if i == 3 else aa[c_] if i == 4 else b[c_])
            kw = dict(dA=ib.dA, m_size=ib.block_sizes, m_type=ib.block_indices, n=n)
            kw2 = dict(dA=ib.dA, m_size=ib.block_sizes, d2_inds=ib.colex_descending_inds)
            d1 = lambda: dv._dsigma_mu(z0(len(lo) + p, n), L, B, Fm, b, vind=vind, p2=len(lo), **kw)
            d2 = lambda: dv._d2sigma_mu(z0(len(lo) + p, n, n), L, B, Fm, b, m_type=ib.block_pair_types, vind=vind, n=ib.nf2, p2=len(lo), **kw2)
            g0 = lambda: dv._dloglike_mu(z0(n), L, B, Fm, b, VRV, rtV, **kw)
            wk = dict(dL=z0(p, q), dB=z0(q, q), dF=z0(q, q), dP=z0(p, p), da=z0(p), db=z0(q))
            g1 = lambda: dv._dloglike_mu_alt(z0(n), L, B, Fm, b, VRV, rtV, r=ib.row_indices, c=ib.col_indices, m_type=ib.block_indices, n=n, **wk)
            H = lambda: dv._d2loglike_mu(H=z0(n, n), d1Sm=z0(n, p, p + 1), L=L, B=B, F=Fm, a=aa, b=b, VRV=VRV, rtV=rtV, V=V, first_deriv_type=ib.block_indices, second_deriv_type=ib.block_pair_types, n=n, **kw2)
            if not c.sym:
                return
            st = vech_mu(Sig, m)
            dst = [[base(x, e) for e in entries] for x in st]
            c.poly("derivative of the moments", d1, lambda: dst)
            c.poly("second derivative of the moments", d2, lambda: [[[base(x, e) for e in entries] for x in row] for row in dst])
            Sj = [sy([dst[k][i] for k in range(len(lo))], lo, p) for i in range(n)]
            mj = [obj([dst[len(lo) + k][i] for k in range(p)]) for i in range(n)]

            def total(x, k):
                y = base(x, entries[k])
                dV = -(V @ Sj[k] @ V)
                for i, j in lo:
                    y = y + D(x, V[i, j]) * dV[i, j] + D(x, Z[i, j]) * Sj[k][i, j]
                for i in range(p):
                    y = y + D(x, mu[i]) * mj[k][i]
                return y
            G = -(VRV + np.outer(rtV, rtV))
            want = [np.sum(G * Sj[k]) - 2 * mj[k] @ rtV for k in range(n)]
            # the terms of the fit function that contain the inverse: trace(V S) + r'Vr; log det contributes trace(V dSigma)
            f0 = np.sum(V * Sm) + r @ V @ r
            c.poly("gradient of the fit function", lambda: [total(f0, k) + np.sum(V * Sj[k]) - np.sum((V - V @ Z @ V) * Sj[k]) for k in range(n)], lambda: want)
            c.poly("gradient kernel", g0, lambda: want)
            c.poly("alternative gradient kernel", g1, lambda: want)
            c.holds("work arrays are left clean", lambda: all(float(S.lift(t).v) == 0 for w in wk.values() for t in np.ravel(w)))
            # where Sigma is the inverse of V: V Z V = V, so trace terms in V Z V of the second derivative are those of V
            Hx = lambda: [[total(want[i], k) for k in range(n)] for i in range(n)]
            c.poly("Hessian kernel", H, Hx)
        un = lambda m: (lambda rng: rng.uniform(-0.3, 0.3, m * (m + 1) // 2) + np.array([float(i == j) for j in range(m) for i in range(j, m)]))
        ck.contract("derivative kernels, %d observed %d latent, parameters %s" % (p, q, " ".join("%s%d%d" % ("LBFPab"[i], r, c) for i, r, c in pat)),
                    dict(L=((p * q,), -1, 1), B=((q * q,), -1, 1), f=un(q), b=((q,), -1, 1), v=un(p), s=un(p), z=un(p), rb=((p,), -1, 1), mu=((p,), -1, 1), pp=un(p), aa=((p,), -1, 1)),
                    body, n=1, flips=0, functions=KER + [P + "indexers.py::FlattenedArray", P + "indexers.py::BlockFlattenedArrays"])
    kernels(2, 2, [(0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 1), (2, 0, 0), (2, 1, 0), (3, 0, 0), (3, 1, 0), (4, 0, 1), (5, 0, 1)])
    kernels(3, 2, [(0, 2, 1), (1, 0, 1), (2, 1, 1), (3, 2, 1), (4, 0, 2), (5, 0, 0)])
    kernels(2, 3, [(0, 1, 2), (1, 2, 0), (2, 2, 1), (5, 0, 2)])

    # ---- whole models, every parameter value -------------------------------------------------------------
    insts = {}

    def inst(fm, gi):
        if (fm, gi) not in insts:
            insts[fm, gi] = Inst(SEM, fm, GROUPS[gi], np.random.default_rng([sum(map(ord, fm)), gi]), stats=md.ModelData.from_samplestats)
        return insts[fm, gi]

    def mode(c, I):
        I.m.parameter_templates = {g: obj(t) for g, t in I.start.items()} if c.sym else I.start
        I.m.dSm = obj(np.zeros(I.m.dSm.shape)) if c.sym else np.zeros(I.m.dSm.shape)
        return I.m

    def thetas(fm, gi):
        return lambda rng: inst(fm, gi).theta(rng)

    def model(fm, gi):
        def body(c, th):
            I = inst(fm, gi)
            m = mode(c, I)
            c.holds("every free parameter of the specification, for every group", lambda: set(I.where) == I.expected())
            c.eq("free parameters", lambda: m.transform_theta_to_free(th), lambda: [th[k] for k in I.cls])
            M = I.moments(th)
            a = m.implied_cov_mean(th)
            c.eq("implied covariance", lambda: a[0], lambda: np.array([x[0] for x in M], dtype=object))
            c.eq("implied mean", lambda: a[1], lambda: np.array([x[1] for x in M], dtype=object))
            c.eq("implied moments stacked", lambda: m.implied_sample_stats(th), lambda: [vech_mu(*x) for x in M])
            g0 = lambda th: [m.transform_free_to_group_free(m.transform_theta_to_free(th), g) for g in range(I.ng)]
            for g, fr in enumerate(g0(th)):
                c.eq("implied moments from a group's parameters", lambda: m._implied_cov_mean(*m.group_free_to_model_mats(fr, g))[0], lambda: M[g][0])
            # derivatives with respect to free entries of a group: those of the entries
            if c.sym and len(I.where) <= 16:
                d = m.dsigma_mu(th)
                w = np.array([[[D(x, t) for t in th] for x in vech_mu(*x)] for x in M], dtype=object)
                for g in range(I.ng):
                    idx = list(m.free_df.index[m.free_df["group"] == g])
                    tot = np.array([[sum((d[g][i, k] for k, r in enumerate(idx) if I.cls[r] == t), 0.0) for t in range(I.nt)] for i in range(len(d[g]))], dtype=object)
                    c.eq("derivatives of the moments", lambda: tot, lambda: w[g])
        ck.contract("implied moments: %s, groups %d" % (fm.replace("\n", "; "), gi), dict(th=thetas(fm, gi)), body, n=1, flips=0, functions=MAP + FIT[3:6])
    for k, fm in enumerate(FORMS):
        for gi in {0, 1 + k % 5}:
            model(fm, gi)

    # fit function and its derivatives given the implied moments
    def fit_given(p, ng):
        fm = {1: "x1 ~~ x1\nx1 ~ x2", 2: "f =~ x1 + x2", 3: "f =~ x1 + x2 + x3"}[p]
        gi = 0 if ng == 1 else 2

        def body(c, z, mu, s, mb):
            I = inst(fm, gi)
            m = I.m
            lo = [(i, j) for j in range(p) for i in range(j, p)]
            nl = len(lo)

            def sy(x):
                A = np.empty((p, p), dtype=object if c.sym else float)
                for (i, j), t in zip(lo, x):
                    A[i, j] = A[j, i] = t
                return A.view(SArr) if c.sym else A
            Z, Sm = [sy(z[g * nl:(g + 1) * nl]) for g in range(I.ng)], [sy(s[g * nl:(g + 1) * nl]) for g in range(I.ng)]
            M, B = [mu[g * p:(g + 1) * p] for g in range(I.ng)], [mb[g * p:(g + 1) * p] for g in range(I.ng)]
            it = iter([])
            data = m.model_data
            keep = data.sample_cov, data.sample_mean, data.const
            d = lambda A: F.det(A) if c.sym else np.linalg.det(A)
            iv = lambda A: F.inv(A) if c.sym else np.linalg.inv(A)
            calls = []
            m._implied_cov_mean = lambda *a: (calls.append(1), (Z[(len(calls) - 1) % I.ng], M[(len(calls) - 1) % I.ng]))[1]
            try:
                data.sample_cov, data.sample_mean = dict(enumerate(Sm)), {g: b.reshape(1, -1) for g, b in enumerate(B)}
                data.const = {g: -np.log(d(Sm[g])) - p for g in range(I.ng)}
                want = [len(I.X[g]) * (np.sum(iv(Z[g]) * Sm[g]) + (B[g] - M[g]) @ iv(Z[g]) @ (B[g] - M[g]) + np.log(d(Z[g])) - np.log(d(Sm[g])) - p) / 2 for g in range(I.ng)]
                th = np.zeros(I.nt)
                a = m.fit_func(th)
                c.eq("fit function", lambda: a, lambda: sum(want))
                calls.clear()
                b = m.fit_func(th, per_group=True)
                c.eq("fit function by group", lambda: b, lambda: want)
            finally:
                data.sample_cov, data.sample_mean, data.const = keep
                del m._implied_cov_mean
        nl = p * (p + 1) // 2
        k = inst(fm, gi).ng
        pd_ = lambda rng: np.concatenate([rng.uniform(-0.3, 0.3, nl) + np.array([float(i == j) for j in range(p) for i in range(j, p)]) for _ in range(k)])
        ck.contract("fit function given the moments, %d variables, %d groups" % (p, k), dict(z=pd_, mu=((p * k,), -1, 1), s=pd_, mb=((p * k,), -1, 1)), body, n=1, flips=0, functions=[FIT[0]])
    for p, ng in ((2, 1), (3, 1), (2, 2)):
        fit_given(p, ng)

    # fit, likelihood, gradient, Hessian and scores of whole small models with symbolic parameters
    def small(fm, gi, what):
        def body(c, th):
            I = inst(fm, gi)
            m = mode(c, I)
            M = I.moments(th)
            d = lambda A: F.det(A.view(SArr)) if c.sym else np.linalg.det(np.asarray(A, float))
            iv = lambda A: F.inv(A.view(SArr)) if c.sym else np.linalg.inv(np.asarray(A, float))
            Sm = [S_[np.ix_(I.perm, I.perm)] for S_ in I.S]
            mb = [u[I.perm] for u in I.mu]
            p = len(I.perm)
            f = [len(I.X[g]) * (np.sum(iv(M[g][0]) * Sm[g]) + (mb[g] - M[g][1]) @ iv(M[g][0]) @ (mb[g] - M[g][1]) + np.log(d(M[g][0])) + (-np.linalg.slogdet(Sm[g])[1] - p)) / 2 for g in range(I.ng)]
            if "fit" in what:
                a = m.fit_func(th)
                c.eq("fit function", lambda: a, lambda: sum(f))
                a1 = m.fit_func(th, per_group=True)
                c.eq("fit function by group", lambda: a1, lambda: f)
            if "grad" in what:
                G = lambda: [[D(x, t) for t in th] for x in f]
                for k in (0, 1):
                    c.eq("gradient %d" % k, lambda: m.gradient(th, method=k), lambda: np.sum(np.array(G(), dtype=object), 0))
                    c.eq("gradient %d by group" % k, lambda: m.gradient(th, per_group=True, method=k), G)
            if "hess" in what:
                c.eq("Hessian", lambda: m.hessian(th), lambda: [[D(D(sum(f), a), b) for a in th] for b in th])
            if "ll" in what:
                ll = np.empty(I.n, dtype=object)
                for g in range(I.ng):
                    R = I.X[g][:, I.perm] - M[g][1]
                    ll[I.gv == g] = np.array([(r @ iv(M[g][0]) @ r + np.log(d(M[g][0])) + p * np.log(2 * np.pi)) / 2 for r in R], dtype=object)
                c.eq("minus log likelihood of every observation", lambda: m.loglike(th, "observation"), lambda: ll)
        ck.contract("small model %s, groups %d: %s" % (fm.replace("\n", "; "), gi, " ".join(what)), dict(th=thetas(fm, gi)), body, n=1, flips=0, functions=FIT)
    small("y ~ x", 0, ("fit", "grad", "hess"))
    small("f =~ x1 + x2", 0, ("fit", "grad"))
    small("y ~ x", 2, ("fit", "grad"))
    small("y ~ b*x\nx ~~ x", 4, ("fit", "grad"))

    # standard errors: inverse Hessian, or the sandwich with the cross products of the scores
    inst("y ~ x", 0)

    def se(c, h, g):
        I = inst("y ~ x", 0)
        m = I.m
        H = obj([[h[0], h[1]], [h[1], h[2]]]) if c.sym else np.array([[h[0], h[1]], [h[1], h[2]]])
        G = g.reshape(4, 2)
        iv = F.inv(H) if c.sym else np.linalg.inv(H)
        m.hessian, m.gradient_obs = lambda th: H, lambda th: G
        try:
            c.eq("standard errors", lambda: m.get_standard_errors(np.zeros(2)), lambda: [np.sqrt(iv[k, k]) for k in range(2)])
            c.eq("robust standard errors", lambda: m.get_standard_errors(np.zeros(2), robust=True), lambda: [np.sqrt((iv @ G.T @ G @ iv)[k, k]) for k in range(2)])
        finally:
            del m.hessian, m.gradient_obs
    ck.contract("standard errors", dict(h=lambda rng: np.array([rng.uniform(1, 2), rng.uniform(-0.5, 0.5), rng.uniform(1, 2)]), g=((8,), -1, 1)), se, n=2, flips=0, functions=[P + "sem.py::SEM.get_standard_errors"])

    # equality constraints: the derivative mapping is the transpose of the parameter mapping
    def maps(fm, gi):
        def body(c, th, a):
            I = inst(fm, gi)
            m = I.m
            n = len(I.cls)
            gg = []
            for g in range(I.ng):
                idx = [k for k in range(n) if int(m.free_df["group"].iloc[k]) == g]
                fr = m.transform_free_to_group_free(m.transform_theta_to_free(th), g)
                c.eq("group parameters", lambda: np.asarray(fr), lambda: [th[I.cls[k]] for k in idx])
                x = a[:len(idx)]
                if not c.sym:
                    c.near("derivatives by free parameter add up over equal ones", lambda: m.jac_free_to_theta(m.jac_group_free_to_free(x, g)), lambda: [sum(x[j] for j, k in enumerate(idx) if I.cls[k] == t) for t in range(I.nt)])
                    X = np.outer(x, x) + np.diag(x)
                    c.near("second derivatives by free parameter add up over equal ones", lambda: m.jac_free_to_theta(m.jac_group_free_to_free(X, g, axes=(0, 1)), axes=(0, 1)),
                           lambda: [[sum(X[j, l] for j, k in enumerate(idx) for l, q in enumerate(idx) if I.cls[k] == t and I.cls[q] == u) for t in range(I.nt)] for u in range(I.nt)])
            c.eq("back to the parameters", lambda: m.transform_free_to_theta(m.transform_theta_to_free(th)), lambda: th)
        ck.contract("parameter mapping: %s, groups %d" % (fm.replace("\n", "; "), gi), dict(th=thetas(fm, gi), a=lambda rng: rng.uniform(-1, 1, len(inst(fm, gi).cls))), body, n=1, flips=0,
                    functions=[P + "model_specification.py::ModelSpecification"])
    for k, fm in enumerate(FORMS):
        for gi in {1 + k % 5, 1 + (k + 2) % 5}:
            maps(fm, gi)

    # ---- bounded: random models at run time ----------------------------------------------------------------
    def now(fn):
        """clauses evaluated in turn; text and sets are compared as such"""
        def f(rng, i):
            for label, got, want, info in fn(rng, i):
                a, b = got(), want()
                if label in ("labels", "reported path coefficients stand where they belong") or isinstance(b, (bool, np.bool_)):
                    a, b = float(a == b), 1.0
                yield label, a, b, info
        return f

    def clauses(I, rng, second=True):
        m = I.m
        m.parameter_templates = I.start
        th = I.theta(rng)
        info = dict(inputs=dict(formula=I.formula, shared=I.shared, groups=I.ng))
        w = lambda **k: dict(info, **k)
        yield "every free parameter of the specification, for every group", (lambda: set(I.where) == I.expected()), (lambda: True), info
        M = I.num(th)
        yield "implied covariance", (lambda: m.implied_cov_mean(th)[0]), (lambda: [x[0] for x in M]), info
        yield "implied mean", (lambda: m.implied_cov_mean(th)[1]), (lambda: [x[1] for x in M]), info
        yield "implied moments stacked", (lambda: m.implied_sample_stats(th)), (lambda: [vech_mu(*x) for x in M]), info
        if min(np.linalg.eigvalsh(x[0])[0] for x in M) < 0.05:
            return
        f = I.fit(th)
        sc = w(rtol=1e-8, atol=1e-7)
        yield "fit function", (lambda: m.fit_func(th)), (lambda: f.sum()), sc
        yield "fit function by group", (lambda: m.fit_func(th, per_group=True)), (lambda: f), sc
        L = I.nll(th)
        yield "minus log likelihood", (lambda: m.loglike(th)), (lambda: sum(x.sum() for x in L)), sc
        yield "minus log likelihood by group", (lambda: m.loglike(th, "group")), (lambda: [x.sum() for x in L]), sc
        yield "minus log likelihood by observation", (lambda: m.loglike(th, "observation")), (lambda: I.obs_order(L)), sc
        g = I.grad(th)
        size = 1 + np.abs(g).max()
        g5 = w(rtol=1e-5, atol=1e-7 * size)
        for k in (0, 1):
            yield "gradient %d" % k, (lambda: m.gradient(th, method=k)), (lambda: g.sum(0)), g5
            yield "gradient %d by group" % k, (lambda: m.gradient(th, per_group=True, method=k)), (lambda: g), g5
        sco = I.scores(th)
        yield "scores of the observations", (lambda: m.gradient_obs(th)), (lambda: sco), g5
        yield "scores add up to the gradient", (lambda: m.gradient_obs(th).sum(0)), (lambda: m.gradient(th)), g5
        J = I.dmom(th)
        fd = m.free_df

        def dsm():
            d = m.dsigma_mu(th)
            out = []
            for gr in range(I.ng):
                idx = [k for k in range(len(fd)) if int(fd["group"].iloc[k]) == gr]
                out.append([[sum(d[gr][i, j] for j, k in enumerate(idx) if I.cls[k] == t) for t in range(I.nt)] for i in range(d.shape[1])])
            return out
        yield "derivatives of the moments", dsm, (lambda: [np.array([vech_mu(*x) for x in J[gr]]).T for gr in range(I.ng)]), g5
        if second:
            H = I.hess(th)
            h5 = w(rtol=1e-5, atol=1e-6 * (1 + np.abs(H).max()))
            yield "Hessian", (lambda: m.hessian(th)), (lambda: H.sum(0)), h5
            yield "Hessian by group", (lambda: m.hessian(th, per_group=True)), (lambda: H), h5

            def d2():
                d = m.d2sigma_mu(th)
                out = []
                for gr in range(I.ng):
                    idx = [k for k in range(len(fd)) if int(fd["group"].iloc[k]) == gr]
                    A = np.zeros((len(idx), I.nt))
                    for j, k in enumerate(idx):
                        A[j, I.cls[k]] = 1
                    out.append(np.einsum("ijk,ja,kb->iab", d[gr], A, A))
                return out

            def d2w():
                out = []
                h = 1e-3
                for a in range(I.nt):
                    e = np.zeros(I.nt)
                    e[a] = h
                    up, dn = I.dmom(th + e, 1e-3), I.dmom(th - e, 1e-3)
                    out.append([(np.array([vech_mu(*x) for x in up[gr]]) - np.array([vech_mu(*x) for x in dn[gr]])) / (2 * h) for gr in range(I.ng)])
                return [np.transpose(np.array([o[gr] for o in out]), (2, 0, 1)) for gr in range(I.ng)]
            yield "second derivatives of the moments", d2, d2w, w(rtol=1e-4, atol=1e-4)

    def listed(rng, i):
        fm = FORMS[i % len(FORMS)]
        gi = int(rng.integers(len(GROUPS)))
        yield from clauses(Inst(SEM, fm, GROUPS[gi], rng), rng, second=i % 2 == 0)
    ck.concrete("listed models", now(listed), n=len(FORMS), functions=MAP + FIT + KER)

    def rand(rng, i):
        fm = random_formula(rng)
        gi = int(rng.integers(len(GROUPS)))
        I = Inst(SEM, fm, GROUPS[gi], rng)
        yield from clauses(I, rng, second=I.nt < 25)
    for k in range(4):
        ck.concrete("random models %d" % k, now(rand), n=12, functions=MAP + FIT + KER)

    # sample moments instead of data
    def stats(rng, i):
        fm = FORMS[int(rng.integers(len(FORMS)))]
        I = Inst(SEM, fm, GROUPS[int(rng.integers(2, 5))] if i % 2 else None, rng)
        info = dict(inputs=dict(formula=fm, groups=I.ng), rtol=1e-8, atol=1e-7)
        o = list(rng.permutation(I.model.obs))
        ix = [I.model.obs.index(v) for v in o]
        C = {g: pd.DataFrame(I.S[g][np.ix_(ix, ix)], index=o, columns=o) for g in range(I.ng)}
        u = {g: pd.Series(I.mu[g][ix], index=o) for g in range(I.ng)}
        N = {g: len(I.X[g]) for g in range(I.ng)}
        d = md.ModelData.from_samplestats(C, u, N) if I.ng > 1 or i % 4 == 0 else md.ModelData.from_samplestats(C[0], u[0], N[0])
        m = SEM(fm, None, model_spec_kws=dict(model_data=d, shared=I.shared))
        th = I.theta(rng)
        if min(np.linalg.eigvalsh(x[0])[0] for x in I.num(th)) < 0.05:
            return
        yield "fit function", (lambda: m.fit_func(th)), (lambda: I.fit(th).sum()), info
        yield "gradient", (lambda: m.gradient(th)), (lambda: I.grad(th).sum(0)), dict(info, rtol=1e-5, atol=1e-4)
    ck.concrete("models of sample moments", now(stats), n=8, functions=[P + "model_data.py::ModelData", P + "model_specification.py::ModelSpecification"])

    # data generated from a model, fitted
    def fits(rng, i):
        fm = ["f =~ x1 + x2 + x3 + x4", "f =~ x1 + a*x2 + a*x3 + x4\ny ~ f", "y1 ~ x1 + x2\ny2 ~ y1 + x1", "f =~ x1 + x2 + x3\nf ~ z1", "f =~ x1 + x2 + x3\nx1 ~ c*1\nx2 ~ c*1"][i % 5]
        shared = GROUPS[(0, 2, 0, 1, 4)[i % 5]]
        I = Inst(SEM, fm, shared, rng, n=240)
        th0 = np.abs(I.theta(rng))
        df = I.df
        for g, (Sg, mu) in enumerate(I.num(th0)):
            names = [I.model.obs[k] for k in I.perm]
            df.loc[I.gv == g, names] = rng.multivariate_normal(mu, Sg, int(np.sum(I.gv == g)))
        kw = None if shared is None else dict(group_col="grp", shared=shared)
        m = SEM(fm, df, model_spec_kws=kw)
        J = Inst.__new__(Inst)
        J.__dict__.update(I.__dict__)
        J.m, J.X = m, [df[I.model.obs].to_numpy()[I.gv == g] for g in range(I.ng)]
        J.S, J.mu = [np.cov(x.T, ddof=0) for x in J.X], [x.mean(0) for x in J.X]
        rob = bool(i % 2)
        start = m.theta.copy()
        m.fit(robust_se=rob, **({} if i % 3 == 0 else dict(minimize_options=dict(verbose=0, maxiter=3000)) if i % 3 == 1 else dict(minimize_options=dict(verbose=0, maxiter=3000), use_hess=True)))
        th = m.theta
        info = dict(inputs=dict(formula=fm, groups=I.ng, robust=rob), rtol=1e-4, atol=1e-4)
        if not (m.opt_res.success and np.abs(J.grad(th).sum(0)).max() < 1e-2):
            yield "the fit lowers the criterion", (lambda: m.fit_func(th) <= m.fit_func(start)), (lambda: True), info
            return
        H = J.hess(th).sum(0)
        if np.linalg.eigvalsh(H)[0] < 1e-3:
            return
        step = np.linalg.solve(H, J.grad(th).sum(0))
        yield "the estimates are stationary", (lambda: step), (lambda: np.zeros(J.nt)), info
        Vm = np.linalg.inv(H)
        if rob:
            s = J.scores(th)
            Vm = Vm @ s.T @ s @ Vm
        sd = np.sqrt(np.diag(Vm))
        r = m.res
        yield "reported estimates", (lambda: r["parameter"].to_numpy()), (lambda: th), info
        yield "standard errors", (lambda: r["SE"].to_numpy()), (lambda: sd), info
        yield "t values", (lambda: r["t"].to_numpy()), (lambda: th / sd), dict(info, rtol=1e-3)
        yield "p values", (lambda: r["p"].to_numpy()), (lambda: 2 * scipy.stats.t.sf(np.abs(r["t"].to_numpy()), J.n - 2)), dict(info, rtol=1e-6, atol=1e-12)
        yield "free parameters", (lambda: m.res_free["parameter"].to_numpy()), (lambda: [th[k] for k in J.cls]), info
        yield "labels", (lambda: list(m.res.index)), (lambda: [m.free_df["label"].iloc[J.cls.index(t)] for t in range(J.nt)]), info

        def mats(k):
            out = []
            for g in range(J.ng):
                M = m.mats[g]
                B = np.linalg.inv(np.eye(len(M[1])) - M[1].to_numpy())
                L = M[0].to_numpy() @ B
                Sg = pd.DataFrame(L @ M[2].to_numpy() @ L.T + M[3].to_numpy(), index=M[0].index, columns=M[0].index)
                mu = pd.Series((M[4].to_numpy() + M[5].to_numpy() @ L.T).ravel(), index=M[4].columns)
                out.append(Sg.loc[J.model.obs, J.model.obs].to_numpy() if k == 0 else mu[J.model.obs].to_numpy())
            return out
        yield "reported matrices give the covariance", (lambda: mats(0)), (lambda: [J.model.moments(lambda k: th[J.where[k, g]], lambda a, b: J.S[g][J.model.obs.index(a), J.model.obs.index(b)], lambda a: J.mu[g][J.model.obs.index(a)])[0].astype(float) for g in range(J.ng)]), info
        yield "reported matrices give the mean", (lambda: mats(1)), (lambda: [J.model.moments(lambda k: th[J.where[k, g]], lambda a, b: 0.0, lambda a: J.mu[g][J.model.obs.index(a)])[1].astype(float) for g in range(J.ng)]), info

        def labelled():
            bad = []
            for g in range(J.ng):
                for e, v in J.model.e.items():
                    if e[0] == "A":
                        M = m.mats[g][J.model.matrix(e)]
                        val = M.loc[e[1], e[2]] if e[2] in M.columns and e[1] in M.index else None
                        w = v[1] if v[0] == "fix" else th[J.where[e, g]]
                        if val is None or not np.isclose(val, w):
                            bad.append(e)
            return bad
        yield "reported path coefficients stand where they belong", labelled, (lambda: []), info
    for k in range(2):
        ck.concrete("fits %d" % k, now(fits), n=5, functions=[P + "sem.py::SEM." + f for f in ("fit", "_fit", "get_standard_errors")])

    # simulated data sets follow the model
    def simul(rng, i):
        fm = ["f =~ x1 + x2 + x3 + x4", "f =~ x1 + x2 + x3\ny ~ f + z1 + z2", "y1 ~ x1 + x2\ny2 ~ y1 + x1"][i % 3]
        k = int(rng.integers(1, 4))
        rec = []

        class Draws:
            def multivariate_normal(s, mean, cov, size):
                rec.append((np.asarray(mean), np.asarray(cov), size))
                return np.zeros((size, len(mean))) + len(rec)
        keep = ms.rng
        ms.rng = Draws()
        try:
            sim = ms.SimulatedSEM(fm, k, 12, 30, rng=np.random.default_rng(int(rng.integers(1 << 30))))
            d = sim.simulate()
        finally:
            ms.rng = keep
        spec = sim.model_spec
        info = dict(inputs=dict(formula=fm, groups=k))
        names = list(d.columns[:-1])
        o = [names.index(v) for v in spec.sorted_obs_names]
        th = spec.transform_free_to_theta(spec.free)
        W = [spec.group_free_to_model_mats(spec.transform_free_to_group_free(spec.transform_theta_to_free(th), g), g) for g in range(k)]

        def mom(M):
            L, B, Fm, Pm, a, b = M
            Lb = L @ np.linalg.inv(np.eye(len(B)) - B)
            return Lb @ Fm @ Lb.T + Pm, (a + b @ Lb.T).ravel()
        yield "covariance of the draws", (lambda: [r[1][np.ix_(o, o)] for r in rec]), (lambda: [mom(M)[0] for M in W]), info
        yield "mean of the draws", (lambda: [r[0][o] for r in rec]), (lambda: [mom(M)[1] for M in W]), info
        yield "group sizes", (lambda: [r[2] for r in rec] + list(d.groupby("group").size())), (lambda: list(sim.n_obs) * 2), info
    ck.concrete("simulated models", now(simul), n=6, functions=[P + "model_simulator.py::SimulatedSEM"])
