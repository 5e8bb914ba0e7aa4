"""C17 design covariance of stratified cluster samples"""
import importlib
import itertools
import numpy as np

SD = "pystatsm/utilities/complexdesign/sample_design.py::"
RP = "pystatsm/utilities/complexdesign/replication.py::"
WARM = ("all layouts of 3 rows",)


def partitions(items):
    items = list(items)
    if not items:
        yield []
        return
    for p in partitions(items[1:]):
        yield [[items[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[items[0]] + p[i]] + p[i + 1:]


def layouts(n):
    """every way to put n rows into clusters and the clusters into strata"""
    for p in partitions(range(n)):
        for q in partitions(range(len(p))):
            s, g = np.zeros(n, int), np.zeros(n, int)
            for h, block in enumerate(q):
                for k in block:
                    s[p[k]] = h
                    g[p[k]] = k
            yield s, g


def meat_spec(strata, fpc, U):
    """strata: lists of clusters, a cluster a list of rows"""
    p = len(U[0])
    M = np.zeros((p, p), dtype=object)
    for h, clusters in enumerate(strata):
        n = len(clusters)
        if n < 2:
            continue
        T = [[sum(U[i][j] for i in rows) for j in range(p)] for rows in clusters]
        mean = [sum(t[j] for t in T) / n for j in range(p)]
        f = 0 if fpc is None else fpc[h]
        for a in range(p):
            for b in range(p):
                M[a, b] = M[a, b] + sum((t[a] - mean[a]) * (t[b] - mean[b]) for t in T) * (1 - f) * n / (n - 1)
    return M


def strata_of(s, g, policy):
    """strata in label order; under 'aggregate' the single-cluster strata form one last stratum"""
    out, single = [], []
    for h in sorted(set(s)):
        ks = sorted(set(g[s == h]))
        cl = [list(np.flatnonzero((s == h) & (g == k))) for k in ks]
        if len(cl) == 1 and policy == "aggregate":
            single += cl
        else:
            out.append(cl)
    return out + ([single] if single else [])


def run(ck):
    import pandas as pd
    sd = importlib.import_module("pystatsm.utilities.complexdesign.sample_design")
    rp = importlib.import_module("pystatsm.utilities.complexdesign.replication")
    D = sd.SampleDesign

    LAB = dict(
        int=lambda a: a, neg=lambda a: 3 * a - 7, float=lambda a: a / 2 - 1.0, str=lambda a: np.array(["h%02d" % v for v in a], dtype=object),
        cat=lambda a: pd.Categorical(["c%02d" % v for v in a], categories=["c%02d" % v for v in range(-1, 14)]),
        ordered=lambda a: pd.Categorical(["x%02d" % v for v in a], categories=["x%02d" % v for v in range(13)], ordered=True),
        date=lambda a: pd.Timestamp("2020-02-27") + pd.to_timedelta(a, unit="D"),
        uint8=lambda a: (np.asarray(a) + 243).astype(np.uint8), string=lambda a: pd.array(["s%02d" % v for v in a], dtype="string"))
    kinds = list(LAB)

    def frame(s, g, ls, lg, **cols):
        n = len(s)
        df = pd.DataFrame(dict(rowid=np.arange(n), **cols))
        df["st"] = LAB[ls](s)
        df["cl"] = LAB[lg](g)
        return df

    FN = [SD + f for f in ("_grouped_cov", "_sizes_to_ptr", "_has_singletons", "_aggregate_singletons", "_build_layout", "_ensure_columns", "SampleDesign.__init__", "SampleDesign.meat")]

    def layout(c, tag, s, g, ls, lg, policy, u, f):
        n = len(s)
        strata = strata_of(s, g, policy)
        H = len(strata)
        ff = None if f is None else f[:H]
        d = D(frame(s, g, ls, lg), "st", "cl", fpc=ff, singleton=policy)
        order = list(d.df["rowid"])
        c.holds("the design keeps every row once, %s" % tag, sorted(order) == list(range(n)))
        c.holds("numbers of rows, strata and clusters, %s" % tag, (d.n, d.n_str, d.n_grp) == (n, H, sum(map(len, strata))))
        c.eq("covariance of a total is the stratified cluster formula, %s" % tag, lambda: d.meat(u[order]), lambda: meat_spec(strata, ff, u))

    rng = np.random.default_rng(17)
    for n in (1, 2, 3, 4, 5):
        cases = []
        for m, (s, g) in enumerate(layouts(n)):
            # labels: a random relabelling so that label order is not row order; cluster numbers may repeat between strata
            hs = rng.permutation(12)[:s.max() + 1]
            gs = rng.permutation(12)[:g.max() + 1]
            if m % 2:
                cnt, gl = {}, {}
                for k in rng.permutation(g.max() + 1):
                    h = s[g == k][0]
                    gl[k] = cnt.get(h, 0)
                    cnt[h] = gl[k] + 1
                gs = np.array([gl[k] for k in range(g.max() + 1)])
            for policy in ("aggregate", "none"):
                cases.append((m, hs[s], gs[g], kinds[(m + n) % len(kinds)], kinds[(m // len(kinds) + 2 * n) % len(kinds)], policy))
        for b in range(0, len(cases), 24):
            def body(c, u, f, part=cases[b:b + 24]):
                for m, s, g, ls, lg, policy in part:
                    layout(c, "layout %d %s (%s/%s labels)" % (m, policy, ls, lg), s, g, ls, lg, policy, u, f if m % 3 else None)
            ck.contract("all layouts of %d rows (%d-%d)" % (n, cases[b][0], cases[min(b + 23, len(cases) - 1)][0]),
                        dict(u=((n, 2 if n < 5 else 1), -2, 2), f=((n,), 0, 0.9)), body, n=1, flips=0, functions=FN)

    # ---- defaults, weights, subpopulations, sandwich -------------------------------------
    s0, g0 = np.array([4, 1, 4, 1, 9, 9, 4]), np.array([2, 0, 2, 3, 5, 1, 0])

    def weights_of(c, u, w, f, A):
        df = pd.DataFrame(dict(rowid=np.arange(7), st=s0, cl=g0, w=[0.5, 2.0, 1.25, 3.0, 0.0, 1.5, 0.75]))
        d = D(df, "st", "cl", "w", fpc=f)
        o = np.array(d.df["rowid"])
        c.holds("weights stay with their rows", np.array_equal(d.w, np.array(df["w"])[o]))
        c.holds("the given frame is not changed", list(df.columns) == ["rowid", "st", "cl", "w"] and np.array_equal(df["rowid"], np.arange(7)))
        keep = np.array([True, False, True, True, False, False, True])
        sub = d.subset(keep)
        c.holds("a subpopulation keeps the design and zeroes weights", sub.df is d.df and sub.layout is d.layout and np.array_equal(sub.w, np.where(keep, d.w, 0.0)) and (sub.strata, sub.psuind, sub.weight) == (d.strata, d.psuind, d.weight))
        c.holds("a subpopulation leaves the parent design alone", np.array_equal(d.w, np.array(df["w"])[o]))
        s2 = sub.subset(np.arange(7) > 1)
        c.holds("subpopulations of subpopulations", np.array_equal(s2.w, np.where(keep & (np.arange(7) > 1), d.w, 0.0)))
        st = strata_of(s0, g0, "aggregate")
        M = meat_spec(st, f, u)
        c.eq("meat of a subpopulation", lambda: sub.meat(u[o]), lambda: M)
        c.eq("sandwich", lambda: sd.design_sandwich(A, u[o], d), lambda: A @ M @ A)
        inp = u[o]
        before = inp.copy()
        d.meat(inp)
        c.eq("the scores are not changed", lambda: inp, lambda: before)
        e = D(df.drop(columns=["st"]), psuind="cl")
        oo = np.array(e.df["rowid"])
        c.eq("one stratum by default", lambda: e.meat(u[oo]), lambda: meat_spec(strata_of(0 * s0, g0, "none"), None, u))
        e = D(df, strata="st", fpc=f)
        oe = np.array(e.df["rowid"])
        c.eq("each row its own cluster by default", lambda: e.meat(u[oe]), lambda: meat_spec(strata_of(s0, np.arange(7), "none"), f, u))
        e = D(df)
        c.eq("simple random sample by default", lambda: e.meat(u[np.array(e.df["rowid"])]), lambda: meat_spec(strata_of(0 * s0, np.arange(7), "none"), None, u))
        c.holds("unit weights by default", np.array_equal(e.w, np.ones(7)) and e.n_str == 1 and e.n_grp == 7)
    ck.contract("weights, subpopulations, defaults and sandwich", dict(u=((7, 2), -2, 2), w=((7,), 0, 2), f=((3,), 0, 0.9), A=((2, 2), -2, 2)), weights_of,
                n=2, flips=0, functions=FN + [SD + "SampleDesign.subset", SD + "design_sandwich"])

    # ---- run-time contracts at larger sizes ---------------------------------------------
    def raises(f, *a, **k):
        try:
            f(*a, **k)
        except ValueError:
            return 1.0
        return 0.0

    def big(rng, i):
        n = int(rng.integers(6, 80))
        s = rng.integers(0, int(rng.integers(1, 8)), n)
        g = rng.integers(0, int(rng.integers(1, 7)), n)
        if i % 3 == 0:
            g = g + 10 * s
        if i % 4 == 1:
            for h in rng.permutation(s.max() + 1)[:2]:
                g[s == h] = 3
        ls, lg = kinds[int(rng.integers(len(kinds)))], kinds[int(rng.integers(len(kinds)))]
        s, g = s % 12, g % 80
        if lg in ("cat", "ordered", "uint8"):
            g = g % 12
        u = rng.normal(size=(n, 3))
        w = rng.uniform(0, 2, n)
        df = frame(s, g, ls, lg, w=w)
        if i % 2:
            df.index = rng.permutation(n) + 100
        single = any(len(set(g[s == h])) == 1 for h in set(s))
        for policy in ("aggregate", "none", "error"):
            tag = "%s (%s/%s labels)" % (policy, ls, lg)
            if policy == "error" and single:
                yield "single-cluster strata are refused " + tag, raises(D, df, "st", "cl", singleton=policy), 1.0
                continue
            st = strata_of(s, g, policy)
            f = rng.uniform(0, 0.9, len(st)) if i % 3 else None
            d = D(df, "st", "cl", "w", fpc=f if f is None or i % 2 else list(f), singleton=policy)
            o = np.array(d.df["rowid"])
            inp = dict(inputs=dict(strata=[str(t) for t in df["st"]], clusters=[str(t) for t in df["cl"]], policy=policy))
            yield "rows kept " + tag, sorted(o), np.arange(n), inp
            yield "weights " + tag, d.w, w[o], inp
            yield "meat " + tag, d.meat(u[o]), meat_spec(st, f, u).astype(float), inp
            yield "sizes " + tag, [d.n, d.n_str, d.n_grp], [n, len(st), sum(map(len, st))], inp
            perm = rng.permutation(n)
            e = D(df.iloc[perm], "st", "cl", "w", fpc=f, singleton=policy)
            yield "row order is immaterial " + tag, e.meat(u[np.array(e.df["rowid"])]), d.meat(u[o]), inp
            yield "wrong number of corrections is refused " + tag, raises(D, df, "st", "cl", fpc=np.zeros(len(st) + 1), singleton=policy), 1.0
            yield "wrong number of rows is refused " + tag, raises(d.meat, u[:-1]) * raises(d.meat, u[:, 0]), 1.0
            yield "wrong mask is refused " + tag, raises(d.subset, np.ones(n - 1, dtype=bool)), 1.0
            keep = rng.random(n) < 0.5
            b = d.subset(keep)
            yield "subpopulation " + tag, b.w, np.where(keep, w[o], 0), inp
            yield "subpopulation meat " + tag, b.meat(u[o]), d.meat(u[o]), inp
        yield "unknown policy is refused", raises(D, df, "st", "cl", singleton="remove"), 1.0
    ck.concrete("larger designs, label types, policies and row orders", big, 40, functions=FN)

    # ---- model adapters and replication -----------------------------------------------------
    def wls(c, x, y, w):
        df = pd.DataFrame(dict(x=[0.5, -1.0, 2.0, 0.25], y=[1.0, 2.0, -1.0, 0.5]))

        class Des:
            pass
        de = Des()
        de.df, de.w = df, w
        X = np.stack([np.ones(4), np.array(df["x"])], axis=1)
        r = rp.WLSAdapter("y ~ x").fit(de)
        c.eq("weighted normal equations", lambda: X.T @ (w * (np.array(df["y"]) - X @ r.params)), lambda: np.zeros(2))
        c.eq("bread is the inverse of the weighted cross products", lambda: r.bread @ (X.T @ (w[:, None] * X)), lambda: np.eye(2))
        c.eq("scores", lambda: r.score_i, lambda: X * (w * (np.array(df["y"]) - X @ r.params))[:, None])
    ck.contract("weighted least squares adapter", dict(x=((4,), -2, 2), y=((4,), -2, 2), w=((4,), 0.2, 2)), wls, n=2, flips=0, functions=[RP + "WLSAdapter.fit"])

    def summaries(p):
        def body(c, T, V, t):
            V3 = V.reshape(3, p, p)
            V3 = np.array([v @ v.T + 0.25 * np.eye(p) for v in V3])
            r = rp.ReplicationResult(params=T, Vs=V3, theta_true=t)
            mean = T.sum(axis=0) / 3
            E = (T - mean).T @ (T - mean) / 2
            A = V3.sum(axis=0) / 3
            di = np.array([A[i, i] for i in range(p)])
            ei = np.array([E[i, i] for i in range(p)])
            c.eq("bias", lambda: r.bias(), lambda: mean - t)
            c.eq("empirical covariance", lambda: np.reshape(r.empirical_cov(), (p, p)), lambda: E)
            c.eq("mean analytical covariance", lambda: r.mean_analytical_cov(), lambda: A)
            c.eq("empirical standard errors", lambda: r.se_emp(), lambda: np.sqrt(ei))
            c.eq("analytical standard errors", lambda: r.se_ana(), lambda: np.sqrt(di))
            c.eq("ratio", lambda: r.se_ratio(), lambda: np.sqrt(ei) / np.sqrt(di))
            c.eq("z scores", lambda: r.z_scores(), lambda: np.array([[(T[k, i] - t[i]) / np.sqrt(V3[k, i, i]) for i in range(p)] for k in range(3)]))
        return body
    for p in (1, 2, 3):
        ck.contract("replication summaries, %d parameters" % p, dict(T=((3, p), -2, 2), V=((3, p * p), -1, 1), t=((p,), -2, 2)), summaries(p), n=2, flips=0,
                    functions=[RP + "ReplicationResult." + f for f in ("bias", "empirical_cov", "mean_analytical_cov", "se_emp", "se_ana", "se_ratio", "z_scores")])

    def study(rng, i):
        import scipy.stats
        from pystatsm.utilities.complexdesign import LinearPopulation, BinomialPopulation
        kw = dict(n_strata=3, n_psu_per_stratum=4, n_obs_per_psu=6, intra_cluster_var=0.3, rng=np.random.default_rng(i), weight_fn=lambda d: 0.5 + d["strata"] / 4)
        if i % 2:
            pop = LinearPopulation("y", ["a", "b"], "a + b", [0.5, 1.0, -0.5], **kw)
            ad = rp.WLSAdapter("y ~ a + b")
        else:
            pop = BinomialPopulation("y", ["a"], "a", [0.2, 0.4], **kw)
            from pystatsm.pyglm2.families import Binomial
            ad = rp.GLMAdapter("y ~ a", family=Binomial)
        R = 4
        res = rp.replicate(pop, lambda d: D(d, "strata", "psu", "w"), ad, R, rng=np.random.default_rng(50 + i), progress=False)
        yield "true parameters", res.theta_true, pop.beta
        r2 = np.random.default_rng(50 + i)
        for k in range(R):
            d = D(pop.draw(r2), "strata", "psu", "w")
            X = np.column_stack([np.ones(d.n)] + [d.df[v] for v in pop.x_vars])
            y = d.df["y"].to_numpy()
            b = res.params[k]
            mu = X @ b if i % 2 else 1 / (1 + np.exp(-X @ b))
            v = np.ones(d.n) if i % 2 else mu * (1 - mu)
            U = X * (d.w * (y - mu))[:, None]
            yield "estimating equations of replicate %d" % k, U.sum(axis=0), np.zeros(X.shape[1]), dict(atol=1e-3, rtol=0)
            B = np.linalg.inv(X.T @ (X * (d.w * v)[:, None]))
            st = strata_of(d.df["strata"].to_numpy(), d.df["psu"].to_numpy(), "aggregate")
            yield "sandwich of replicate %d" % k, res.Vs[k], B @ meat_spec(st, None, U).astype(float) @ B, dict(rtol=1e-4)
        z = (res.params - pop.beta) / np.sqrt(np.array([np.diag(V) for V in res.Vs]))
        for al in (0.05, 0.3):
            yield "coverage", res.coverage(al), np.mean(np.abs(z) < scipy.stats.norm.isf(al / 2), axis=0)
        sm = res.summary(0.3)
        yield "summary", sm.to_numpy(), np.column_stack([pop.beta, res.params.mean(0), res.params.mean(0) - pop.beta, res.params.std(0, ddof=1), np.sqrt(np.diag(res.Vs.mean(0))),
                                                         res.params.std(0, ddof=1) / np.sqrt(np.diag(res.Vs.mean(0))), res.coverage(0.3)])
        yield "summary columns", float(list(sm.columns) == ["true", "mean", "bias", "se_emp", "se_ana", "ratio", "coverage"] and list(sm.index) == list(pop.parameter_names)), 1.0
    ck.concrete("replication studies", study, 4, functions=[RP + "replicate", RP + "GLMAdapter.fit", RP + "ReplicationResult.summary", RP + "ReplicationResult.coverage"])
