"""Discharging  a = b : normal form, helped by two sound reductions.

* generalisation: a subterm occurring in both sides may be replaced by a fresh variable; an
  identity in the fresh variable holds for the subterm's every value.
* separation: a sum is zero if it splits into groups of addends each of which is zero.

Both are only searched for with numeric evaluations; what decides is the normal form.
"""
import math
import time
from . import term as T
from . import nf as NFM

ERRS = (NFM.Blowup, NotImplementedError, ZeroDivisionError, OverflowError, ValueError, RecursionError)


def numeric(d, env, over, cache=None):
    """evaluate d with some nodes' values overridden"""
    c = dict(over)
    try:
        v = T.evalf(d, env, None, c)
        return float(v), c
    except (ArithmeticError, ValueError, TypeError, KeyError):
        return None, c


def perturb(env, k):
    out = {}
    for i, (n, v) in enumerate(sorted(env.items())):
        out[n] = v * (1 + 0.013 * ((i * 7 + k * 5) % 11 - 5) / 5.0)
    return out


def reach(n):
    return {m.id: m for m in T.topo(n)}


def is_num_zero(v, scale):
    return v is not None and abs(v) <= 1e-8 * scale


def generalise(a, b, env, cand_limit=400, work=3_000_000, tlimit=4.0):
    d = T.sub(a, b)
    t0 = time.time()
    ra, rb = reach(a), reach(b)
    cands = [m for i, m in ra.items() if i in rb and m.op not in "cxk"]
    if not cands:
        return None
    order = T.topo(d)
    size = {}
    pos = {m.id: i for i, m in enumerate(order)}
    # size by position in topological order of the whole (late = large)
    cands.sort(key=lambda m: -pos.get(m.id, 0))
    envs = [env, perturb(env, 1)]
    base = []
    for e in envs:
        c = {}
        try:
            T.evalf(d, e, None, c)
        except (ArithmeticError, ValueError, TypeError, KeyError):
            continue
        base.append((e, c))
    if not base:
        return None
    scale0 = max(abs(base[0][1].get(a.id, 0.0)) if a.id in base[0][1] else 0.0, abs(base[0][1].get(b.id, 0.0)) if b.id in base[0][1] else 0.0, 1e-12)
    over = [{} for _ in base]
    cut = []
    spent = 0
    dead = set()
    for j, m in enumerate(cands[:cand_limit]):
        if m.id in dead:
            continue
        if spent > work or time.time() - t0 > tlimit:
            break
        ok = True
        for (e, c), o in zip(base, over):
            v = c.get(m.id)
            if v is None or isinstance(v, complex) or not math.isfinite(v) or v == 0:
                ok = False
                break
            o2 = dict(o)
            o2[m.id] = v * (1.0 + 0.017 * ((m.id * 2654435761 % 13) - 6.5) / 6.5)
            r, _ = numeric(d, e, o2)
            spent += len(order)
            if not is_num_zero(r, scale0):
                ok = False
                break
        if ok:
            for (e, c), o in zip(base, over):
                o[m.id] = c[m.id] * (1.0 + 0.017 * ((m.id * 2654435761 % 13) - 6.5) / 6.5)
            cut.append(m)
            # nodes now unreachable need no trial
            seen = set()
            stack = [d]
            cs = {x.id for x in cut}
            while stack:
                x = stack.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.id in cs:
                    continue
                for y in x.args:
                    if isinstance(y, T.Node):
                        stack.append(y)
            dead = {x.id for x in cands if x.id not in seen}
    if not cut:
        return None
    sub, env2 = {}, dict(env)
    c0 = base[0][1]
    for m in cut:
        nm = "G%d__" % m.id
        sub[m.id] = T.var(nm)
        env2[nm] = float(c0[m.id])
    return T.subst(d, sub), env2, len(cut)


def addends(n, limit=400):
    if n.op == "+":
        l = addends(n.args[0], limit)
        r = addends(n.args[1], limit)
        return None if l is None or r is None or len(l) + len(r) > limit else l + r
    if n.op == "*":
        x, y = n.args
        lx, ly = addends(x, limit), addends(y, limit)
        if lx is None or ly is None or len(lx) * len(ly) > limit:
            return None
        if len(lx) == 1 and len(ly) == 1:
            return [n]
        return [T.mul(u, v) for u in lx for v in ly]
    return [n]


def separate(d, env):
    """groups of addends, each numerically zero; None if no split is found"""
    ts = addends(d)
    if ts is None or len(ts) < 3:
        return None
    vs = [set(T.variables(t)) for t in ts]
    cnt = {}
    for s in vs:
        for v in s:
            cnt[v] = cnt.get(v, 0) + 1
    best = None
    for thr in (1.0, 0.8, 0.6, 0.5, 0.4, 0.3):
        shared = {v for v, k in cnt.items() if k >= thr * len(ts)}
        par = list(range(len(ts)))

        def find(i):
            while par[i] != i:
                par[i] = par[par[i]]
                i = par[i]
            return i
        own = {}
        for i, s in enumerate(vs):
            for v in s - shared:
                if v in own:
                    par[find(i)] = find(own[v])
                else:
                    own[v] = i
        g = {}
        for i in range(len(ts)):
            g.setdefault(find(i), []).append(ts[i])
        groups = list(g.values())
        if len(groups) < 2:
            continue
        ok = True
        for e in (env, perturb(env, 2)):
            for gr in groups:
                vals = [numeric(t, e, {})[0] for t in gr]
                if any(v is None for v in vals) or abs(sum(vals)) > 1e-8 * max(sum(abs(v) for v in vals), 1e-12):
                    ok = False
                    break
            if not ok:
                break
        if ok and (best is None or len(groups) > len(best)):
            best = groups
    if best is None:
        return None
    out = []
    for gr in best:
        s = gr[0]
        for t in gr[1:]:
            s = T.add(s, t)
        out.append(s)
    return out


class Prover:
    def __init__(self, env, budget=400000):
        self.env, self.budget = env, budget
        self.N = None

    def nf(self, d, env, budget, fresh=False):
        if fresh:
            N = NFM.NF(env, budget=budget)
            return bool(N.is_zero(d))
        if self.N is None or self.N.ops > 4 * self.budget:
            self.N = NFM.NF(env, budget=budget)
        self.N.budget = self.N.ops + budget
        try:
            return bool(self.N.is_zero(d))
        except ERRS:
            self.N = None
            raise

    def prove(self, a, b):
        """(discharged?, back end)"""
        env = self.env
        why = "normal form"
        d = T.sub(a, b)
        big = len(T.topo(d)) > 3000
        try:
            if self.nf(d, env, min(self.budget, 25000) if big else min(self.budget, 60000)):
                return True, "normal form"
        except ERRS as e:
            why = "normal form: %s" % type(e).__name__
        va, _ = numeric(a, env, {})
        vb, _ = numeric(b, env, {})
        if va is not None and vb is not None and abs(va - vb) > 1e-5 * (abs(va) + abs(vb)) + 1e-7:
            return False, "numerically different"
        parts = [(d, env)]
        g = generalise(a, b, env)
        back = "normal form"
        if g is not None:
            parts = [(g[0], g[1])]
            back = "generalisation + normal form"
        d1, e1 = parts[0]
        s = separate(d1, e1)
        if s is not None:
            parts = [(x, e1) for x in s]
            back = back.replace("normal form", "separation + normal form")
        try:
            if (g is not None or s is not None) and all(self.nf(x, e, self.budget, True) for x, e in parts):
                return True, back
        except ERRS as e:
            why = "normal form: %s" % type(e).__name__
        if self.budget > 60000:
            try:
                if self.nf(d, env, self.budget):
                    return True, "normal form"
            except ERRS as e:
                why = "normal form: %s" % type(e).__name__
        return False, why
