"""Contract checker: runs the real code symbolically to generate and discharge proof
obligations, and concretely to validate the engine and to replay counterexamples."""
import json
import math
import os
import pickle
import sys
import time
import traceback
import zlib
import numpy as np
from . import term as T
from . import nf as NFM
from . import prove as PR
from . import sym as SY
from .sym import S, SArr, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def D(f, x, order=1):
    """elementwise derivative of f (array/scalar of terms) w.r.t. x of the same shape (or scalar)"""
    fa = np.asarray(f, dtype=object)
    xa = np.broadcast_to(np.asarray(x, dtype=object), fa.shape)
    out = np.empty(fa.shape, dtype=object)
    for i in np.ndindex(fa.shape):
        n = SY.node(fa[i])
        for _ in range(order):
            n = T.diff(n, SY.node(xa[i]))
        out[i] = S(n)
    return out[()] if out.ndim == 0 else out.view(SArr)


def jac(f, x):
    """Jacobian, shape f.shape + x.shape, of terms f w.r.t. variable terms x"""
    fa = np.asarray(f, dtype=object)
    xa = np.asarray(x, dtype=object)
    out = np.empty(fa.shape + xa.shape, dtype=object)
    for i in np.ndindex(fa.shape):
        n = SY.node(fa[i])
        for j in np.ndindex(xa.shape):
            out[i + j] = S(T.diff(n, SY.node(xa[j])))
    return out[()] if out.ndim == 0 else out.view(SArr)


def hess(f, x):
    return jac(jac(f, x), x)


class Obligation:
    __slots__ = ("contract", "label", "idx", "status", "backend", "secs")


class Violation(Exception):
    pass


class Check:
    def __init__(self, pid, title=""):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.obl = {}            # (contract,label,key) -> status
        self.by_backend = {}
        self.solver_s = 0.0
        self.functions = []
        self.bounded = []        # contracts decided by bounded evaluation only
        self.undischarged = []
        self.unsupported = []
        self.runtime_evals = 0
        self.paths = 0
        self.violations = []
        self.known_hits = []
        self.assumptions = set()
        self.samples = []
        self.known = load_known(pid)
        self.contract_names = []
        self.vacuity = []
        self.extra_cov = {}
        self.deadline = self.t0 + (6000 if self.thorough else 700)
        self.proof_s = 0.0
        self.proof_limit = 3000 if self.thorough else 300
        self.only = os.environ.get("VF_ONLY")
        self.idx = -1            # position of the current contract in the check
        self.shared = None       # directory shared by parallel workers
        self.rank = 0
        self.cidx = []
        self.warm = None         # contracts evaluated before the workers are forked (they compile code all workers need)
        self.warming = False

    # -- parallel workers: every worker walks the same sequence of contracts and evaluates those it claims first
    def claim(self, name):
        self.idx += 1
        if self.only and self.only not in name:
            return False
        if self.warm is not None and (name in self.warm) != (self.warming):
            return False
        if self.shared:
            try:
                os.close(os.open(os.path.join(self.shared, "claim-%d" % self.idx), os.O_CREAT | os.O_EXCL | os.O_WRONLY))
            except FileExistsError:
                return False
            self.dump()
            with open(os.path.join(self.shared, "cur-%d" % self.rank), "w") as f:
                f.write("%d %s" % (self.idx, name))
            if os.environ.get("VF_TIMES"):
                if getattr(self, "_tc", None):
                    print("# time %.1f %s" % (time.time() - self._tc[1], self._tc[0]), flush=True)
                self._tc = (name, time.time())
        self.contract_names.append(name)
        self.cidx.append(self.idx)
        return True

    STATE = ("obl", "by_backend", "solver_s", "functions", "bounded", "undischarged", "unsupported", "runtime_evals", "paths",
             "violations", "known_hits", "assumptions", "samples", "contract_names", "cidx", "vacuity", "extra_cov")

    def dump(self):
        if not self.shared:
            return
        f = os.path.join(self.shared, "state-%d" % self.rank)
        with open(f + ".tmp", "wb") as h:
            pickle.dump({k: getattr(self, k) for k in self.STATE}, h)
        os.replace(f + ".tmp", f)

    def merge(self, st):
        for k, v in st["obl"].items():
            if self.obl.get(k) != "discharged":
                self.obl[k] = v
        for b, (n, t) in st["by_backend"].items():
            e = self.by_backend.setdefault(b, [0, 0.0])
            e[0] += n
            e[1] += t
        for k in ("solver_s", "runtime_evals", "paths"):
            setattr(self, k, getattr(self, k) + st[k])
        self.functions += [f for f in st["functions"] if f not in self.functions]
        for k in ("bounded", "undischarged", "unsupported", "violations", "vacuity"):
            setattr(self, k, getattr(self, k) + st[k])
        self.samples = (self.samples + st["samples"])[:6]
        self.known_hits += [h for h in st["known_hits"] if h[0] not in [x for x, _ in self.known_hits]]
        self.assumptions |= st["assumptions"]
        self.extra_cov.update(st["extra_cov"])
        o = sorted(set(zip(self.cidx + st["cidx"], self.contract_names + st["contract_names"])))
        self.cidx, self.contract_names = [i for i, _ in o], [n for _, n in o]

    def parallel(self, run, jobs):
        """run(self) in forked workers; returns the exit status for machinery failures, 0 otherwise"""
        import shutil
        import signal
        import tempfile
        if self.warm:
            self.warming = True
            run(self)
            self.warming, self.idx = False, -1
        tmp = tempfile.mkdtemp(prefix="vf-par-")
        skip = {k: type(v)() if not isinstance(v, (int, float)) else 0 for k, v in ((k, getattr(self, k)) for k in self.STATE)}
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        bad = 0
        try:
            for r in range(jobs):
                pid = os.fork()
                if pid == 0:
                    rc = 4
                    try:
                        self.shared, self.rank = tmp, r
                        self.__dict__.update(skip)
                        run(self)
                        if os.environ.get("VF_TIMES") and getattr(self, "_tc", None):
                            print("# time %.1f %s" % (time.time() - self._tc[1], self._tc[0]), flush=True)
                        self.dump()
                        rc = 0
                    except BaseException:
                        traceback.print_exc()
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
                pids[pid] = r
            while pids:
                pid, st = os.wait()
                if pid not in pids:
                    continue
                r = pids.pop(pid)
                f = os.path.join(tmp, "state-%d" % r)
                if os.path.exists(f):
                    with open(f, "rb") as h:
                        self.merge(pickle.load(h))
                if os.WIFSIGNALED(st):
                    sig = os.WTERMSIG(st)
                    cur = open(os.path.join(tmp, "cur-%d" % r)).read().split(" ", 1) if os.path.exists(os.path.join(tmp, "cur-%d" % r)) else ["0", "?"]
                    if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                        self.idx = int(cur[0])
                        self.violation(cur[1], "crashes with signal %d" % sig, dict(kind="crash", error="the code under contract crashed the process (signal %d)" % sig))
                    else:
                        sys.stderr.write("worker %d ended by signal %d in %s\n" % (r, sig, cur[1]))
                        bad = 4
                elif os.WEXITSTATUS(st):
                    bad = os.WEXITSTATUS(st)
        finally:
            for pid in pids:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            shutil.rmtree(tmp, True)
        self.violations.sort(key=lambda v: v["path"])
        return bad

    # ------------------------------------------------------------------
    def rng(self, name):
        return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    def trust(self, *a):
        self.assumptions.update(a)

    def violation(self, contract, label, payload, confirmed=True):
        ident = "%s :: %s" % (contract, label)
        for k in self.known:
            if k["id"] == ident:
                if ident not in [h for h, _ in self.known_hits]:
                    self.known_hits.append((ident, k["what"]))
                return
        if any(v["ident"] == ident for v in self.violations):
            return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%03d-%d.json" % (self.pid, max(self.idx, 0), len(self.violations)))
        payload = dict(payload, property=self.pid, contract=contract, label=label, seed=self.seed,
                       how_to_replay="cd /verif && ./run %s --replay %s" % (self.pid, path))
        with open(path, "w") as f:
            json.dump(payload, f, indent=1, default=_js)
        self.violations.append(dict(ident=ident, path=path, confirmed=confirmed))
        e = str(payload.get("error") or "").strip().splitlines()
        print("# violated: %s  %s" % (ident, _short(payload) if os.environ.get("VF_VERBOSE") else (payload.get("info") or (e[-1] if e else ""))[:200]), flush=True)

    def obligation(self, contract, label, key, status, backend, secs=0.0):
        k = (contract, label, key)
        if k in self.obl and self.obl[k] == "discharged":
            return
        self.obl[k] = status
        self.by_backend.setdefault(backend, [0, 0.0])
        self.by_backend[backend][0] += status == "discharged"
        self.by_backend[backend][1] += secs
        self.solver_s += secs
        if status != "discharged" and len(self.undischarged) < 200:
            self.undischarged.append("%s :: %s %s (%s)" % (contract, label, key if isinstance(key, str) else "", backend))

    # -- generic concrete contract -------------------------------------
    def concrete(self, name, fn, n=20, functions=(), kind="runtime"):
        """fn(rng, i) -> iterable of (label, got, want, opts) evaluated on the real code; bounded evidence"""
        if not self.claim(name):
            return
        self.functions += [f for f in functions if f not in self.functions]
        rng = self.rng(name)
        cnt = 0
        labels = set()
        for i in range(n if not self.thorough else n * 5):
            if time.time() > self.deadline:
                break
            sub = np.random.default_rng([self.seed, zlib.crc32(name.encode()), i])
            try:
                items = list(fn(sub, i) or ())
            except Skip:
                continue
            except Exception as e:
                self.violation(name, "raises %s" % type(e).__name__, dict(kind="exception", case=i, error=traceback.format_exc(limit=6), inputs=str(getattr(e, "vf_inputs", ""))))
                break
            for it in items:
                label, got, want = it[:3]
                opts = it[3] if len(it) > 3 else {}
                cnt += 1
                labels.add(label)
                ok, info = close(got, want, **{k: v for k, v in opts.items() if k in ("rtol", "atol")})
                if not ok:
                    self.violation(name, label, dict(kind="concrete", case=i, inputs=opts.get("inputs"), got=got, want=want, info=info))
        self.runtime_evals += cnt
        if cnt == 0:
            self.vacuity.append("contract %s evaluated nothing" % name)
        self.bounded.append("%s: %d evaluations of %d clauses on the real code" % (name, cnt, len(labels)))

    # -- symbolic + concrete contract ----------------------------------
    def contract(self, name, dom, fn, n=6, functions=(), extra=None, rtol=1e-6, atol=1e-8, flips=8, budget=400000,
                 consts=None, keep_jit=(), nconc=None, prove=True, requires=None):
        """dom: dict var -> (shape or None, lo, hi[, wide_lo, wide_hi]); requires: precondition on generated inputs; fn(c, **inputs) states clauses with c.eq(label, got, want)"""
        if not self.claim(name):
            return
        self.functions += [f for f in functions if f not in self.functions]
        rng = self.rng(name)
        todo = []
        n = n * (4 if self.thorough else 1)
        for i in range(n):
            todo.append(sample_dom(dom, rng))
        cond_out = {}
        done_flip = 0
        proved_nodes = {}
        nfc = 0
        any_eval = 0
        i = 0
        nsym = 0
        falsify_left, falsify_s = 12, 0.0
        while i < len(todo):
            if time.time() > self.deadline:
                self.undischarged.append("%s: time limit, %d samples left" % (name, len(todo) - i))
                break
            vals = todo[i]
            flipped = i >= n
            i += 1
            if flipped and any(not callable(d) and len(d) > 3 and d[3] == "int" and np.any(np.asarray(vals[k]) != np.round(vals[k])) for k, d in dom.items()):
                continue
            if requires is not None and i > n and not requires(**vals):
                continue
            # symbolic pass
            c = Ctx(self, name, "sym")
            c.consts = consts
            conds = []
            sym_err = None
            SY.ENV.clear()
            T._dcache.clear()
            if prove:
                try:
                    ex = extra() if extra else ()
                    with SY.symbolic(extra=ex, keep_jit=keep_jit) as st, np.errstate(all="ignore"):
                        ins = {k: mk_sym(k, dom[k], v) for k, v in vals.items()}
                        if not ENV_OK():
                            raise Unsupported("env")
                        try:
                            fn(c, **ins)
                        finally:
                            conds = st.conds
                except Skip:
                    continue
                except (Unsupported, NotImplementedError, RecursionError) as e:
                    sym_err = "%s: %s" % (type(e).__name__, e)
                    if os.environ.get("VF_DEBUG"):
                        traceback.print_exc()
                except Exception as e:
                    sym_err = "%s: %s" % (type(e).__name__, e)
                    if os.environ.get("VF_DEBUG"):
                        traceback.print_exc()
            if sym_err:
                self.unsupported.append("%s: %s" % (name, sym_err[:300])) if len(self.unsupported) < 100 else None
            env = dict(SY.ENV)
            self.paths += 1
            # concrete pass
            k = Ctx(self, name, "conc")
            k.wants = c.wants
            cin = {key: conc(dom[key], v) for key, v in vals.items()}
            raised = None
            try:
                with np.errstate(all="ignore"):
                    fn(k, **cin)
            except Skip:
                continue
            except Exception as e:
                raised = e
                tb = traceback.format_exc(limit=8)
            if raised is not None and not isinstance(raised, Undef):
                self.violation(name, "raises %s" % type(raised).__name__, dict(kind="exception", inputs=_plain(vals), error=tb))
                break
            for label, (e, tb) in list(c.errs.items()) + list(k.errs.items()):
                self.violation(name, "%s: raises %s" % (label, type(e).__name__), dict(kind="exception", inputs=_plain(vals), error=tb))
            for label, g in c.termgots.items():
                v = ev_array(g, env, mp=True)
                if v is not None:
                    k.gots[label] = v
                    k.opts[label] = c.opts.get(label, {})
            # compare
            for label, got in k.gots.items():
                wants = c.wants.get(label)
                opts = k.opts.get(label, {})
                if label in k.direct:
                    want = k.direct[label]
                else:
                    if wants is None:
                        continue
                    want = ev_array(wants, env)
                any_eval += 1
                if want is None:
                    continue
                ok, info = close(got, want, rtol=opts.get("rtol", rtol), atol=opts.get("atol", atol))
                if not ok and label not in k.direct and wants is not None:
                    want = ev_array(wants, env, mp=True)
                    ok, info = close(got, want, rtol=opts.get("rtol", rtol), atol=opts.get("atol", atol)) if want is not None else (True, "")
                if not ok:
                    self.violation(name, label, dict(kind="counterexample", inputs=_plain(vals), got=got, want=want, info=info))
            # proof obligations
            if c.pairs and not sym_err or c.pairs:
                nsym += 1
                P = None
                for label, got, want in c.pairs:
                    ga = np.asarray(got, dtype=object)
                    wa = np.asarray(want, dtype=object)
                    try:
                        ga, wa = np.broadcast_arrays(ga, wa)
                    except ValueError:
                        continue
                    for ix in np.ndindex(ga.shape):
                        try:
                            a, b = SY.node(ga[ix]), SY.node(wa[ix])
                        except Unsupported:
                            continue
                        key = (a.id, b.id)
                        if key in proved_nodes:
                            continue
                        pathkey = "%s#%x" % (ix, zlib.crc32(repr((a.id, b.id)).encode()))
                        t = time.time()
                        if a is b:
                            self.obligation(name, label, pathkey, "discharged", "syntactic identity", 0.0)
                            proved_nodes[key] = True
                            continue
                        if P is None:
                            P = PR.Prover(env, budget)
                        if self.proof_s > self.proof_limit:
                            z, backend = None, "proof time limit"
                        else:
                            z, backend = P.prove(a, b)
                        dt = time.time() - t
                        self.proof_s += dt
                        if z:
                            self.obligation(name, label, pathkey, "discharged", backend, dt)
                            proved_nodes[key] = True
                        else:
                            self.obligation(name, label, pathkey, "undischarged", backend, dt)
                            proved_nodes[key] = False
                            if falsify_left > 0 and falsify_s < 20.0:
                                # an undischarged obligation: look for inputs on which the two terms differ, to be replayed on the real code
                                t1 = time.time()
                                falsify_left -= 1
                                e2 = find_diff(a, b, dom, vals, rng, conds)
                                falsify_s += time.time() - t1
                                if e2 is not None:
                                    todo.append(e2)
                                    falsify_left -= 3
            # path exploration: flip one-sided conditions
            for op, a, b, out in conds:
                ck = (op, a.id, b.id)
                cond_out.setdefault(ck, [a, b, set()])[2].add(out)
            if done_flip < flips and i >= n and prove:
                for ck, (a, b, outs) in list(cond_out.items()):
                    if len(outs) == 1 and ck not in proved_flip(self):
                        proved_flip(self).add(ck)
                        e2 = find_flip(ck[0], a, b, next(iter(outs)), dom, vals, rng)
                        if e2 is not None:
                            todo.append(e2)
                            done_flip += 1
                            if done_flip >= flips:
                                break
        self.runtime_evals += any_eval
        if any_eval == 0:
            self.vacuity.append("contract %s evaluated nothing" % name)
        if nsym == 0 and prove:
            self.bounded.append("%s: symbolic execution unavailable, bounded evaluation on %d inputs" % (name, any_eval))
        if len(self.samples) < 6:
            self.samples.append({"contract": name, "inputs": _plain(vals), "clauses": list(c.wants)[:6]})

    # ------------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        nob = len(self.obl)
        ndis = sum(1 for s in self.obl.values() if s == "discharged")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        lab = {}
        for (c, l, k), s in self.obl.items():
            e = lab.setdefault("%s :: %s" % (c, l), [0, 0])
            e[0] += 1
            e[1] += s == "discharged"
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "proof" if nob else "other",
            "coverage": {
                "obligations": nob, "discharged": ndis,
                "checker_cmd": "cd /verif && ./run %s" % self.pid,
                "trusted_base": TRUSTED,
                "explanation": "obligations are identities/VCs generated from the current source by symbolic execution or WP; bounded and run-time evaluations are listed separately and not counted as obligations",
                "discharged_by": {k: {"discharged": v[0], "solver_s": round(v[1], 3)} for k, v in self.by_backend.items()},
                "solver_s": round(self.solver_s, 3),
                "functions_under_contract": self.functions,
                "contracts": self.contract_names,
                "clauses": {k: "%d/%d" % (v[1], v[0]) for k, v in sorted(lab.items())},
                "evaluations": self.runtime_evals,
                "paths": self.paths,
                "bounded": self.bounded,
                "undischarged": self.undischarged[:100],
                "outside_engine": sorted(set(self.unsupported))[:60],
                "not_decided": list(self.vacuity),
                "known_findings": [w for _, w in self.known_hits],
                "samples": self.samples,
            },
            "assumptions": sorted(self.assumptions | set(BASE_ASSUMPTIONS)),
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        ev["coverage"].update(self.extra_cov)
        with open(os.path.join(VERIF, "evidence", "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
        if os.environ.get("VF_VERBOSE"):
            for u in sorted(set(self.unsupported)):
                print("# outside engine:", u)
            for u in self.undischarged[:30]:
                print("# undischarged:", u)
        for ident, what in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        print("%s: %d contracts, %d obligations, %d discharged, %d undischarged, %d run-time evaluations, %d violations, %.1fs" % (
            self.pid, len(self.contract_names), nob, ndis, nob - ndis, self.runtime_evals, len(self.violations), wall))
        if self.violations:
            v = sorted(self.violations, key=lambda v: not v["confirmed"])[0]
            print("VIOLATION property=%s replay=%s%s" % (self.pid, v["path"], "" if v["confirmed"] else " no-failing-input-found"))
            return 1
        if self.vacuity and not self.only:
            # nothing of these contracts could be evaluated: undecided, not a violation (VF_STRICT=1 makes it an error)
            print("%s: vacuous check: %s" % ("error" if os.environ.get("VF_STRICT") else "NOT-DECIDED", self.vacuity))
            if os.environ.get("VF_STRICT"):
                return 3
        if nob + self.runtime_evals == 0:
            print("error: no obligations")
            return 3
        return 0


_pf = {}


def proved_flip(ck):
    return _pf.setdefault(id(ck), set())


def ENV_OK():
    return True


class Skip(Exception):
    pass


class Undef(Exception):
    pass


class Ctx:
    """clause collector handed to a contract body; mode 'sym' or 'conc'"""

    def __init__(self, ck, name, mode):
        self.ck, self.name, self.mode = ck, name, mode
        self.sym = mode == "sym"
        self.pairs = []
        self.wants = {}
        self.gots = {}
        self.direct = {}
        self.opts = {}
        self.errs = {}
        self.consts = None
        self.termgots = {}

    def eq(self, label, got, want, **opts):
        """clause: got (thunk running the real code) equals want (thunk: the specification)"""
        self.opts[label] = opts
        if self.sym:
            g = e1 = None
            try:
                g = got() if callable(got) else got
            except (Unsupported, NotImplementedError) as e:
                e1 = e
            except Exception as e:
                e1 = e
                if type(e).__name__ == "CError":
                    # the C code itself, executed on this operand pattern, does something undefined
                    self.errs[label] = (e, "%s\n%s" % (label, traceback.format_exc(limit=-4)))
                if os.environ.get("VF_DEBUG"):
                    traceback.print_exc()
            try:
                w = want(g) if callable(want) and getattr(want, "__code__", None) is not None and want.__code__.co_argcount - len(want.__defaults__ or ()) == 1 else (want() if callable(want) else want)
                self.wants[label] = w
            except Exception as e:
                if isinstance(e, Skip):
                    raise
                if os.environ.get("VF_DEBUG"):
                    traceback.print_exc()
                if len(self.ck.unsupported) < 100:
                    self.ck.unsupported.append("%s :: %s: spec: %s: %s" % (self.name, label, type(e).__name__, str(e)[:200]))
                return None
            if e1 is not None:
                if len(self.ck.unsupported) < 100:
                    self.ck.unsupported.append("%s :: %s: %s: %s" % (self.name, label, type(e1).__name__, str(e1)[:200]))
                return None
            if isinstance(g, (tuple, list)) and isinstance(w, (tuple, list)):
                for i, (a, b) in enumerate(zip(g, w)):
                    self.pairs.append(("%s[%d]" % (label, i), a, b))
                self.wants[label] = w
            else:
                self.pairs.append((label, g, w))
            return g
        try:
            g = got() if callable(got) else got
        except (Skip, Unsupported):
            raise
        except Exception as e:
            self.errs[label] = (e, traceback.format_exc(limit=8))
            return None
        self.gots[label] = g
        return g

    def poly(self, label, got, want, **opts):
        """clause about the expressions the real code yields (their derivatives or values elsewhere, made with D and
        substitute inside the got thunk): symbolic only; the same expressions are evaluated numerically as a run-time check"""
        self.opts[label] = opts
        if not self.sym:
            return
        g = self.eq(label, got, want, **opts)
        if g is not None:
            self.termgots[label] = g

    def holds(self, label, got, **opts):
        """concrete clause: got() is truthy (run-time only)"""
        self.near(label, lambda: bool(got() if callable(got) else got), True)

    def near(self, label, got, want, **opts):
        """concrete-only clause"""
        self.opts[label] = opts
        if self.sym:
            return
        try:
            self.gots[label] = got() if callable(got) else got
        except Exception as e:
            self.errs[label] = (e, traceback.format_exc(limit=8))
            return
        self.direct[label] = want() if callable(want) else want


def sample_dom(dom, rng, wide=False):
    out = {}
    for k, d in dom.items():
        if callable(d):
            out[k] = np.asarray(d(rng), dtype=float)
            continue
        shape, lo, hi = d[0], d[1], d[2]
        out[k] = rng.uniform(lo, hi, size=shape if shape is not None else ())
        if isinstance(lo, int) and isinstance(hi, int) and len(d) > 3 and d[3] == "int":
            out[k] = rng.integers(lo, hi + 1, size=shape if shape is not None else ()).astype(float)
        # short decimals keep literals readable in replays
        out[k] = np.round(out[k], 6) if not (len(d) > 3 and d[3] == "int") else out[k]
    return out


def mk_sym(k, d, v):
    if np.ndim(v) == 0:
        return SY.symvar(k, float(v))
    return SY.symarray(k, v)


def conc(d, v):
    return float(v) if np.ndim(v) == 0 else np.array(v, dtype=float)


def find_flip(op, a, b, outcome, dom, vals, rng):
    """inputs inside the contract's domain on which the condition takes the other outcome"""
    d = T.sub(a, b)
    vs = T.variables(d)
    names = {}
    for k, v in vals.items():
        if np.ndim(v) == 0:
            names[k] = (k, None)
        else:
            for i in np.ndindex(np.shape(v)):
                names[k + "_" + "_".join(map(str, i))] = (k, i)
    if any(v not in names for v in vs):
        return None
    base = {}
    for nm, (k, i) in names.items():
        base[nm] = float(vals[k] if i is None else vals[k][i])

    def out(env):
        try:
            x = T.evalf(d, env)
        except Exception:
            return None
        if isinstance(x, complex):
            return None
        return {"<": x < 0, "<=": x <= 0, ">": x > 0, ">=": x >= 0, "==": x == 0, "!=": x != 0}[op]
    if op in ("==", "!="):
        return None
    for t in range(300):
        env = dict(base)
        for nm in vs:
            k, i = names[nm]
            dd = dom[k]
            if callable(dd):
                env[nm] = base[nm] * math.exp(rng.normal())
                continue
            lo, hi = dd[1], dd[2]
            if len(dd) >= 5:
                lo, hi = dd[3], dd[4]
            if t % 3 == 0:
                env[nm] = rng.uniform(lo, hi)
            elif t % 3 == 1:
                # log-spaced towards the ends
                e = rng.uniform(-12, 0)
                env[nm] = lo + (hi - lo) * 10 ** e if rng.random() < .5 else hi - (hi - lo) * 10 ** e
            else:
                env[nm] = rng.choice([lo, hi, 0.5 * (lo + hi)]) if lo > -1e300 else rng.normal()
        r = out(env)
        if r is not None and r != outcome:
            new = {k: np.array(v, dtype=float, copy=True) for k, v in vals.items()}
            for nm in vs:
                k, i = names[nm]
                if callable(dom[k]):
                    return None
                if i is None:
                    new[k] = np.asarray(env[nm])
                else:
                    new[k][i] = env[nm]
            return new
    return None


def find_diff(a, b, dom, vals, rng, conds, tries=150):
    """inputs inside the contract's domain, on the same path, on which the two sides of an obligation differ clearly"""
    names = {}
    for k, v in vals.items():
        if np.ndim(v) == 0:
            names[k] = (k, None)
        else:
            for i in np.ndindex(np.shape(v)):
                names[k + "_" + "_".join(map(str, i))] = (k, i)
    vs = [v for v in T.variables(T.sub(a, b)) if v in names]
    if not vs or any(callable(dom[names[v][0]]) for v in vs):
        return None
    cv = {v for _, x, y, _ in conds for v in T.variables(T.sub(x, y))}
    base = {nm: float(vals[k] if i is None else vals[k][i]) for nm, (k, i) in names.items()}
    import mpmath
    best = None
    for t in range(tries):
        env = dict(base)
        for nm in vs:
            dd = dom[names[nm][0]]
            lo, hi = (dd[3], dd[4]) if len(dd) >= 5 and t % 2 else (dd[1], dd[2])
            if t % 3 == 0:
                env[nm] = rng.uniform(lo, hi)
            elif t % 3 == 1:
                e = rng.uniform(-4, 0)
                env[nm] = lo + (hi - lo) * 10 ** e if rng.random() < .5 else hi - (hi - lo) * 10 ** e
            elif rng.random() < 0.5:
                env[nm] = base[nm] * math.exp(rng.normal() * 0.7)
                env[nm] = min(max(env[nm], lo), hi)
        try:
            if not all({"<": x < 0, "<=": x <= 0, ">": x > 0, ">=": x >= 0, "==": x == 0, "!=": x != 0}[op] == out
                       for op, x, out in ((op, T.evalf(T.sub(p, q), env), out) for op, p, q, out in conds)):
                continue
            mpmath.mp.dps = 40
            me = {k: mpmath.mpf(v) for k, v in env.items()}
            x, y = T.evalf(a, me, mpmath.mp, {}), T.evalf(b, me, mpmath.mp, {})
            r = float(abs(x - y) / (abs(y) + mpmath.mpf(10) ** -3))
        except Exception:
            continue
        if best is None or r > best[0]:
            best = (r, env)
            if r > 1e-2 and t > 20:
                break
    if best is None or best[0] < 1e-5:
        return None
    new = {k: np.array(v, dtype=float, copy=True) for k, v in vals.items()}
    for nm in vs:
        k, i = names[nm]
        if i is None:
            new[k] = np.asarray(best[1][nm])
        else:
            new[k][i] = best[1][nm]
    return new


def ev_array(w, env, mp=False):
    if isinstance(w, (tuple, list)):
        r = [ev_array(x, env, mp) for x in w]
        return None if any(x is None for x in r) else r
    wa = np.asarray(w, dtype=object)
    out = np.empty(wa.shape, dtype=float)
    cache = {}
    ctx = None
    if mp:
        import mpmath
        ctx = mpmath.mp
        ctx.dps = 40
        env = {k: mpmath.mpf(v) for k, v in env.items()}
    for i in np.ndindex(wa.shape):
        e = wa[i]
        try:
            if isinstance(e, S):
                v = T.evalf(e.n, env, ctx, cache)
                if mp:
                    v = v.real if hasattr(v, "real") else v
                out[i] = float(v)
            else:
                out[i] = float(e)
        except (ValueError, OverflowError, ZeroDivisionError):
            if not mp:
                return ev_array(w, env, True)
            return None
        except TypeError:
            return None
    return out


def close(got, want, rtol=1e-6, atol=1e-8):
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(got) != len(want):
            return False, "length %d != %d" % (len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            ok, info = close(g, w, rtol, atol)
            if not ok:
                return False, "[%d] %s" % (i, info)
        return True, ""
    if isinstance(want, (bool, np.bool_, str)) or want is None:
        return (got == want), "%r != %r" % (got, want)
    try:
        import scipy.sparse as ssp
        if ssp.issparse(got):
            got = got.toarray()
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except (TypeError, ValueError) as e:
        try:
            g = np.asarray(got, dtype=complex)
            w = np.asarray(want, dtype=complex)
        except (TypeError, ValueError) as e:
            return False, "not numeric: %s" % e
    if g.shape != w.shape:
        try:
            g2, w2 = np.broadcast_arrays(g, w)
        except ValueError:
            return False, "shape %s != %s" % (g.shape, w.shape)
        if g.size != w.size and not (g.ndim == 0 or w.ndim == 0):
            return False, "shape %s != %s" % (g.shape, w.shape)
        if g.size != w.size and g.ndim > 0 and w.ndim == 0:
            return False, "shape %s != %s" % (g.shape, w.shape)
        if g.size == w.size and g.shape != w.shape:
            g2, w2 = g.reshape(-1), w.reshape(-1)
        g, w = g2, w2
    if g.size == 0:
        return True, ""
    bad = ~np.isfinite(g) & np.isfinite(w)
    if bad.any():
        return False, "non-finite result where %g expected" % w[bad].flat[0]
    fin = np.isfinite(w)
    if not fin.all():
        # infinite expectation must be matched exactly
        wi, gi = w[~fin], g[~fin]
        if not np.all((wi == gi) | np.isnan(wi)):
            return False, "expected non-finite %s got %s" % (wi[:3], gi[:3])
        g, w = g[fin], w[fin]
        if g.size == 0:
            return True, ""
    scale = np.max(np.abs(w)) if w.size else 0.0
    err = np.abs(g - w)
    lim = atol + rtol * np.abs(w) + rtol * 1e-3 * scale
    k = np.argmax(err - lim)
    if np.all(err <= lim):
        return True, ""
    return False, "max error %.3g (got %.12g, want %.12g)" % (err.flat[k], np.ravel(np.real(g))[k], np.ravel(np.real(w))[k])


def _plain(vals):
    return {k: (np.asarray(v).tolist()) for k, v in vals.items()}


def _js(o):
    import scipy.sparse as ssp
    if ssp.issparse(o):
        o = o.toarray()
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return [str(x) for x in o.ravel()[:200]]
        if np.iscomplexobj(o):
            return [str(x) for x in o.ravel()[:200]]
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    return str(o)[:2000]


def _short(p):
    s = json.dumps({k: p[k] for k in ("info", "inputs", "error") if k in p and p[k] is not None}, default=_js)
    return s[:700]


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            # finding: property=C01 [contract :: label] description
            if l.startswith("finding: property=%s " % pid):
                r = l.split(" ", 2)[2]
                ident, _, what = r[1:].partition("] ")
                out.append(dict(id=ident, what=what))
    return out


TRUSTED = [
    "vf/sym.py: operator overloading and numpy/scipy stand-ins used during symbolic execution (cross-checked on every run against the real numpy code on concrete inputs)",
    "vf/nf.py: normal-form identity procedure (rational functions over transcendental kernels)",
    "vf/term.py: symbolic differentiation rules",
    "CPython, numpy object-dtype broadcasting",
]
BASE_ASSUMPTIONS = [
    "floating-point arithmetic is treated as real arithmetic in the obligations (run-time evaluations use the real floats, to the stated tolerance)",
    "float literals that agree with a small rational, or a rational multiple or root of pi, to within 2e-15 relative are read as that exact number",
    "elementwise numpy code acts on each element as on the generic element executed symbolically",
    "numba-compiled functions compute what the Python source they were compiled from computes (also exercised compiled, on concrete inputs)",
]


def substitute(expr, pairs):
    """expr (array/scalar of terms) with variable terms replaced: pairs = [(variable, replacement)]"""
    sub = {SY.node(a).id: SY.node(b) for a, b in pairs}
    ea = np.asarray(expr, dtype=object)
    out = np.empty(ea.shape, dtype=object)
    cache = {}
    for i in np.ndindex(ea.shape):
        out[i] = S(T.subst(SY.node(ea[i]), sub, cache))
    return out[()] if out.ndim == 0 else out.view(SArr)
