"""Decision procedure for identities between terms.

A term is brought to a normal form  N / (F1^e1 ... Fk^ek)  where N is a Laurent
polynomial with rational coefficients and rational exponents over *generators*:
variables, pi, prime roots, and kernels  exp(m), log(P), sqrt-like roots of
polynomials, and uninterpreted special functions of normalised arguments, all with
their defining relations applied (exp(a+b)=exp(a)exp(b), log(ab)=log a+log b for
positive a,b, r^k = P, sin^2 = 1-cos^2, gammaln(x+1)=gammaln(x)+log x, ...).
The term is identically zero (wherever it is defined, on the sign region of the given
sample point) if N reduces to the empty polynomial.  Only "zero" is a proof; a non-empty
N says nothing by itself.
"""
from fractions import Fraction
import math
from . import term as T


class Blowup(Exception):
    pass


class NF:
    """one normalisation context: generators, relations, sample point"""

    def __init__(self, env, budget=3_000_000, deadline=None):
        self.env = dict(env)          # name -> float sample
        self.gens = []                # id -> (kind, payload)
        self.gval = []                # id -> float sample value
        self.gkey = {}
        self.rel = {}                 # gen id -> (k, poly) : g^k = poly
        self.ops = 0
        self.budget = budget
        self.memo = {}
        self.factors = []             # known irreducible-ish factor polys (as dict), for splitting
        self.facset = set()
        self.assumed = []             # textual side assumptions (positivity at sample)

    # -- generators
    def gen(self, key, val):
        g = self.gkey.get(key)
        if g is None:
            g = len(self.gens)
            self.gens.append(key)
            self.gval.append(val)
            self.gkey[key] = g
        return g

    # -- polynomial helpers (dict: monomial tuple((g,e),...) -> coefficient)
    def mono_mul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for g, e in b:
            s = d.get(g, 0) + e
            if s == 0:
                d.pop(g, None)
            else:
                d[g] = s
        return tuple(sorted(d.items()))

    def pmul(self, p, q):
        if not p or not q:
            return {}
        self.ops += len(p) * len(q)
        if self.ops > self.budget:
            raise Blowup()
        if len(p) > len(q):
            p, q = q, p
        out = {}
        mm = self.mono_mul
        for ma, ca in p.items():
            for mb, cb in q.items():
                m = mm(ma, mb)
                c = out.get(m, 0) + ca * cb
                if c == 0:
                    out.pop(m, None)
                else:
                    out[m] = c
        return self.reduce(out)

    def padd(self, p, q):
        out = dict(p)
        self.ops += len(q)
        for m, c in q.items():
            s = out.get(m, 0) + c
            if s == 0:
                out.pop(m, None)
            else:
                out[m] = s
        return out

    def ppow(self, p, n):
        r = {(): Fraction(1)}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def reduce(self, p):
        """apply g^k = P for root generators whose exponent is >= k (poly result only);
        negative exponents of root generators are handled in rational normalisation"""
        if not self.rel:
            return p
        rel = self.rel
        todo = None
        for m in p:
            for g, e in m:
                if g in rel and e >= rel[g][0]:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        out = {}
        for m, c in p.items():
            hit = None
            for g, e in m:
                if g in rel and e >= rel[g][0]:
                    hit = (g, e)
                    break
            if hit is None:
                s = out.get(m, 0) + c
                if s == 0:
                    out.pop(m, None)
                else:
                    out[m] = s
                continue
            g, e = hit
            k, P = rel[g]
            q = int(e // k)
            r = e - q * k
            rest = tuple((h, x) for h, x in m if h != g)
            if r:
                rest = tuple(sorted(rest + ((g, r),)))
            sub = self.pmul({rest: c}, self.ppow(P, q))
            out = self.padd(out, sub)
        return self.reduce(out)

    def pval(self, p):
        s = 0.0
        for m, c in p.items():
            v = float(c)
            for g, e in m:
                gv = self.gval[g]
                if isinstance(e, int) or e.denominator == 1:
                    v *= gv ** int(e)
                else:
                    v *= abs(gv) ** float(e)
            s += v
        return s

    # -- content / primitive part
    def content(self, p):
        """p = c * mono * prim ; prim canonical: positive at sample, integer coefficients with gcd 1, monomial gcd 1"""
        it = iter(p)
        first = dict(next(it))
        mins = dict(first)
        for m in it:
            d = dict(m)
            for g in list(mins):
                e = d.get(g, 0)
                if e < mins[g]:
                    mins[g] = e
            for g, e in d.items():
                if g not in mins and e < 0:
                    mins[g] = e
        # generators absent from some monomials have min(.,0)
        for g in list(mins):
            for m in p:
                dd = dict(m)
                if g not in dd and mins[g] > 0:
                    mins[g] = 0
                    break
        mono = tuple(sorted((g, e) for g, e in mins.items() if e != 0))
        inv = tuple((g, -e) for g, e in mono)
        q = {self.mono_mul(m, inv): c for m, c in p.items()}
        num = 0
        den = 1
        for c in q.values():
            c = Fraction(c)
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        c = Fraction(num, den)
        v = self.pval(q)
        if v < 0:
            c = -c
        q = {m: x / c for m, x in q.items()}
        return c, mono, q

    def pkey(self, p):
        return frozenset(p.items())

    def try_div(self, p, f):
        """exact division of Laurent polys p / f or None"""
        if len(p) < len(f):
            return None
        self.ops += len(p) * 2
        order = lambda m: (sum(e for _, e in m), m)
        # work with graded lex on packed monomials
        gset = sorted({g for m in p for g, _ in m} | {g for m in f for g, _ in m})
        if self.rel and any(g in self.rel for g in gset):
            pass
        idx = {g: i for i, g in enumerate(gset)}

        def vec(m):
            v = [0] * len(gset)
            for g, e in m:
                v[idx[g]] = e
            return tuple(v)
        P = {vec(m): c for m, c in p.items()}
        F = {vec(m): c for m, c in f.items()}
        # necessary degree conditions
        for i in range(len(gset)):
            pmax = max(v[i] for v in P)
            pmin = min(v[i] for v in P)
            fmax = max(v[i] for v in F)
            fmin = min(v[i] for v in F)
            if pmax - pmin < fmax - fmin:
                return None
        lead = max(F)
        lc = F[lead]
        Q = {}
        steps = 0
        import heapq
        while P:
            m = max(P)
            c = P[m]
            q = tuple(a - b for a, b in zip(m, lead))
            qc = Fraction(c) / lc
            Q[q] = qc
            steps += 1
            self.ops += len(F)
            if self.ops > self.budget:
                raise Blowup()
            if steps > 4 * len(p) + 50:
                return None
            for fm, fc in F.items():
                t = tuple(a + b for a, b in zip(q, fm))
                s = P.get(t, 0) - qc * fc
                if s == 0:
                    P.pop(t, None)
                else:
                    P[t] = s
            if P and max(P) >= m:
                return None
            # Laurent: quotient must stay within degree range; bail out when drifting
            if P:
                mm = max(P)
                if any(mm[i] - lead[i] < min(0, *(v[i] for v in F)) - 60 for i in range(len(gset))):
                    return None
            if len(P) > 20 * (len(p) + len(f)) + 200:
                return None
        return {tuple((gset[i], e) for i, e in enumerate(v) if e != 0): c for v, c in Q.items()}

    def learn(self, prim):
        k = self.pkey(prim)
        if k in self.facset or len(prim) < 2 or len(prim) > 60:
            return
        if len(self.factors) > 80:
            return
        self.facset.add(k)
        self.factors.append(prim)
        self.factors.sort(key=len)

    def split(self, p):
        """p -> (c, mono dict, {key: (poly, e)}) splitting off known factors"""
        c, mono, q = self.content(p)
        fac = {}
        if len(q) > 1:
            for f in list(self.factors):
                if len(f) > len(q):
                    break
                while len(q) > 1:
                    r = self.try_div(q, f) if self.pkey(q) != self.pkey(f) else {(): Fraction(1)}
                    if r is None:
                        break
                    k = self.pkey(f)
                    fac[k] = (f, fac.get(k, (f, 0))[1] + 1)
                    c2, m2, q = self.content(r)
                    c *= c2
                    mono = self.mono_mul(mono, m2)
            if len(q) > 1:
                k = self.pkey(q)
                fac[k] = (q, fac.get(k, (q, 0))[1] + 1)
                self.learn(q)
            else:
                (m2, c2), = q.items()
                c *= c2
                mono = self.mono_mul(mono, m2)
        return c, mono, fac

    # -- rational normal forms: (num poly, den {key:(poly,e)})
    def rconst(self, c):
        return ({(): Fraction(c)} if c else {}, {})

    def rgen(self, g, e=1):
        return ({((g, e),): Fraction(1)}, {})

    def rnorm(self, r):
        """negative / large exponents of root generators out of the numerator; cancel denominators that divide"""
        num, den = r
        if not num:
            return ({}, {})
        # root gens with negative exponent: multiply numerator and denominator
        while True:
            worst = None
            for m in num:
                for g, e in m:
                    if g in self.rel and e < 0:
                        if worst is None or (g == worst[0] and e < worst[1]):
                            worst = (g, e)
                        elif worst is None:
                            worst = (g, e)
            if worst is None:
                break
            g, e = worst
            k, P = self.rel[g]
            n = int(math.ceil(Fraction(-e) / k))
            num = self.reduce({self.mono_mul(m, ((g, n * k),)): c for m, c in num.items()})
            den = dict(den)
            num, den = self.rmul((num, {}), (self.rinvpoly(P, n)[0], self.rmergeden(den, self.rinvpoly(P, n)[1])))
            if not num:
                return ({}, {})
        if den:
            den2 = {}
            for k, (f, e) in den.items():
                while e > 0:
                    q = self.try_div(num, f)
                    if q is None:
                        break
                    num = q
                    e -= 1
                if e > 0:
                    den2[k] = (f, e)
            den = den2
        return (num, den)

    def rmergeden(self, d1, d2):
        out = dict(d1)
        for k, (f, e) in d2.items():
            out[k] = (f, out.get(k, (f, 0))[1] + e)
        return out

    def rinvpoly(self, P, n=1):
        """1/P^n as rational"""
        c, mono, fac = self.split(P)
        num = {tuple((g, -e * n) for g, e in mono): Fraction(1) / Fraction(c) ** n}
        return (num, {k: (f, e * n) for k, (f, e) in fac.items()})

    def rmul(self, a, b):
        num = self.pmul(a[0], b[0])
        return self._light((num, self.rmergeden(a[1], b[1])))

    def _light(self, r):
        num, den = r
        if not num:
            return ({}, {})
        # negative exponents of root generators must be cleared
        if self.rel:
            for m in num:
                for g, e in m:
                    if g in self.rel and e < 0:
                        return self.rnorm(r)
        return r

    def radd(self, a, b):
        if not a[0]:
            return b
        if not b[0]:
            return a
        da, db = a[1], b[1]
        if da == db or (not da and not db):
            return self._light((self.padd(a[0], b[0]), da))
        na, nb = a[0], b[0]
        den = {}
        for k in set(da) | set(db):
            f = (da.get(k) or db.get(k))[0]
            ea = da.get(k, (f, 0))[1]
            eb = db.get(k, (f, 0))[1]
            e = max(ea, eb)
            den[k] = (f, e)
            if e > ea:
                na = self.pmul(na, self.ppow(f, e - ea))
            if e > eb:
                nb = self.pmul(nb, self.ppow(f, e - eb))
        num = self.padd(na, nb)
        return self._light((num, den)) if num else ({}, {})

    def rpow(self, r, c):
        """r ** c, c Fraction"""
        num, den = self.rnorm(r)
        if c.denominator == 1:
            n = int(c)
            if n >= 0:
                return (self.ppow(num, n), {k: (f, e * n) for k, (f, e) in den.items()})
            if not num:
                raise ZeroDivisionError("inverse of identically zero term")
            out = self.rinvpoly(num, -n)
            for k, (f, e) in den.items():
                out = self.rmul(out, (self.ppow(f, e * (-n)), {}))
            return self.rnorm(out)
        if not num:
            return ({}, {})
        cc, mono, fac = self.split(num)
        out = self.rconst(1)
        if cc < 0:
            # negative constant: fold the sign into a factor if the value is positive overall
            neg = True
        else:
            neg = False
        items = [(f, Fraction(e)) for f, e in fac.values()] + [(f, -Fraction(e)) for f, e in den.values()]
        out = self.rmul(out, self.numroot(abs(cc), c))
        sgn = -1 if neg else 1
        for g, e in mono:
            e = Fraction(e)
            gv = self.gval[g]
            ec = e * c
            if g in self.rel:
                # g^(e*c): root generator of a root generator
                k, P = self.rel[g]
                sub = self.rpow((P, {}), ec / k)
                out = self.rmul(out, sub)
                continue
            if gv < 0:
                # |g|^(ec)
                if e.denominator == 1 and e % 2 != 0:
                    sgn = -sgn
                if ec.denominator == 1:
                    t = ({((g, _i(ec)),): Fraction((-1) ** int(ec % 2))}, {})
                    out = self.rmul(out, t)
                else:
                    ga = self.gen(("abs", g), -gv)
                    self.rel.setdefault(ga, (1, {((g, 1),): Fraction(-1)}))
                    # |g| handled as root generator of (-g)
                    out = self.rmul(out, self.rootgen({((g, 1),): Fraction(-1)}, ec))
            else:
                if ec.denominator == 1 or self.gens[g][0] in ("exp", "prime"):
                    out = self.rmul(out, ({((g, _i(ec)),): Fraction(1)}, {}))
                else:
                    out = self.rmul(out, ({((g, _i(ec)),): Fraction(1)}, {}))
        for f, e in items:
            out = self.rmul(out, self.polyroot(f, e * c))
        if sgn < 0:
            raise Blowup("root of a negative quantity")
        return self.rnorm(out)

    def numroot(self, q, c):
        q = Fraction(q)
        out = self.rconst(1)
        for n, s in ((q.numerator, 1), (q.denominator, -1)):
            for p, e in _factor(n).items():
                x = Fraction(e) * c * s
                fl = x.numerator // x.denominator
                fr = x - fl
                out = self.rmul(out, self.rconst(Fraction(p) ** fl))
                if fr:
                    g = self.gen(("prime", p, fr.denominator), float(p) ** (1.0 / fr.denominator))
                    self.rel.setdefault(g, (fr.denominator, {(): Fraction(p)}))
                    out = self.rmul(out, self.rgen(g, int(fr * fr.denominator)))
        return out

    def polyroot(self, f, e):
        """f ** e for a primitive polynomial positive at the sample"""
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                return (self.ppow(f, n), {})
            k = self.pkey(f)
            return ({(): Fraction(1)}, {k: (f, -n)})
        sq = self.perfect_power(f, e.denominator)
        if sq is not None:
            return self.rpow((sq, {}), Fraction(e.numerator))
        return self.rootgen(f, e)

    def rootgen(self, f, e):
        k = e.denominator
        v = self.pval(f)
        if not v > 0:
            raise Blowup("root of nonpositive polynomial at sample")
        g = self.gen(("root", self.pkey(f), k), v ** (1.0 / k))
        if g not in self.rel:
            self.rel[g] = (k, f)
        n = int(e * k)
        q, r = divmod(n, k)
        out = self.rgen(g, r) if r else self.rconst(1)
        if q >= 0:
            return (self.pmul(out[0], self.ppow(f, q)), {})
        inv = self.rinvpoly(f, -q)
        return self.rmul(out, inv)

    def perfect_power(self, f, k):
        if k != 2 or len(f) > 60:
            return None
        # try square root by leading-term algorithm
        gset = sorted({g for m in f for g, _ in m})
        idx = {g: i for i, g in enumerate(gset)}

        def vec(m):
            v = [0] * len(gset)
            for g, e in m:
                v[idx[g]] = e
            return tuple(v)
        F = {vec(m): Fraction(c) for m, c in f.items()}
        lead = max(F)
        lc = F[lead]
        s = _isqrt_frac(lc)
        if s is None or any(Fraction(x) % 2 for x in lead):
            return None
        l = tuple(x / 2 if isinstance(x, Fraction) else x // 2 for x in lead)
        R = {l: s}
        rem = dict(F)
        del rem[lead]
        for _ in range(len(f) + 5):
            if not rem:
                q = {tuple((gset[i], _i(Fraction(e))) for i, e in enumerate(v) if e != 0): c for v, c in R.items()}
                if self.pval(q) < 0:
                    q = {m: -c for m, c in q.items()}
                return q
            m = max(rem)
            t = tuple(a - b for a, b in zip(m, l))
            if t >= l or t in R:
                return None
            c = rem[m] / (2 * s)
            # (R + c t)^2 - R^2 = 2 c t R + c^2 t^2
            for rm, rc in list(R.items()):
                key = tuple(a + b for a, b in zip(rm, t))
                x = rem.get(key, 0) - 2 * c * rc
                if x == 0:
                    rem.pop(key, None)
                else:
                    rem[key] = x
            key = tuple(2 * a for a in t)
            x = rem.get(key, 0) - c * c
            if x == 0:
                rem.pop(key, None)
            else:
                rem[key] = x
            R[t] = c
        return None

    def fadic(self, p, f):
        """digits d0, d1, ... with p = sum_j d_j f**j, no monomial of a digit divisible by the lead of f (lex)"""
        gs = sorted({g for m in p for g, _ in m} | {g for m in f for g, _ in m})
        idx = {g: i for i, g in enumerate(gs)}

        def vec(m):
            v = [0] * len(gs)
            for g, e in m:
                v[idx[g]] = e
            return tuple(v)
        F = {vec(m): c for m, c in f.items()}
        L = max(F)
        lc = F[L]
        if any(a < 0 for a in L):
            return None
        need = [i for i, a in enumerate(L) if a > 0]
        if not need:
            return None
        P = {vec(m): c for m, c in p.items()}
        digits = []
        steps = 0
        while P:
            R, Q = {}, {}
            while P:
                m = max(P)
                c = P.pop(m)
                if all(m[i] >= L[i] for i in need):
                    steps += 1
                    if steps > 2000:
                        return None
                    q = tuple(a - b for a, b in zip(m, L))
                    qc = Fraction(c) / lc
                    Q[q] = qc
                    for fm, fc in F.items():
                        if fm == L:
                            continue
                        t = tuple(a + b for a, b in zip(q, fm))
                        s = P.get(t, 0) - qc * fc
                        if s == 0:
                            P.pop(t, None)
                        else:
                            P[t] = s
                else:
                    R[m] = c
            digits.append({tuple((g, e) for g, e in zip(gs, v) if e): c for v, c in R.items()})
            P = Q
        return digits

    def rval(self, r):
        v = self.pval(r[0])
        for f, e in r[1].values():
            v /= self.pval(f) ** e
        return v

    def rkey(self, r):
        num, den = r
        return (frozenset(num.items()), frozenset((k, e) for k, (f, e) in den.items()))

    # -- transcendental constructors
    def rexp(self, r):
        num, den = self.rnorm(r)
        out = self.rconst(1)
        if len(den) == 1:
            # unique expansion in powers of the denominator, so that equal sums of exponents meet
            (k, (f, e)), = den.items()
            digits = self.fadic(num, f)
            if digits is not None and len(digits) > 1:
                for j, d in enumerate(digits):
                    if d:
                        out = self.rmul(out, self.rexp((d, {k: (f, e - j)} if j < e else {}) if j <= e else (self.pmul(d, self.ppow(f, j - e)), {})))
                return out
        for m, c in num.items():
            c = Fraction(c)
            if not den:
                if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]][0] == "log":
                    arg = self.gens[m[0][0]][2].obj
                    out = self.rmul(out, self.rpow((arg, {}), c))
                    continue
                # c*log(p) with symbolic multiplier stays a kernel keyed by the monomial
                if not m:
                    key = ("exp", "1")
                else:
                    key = ("exp", m)
                g = self.gen(key, math.exp(min(300, self.pval({m: Fraction(1)}))))
            else:
                # one kernel per numerator monomial over the common denominator
                sub = self.rnorm(({m: Fraction(1)}, den))
                (m2, c2), = sub[0].items()
                c = c * c2
                sub = ({m2: Fraction(1)}, sub[1])
                if not sub[1]:
                    key = ("exp", m2)
                else:
                    key = ("exp", m2, frozenset((k, e) for k, (f, e) in sub[1].items()))
                g = self.gen(key, math.exp(max(-300, min(300, self.rval(sub)))))
            out = self.rmul(out, self.rgen(g, _i(c)))
        return out

    def rlog(self, r):
        num, den = self.rnorm(r)
        if not num:
            raise ZeroDivisionError("log of identically zero term")
        c, mono, fac = self.split(num)
        out = self.rconst(0)
        sgn = 1 if c > 0 else -1
        c = abs(c)
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, e in _factor(n).items():
                g = self.loggen({(): Fraction(p)})
                out = self.radd(out, ({((g, 1),): Fraction(e * s)}, {}))
        for g, e in mono:
            kind = self.gens[g]
            if g in self.rel:
                k, P = self.rel[g]
                out = self.radd(out, self._scale(self.rlog((P, {})), Fraction(e) / k))
            elif kind[0] == "exp":
                arg = self.expo_arg(g)
                out = self.radd(out, self._scale(arg, Fraction(e)))
            else:
                if self.gval[g] < 0:
                    if Fraction(e).denominator == 1 and e % 2 != 0:
                        sgn = -sgn
                    lg = self.loggen({((g, 1),): Fraction(-1)})
                else:
                    lg = self.loggen({((g, 1),): Fraction(1)})
                out = self.radd(out, ({((lg, 1),): Fraction(e)}, {}))
        for items, s in ((fac.values(), 1), (den.values(), -1)):
            for f, e in items:
                lg = self.loggen(f)
                out = self.radd(out, ({((lg, 1),): Fraction(e * s)}, {}))
        if sgn < 0:
            raise Blowup("log of a negative quantity at the sample")
        return out

    def loggen(self, f):
        v = self.pval(f)
        if not v > 0:
            raise Blowup("log of nonpositive polynomial at sample")
        key = ("log", self.pkey(f), _Hid(f))
        return self.gen(key, math.log(v))

    def expo_arg(self, g):
        key = self.gens[g]
        if len(key) == 2:
            m = () if key[1] == "1" else key[1]
            return ({m: Fraction(1)}, {})
        den = {k: (dict(k), e) for k, e in key[2]}
        return ({key[1]: Fraction(1)}, den)

    def _scale(self, r, c):
        return ({m: x * c for m, x in r[0].items()}, r[1]) if c else ({}, {})

    def fkernel(self, name, args, vals):
        key = ("fn", name) + tuple(self.rkey(a) for a in args)
        return key

    def neg_lead(self, r):
        """canonical sign: is the smallest monomial's coefficient negative?"""
        m = min(r[0], key=lambda m: (len(m), m))
        return r[0][m] < 0

    def rfn(self, name, args):
        args = [self.rnorm(a) for a in args]
        if name == "exp":
            return self.rexp(args[0])
        if name == "log":
            return self.rlog(args[0])
        a = args[0]
        if name in ("sin", "cos", "tan"):
            if not a[0]:
                return self.rconst(0 if name != "cos" else 1)
            flip = self.neg_lead(a)
            b = self._scale(a, Fraction(-1)) if flip else a
            # half-integer multiples of pi shift
            v = self.rval(b)
            inner = self._is_inverse(b, "arc" + name)
            if inner is not None:
                return self._scale(inner, Fraction(-1)) if (flip and name != "cos") else inner
            C = self.gen(("fn", "cos", self.rkey(b)), math.cos(v))
            S = self.gen(("fn", "sin", self.rkey(b), _Hid(b)), math.sin(v))
            self.rel.setdefault(S, (2, {(): Fraction(1), ((C, 2),): Fraction(-1)}))
            if name == "cos":
                return self.rgen(C)
            s = self.rgen(S)
            if flip:
                s = self._scale(s, Fraction(-1))
            if name == "sin":
                return s
            return self.rmul(s, self.rgen(C, -1))
        if name in ("arctan", "arcsin"):
            if not a[0]:
                return self.rconst(0)
            inner = self._arctan_of_tan(a) if name == "arctan" else None
            if inner is not None:
                return inner
            flip = self.neg_lead(a)
            b = self._scale(a, Fraction(-1)) if flip else a
            v = self.rval(b)
            g = self.gen(("fn", name, self.rkey(b), _Hid(b)), getattr(math, {"arctan": "atan", "arcsin": "asin"}[name])(v))
            r = self.rgen(g)
            return self._scale(r, Fraction(-1)) if flip else r
        if name == "ndtr":
            if not a[0]:
                return self.rconst(Fraction(1, 2))
            inner = self._is_inverse(a, "ndtri")
            if inner is not None:
                return inner
            flip = self.neg_lead(a)
            b = self._scale(a, Fraction(-1)) if flip else a
            v = self.rval(b)
            g = self.gen(("fn", "ndtr", self.rkey(b), _Hid(b)), 0.5 * math.erfc(-v / math.sqrt(2)))
            r = self.rgen(g)
            return self.radd(self.rconst(1), self._scale(r, Fraction(-1))) if flip else r
        if name == "ndtri":
            inner = self._is_inverse(a, "ndtr")
            if inner is not None:
                return inner
            one_minus = self.radd(self.rconst(1), self._scale(a, Fraction(-1)))
            inner = self._is_inverse(one_minus, "ndtr")
            if inner is not None:
                return self._scale(inner, Fraction(-1))
            import scipy.special as sc
            f = getattr(sc.ndtri, "_vf_orig", sc.ndtri)
            v = self.rval(a)
            # canonical: use 1-p representation if "smaller"
            g = self.gen(("fn", "ndtri", self.rkey(a), _Hid(a)), float(f(v)))
            return self.rgen(g)
        if name == "gammaln" or name.startswith("polygamma"):
            # shift integer constant out of the argument
            num, den = a
            c0 = num.get((), Fraction(0)) if not den else Fraction(0)
            sh = c0.numerator // c0.denominator
            if sh and len(num) > (1 if () in num else 0) and abs(sh) <= 12:
                base = (self.padd(num, {(): Fraction(-sh)}), den)
                out = self.rfn(name, [base])
                k = int(name[9:]) if name != "gammaln" else None
                rng = range(sh) if sh > 0 else range(sh, 0)
                for j in rng:
                    x = self.radd(base, self.rconst(j))
                    if k is None:
                        t = self.rlog(x)
                    else:
                        t = self._scale(self.rpow(x, Fraction(-(k + 1))), Fraction((-1) ** k * math.factorial(k)))
                    out = self.radd(out, t if sh > 0 else self._scale(t, Fraction(-1)))
                return out
            if not den and len(num) == 1 and () in num and name == "gammaln" and num[()].denominator == 1 and num[()] > 0 and num[()] < 40:
                return self.rlog(self.rconst(math.factorial(int(num[()]) - 1)))
            import scipy.special as sc
            v = self.rval(a)
            if name == "gammaln":
                val = math.lgamma(v)
            else:
                f = getattr(sc.polygamma, "_vf_orig", sc.polygamma)
                val = float(f(int(name[9:]), v))
            g = self.gen(("fn", name, self.rkey(a)), val)
            return self.rgen(g)
        if name == "bvn":
            g = self.gen(("fn", name) + tuple(self.rkey(x) for x in args), T._bvn([self.rval(x) for x in args], None))
            return self.rgen(g)
        if name.startswith("bvng"):
            ks = [self.rkey(x) for x in args]
            if name.startswith("bvng0"):
                ks[:2] = sorted(ks[:2], key=lambda t: (len(t[0]), len(t[1]), hash(t)))
            g = self.gen(("fn", name, *ks), T._bvng_val(name, [self.rval(x) for x in args], None))
            return self.rgen(g)
        if name in T.OPAQUE:
            return self.rgen(self.gen(("fn", name) + tuple(self.rkey(x) for x in args), float(T.OPAQUE[name](*[self.rval(x) for x in args], None))))
        raise NotImplementedError("normal form of " + name)

    def _is_inverse(self, r, name):
        num, den = r
        if den or len(num) != 1:
            return None
        (m, c), = num.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        key = self.gens[m[0][0]]
        if key[0] == "fn" and key[1] == name:
            return key[-1].obj if isinstance(key[-1], _Hid) else None
        return None

    def _arctan_of_tan(self, r):
        num, den = r
        if den or len(num) != 1:
            return None
        (m, c), = num.items()
        if abs(c) != 1 or len(m) != 2:
            return None
        for (g, e), (h, f) in ((m[0], m[1]), (m[1], m[0])):
            kg, kh = self.gens[g], self.gens[h]
            if e == 1 and f == -1 and kg[0] == "fn" and kh[0] == "fn" and kg[1] == "sin" and kh[1] == "cos" and kg[2] == kh[2]:
                arg = kg[-1].obj
                if abs(self.rval(arg)) < math.pi / 2:
                    return self._scale(arg, c)
        return None

    # -- main recursion
    def norm(self, n):
        memo = self.memo
        for m in T.topo(n):
            if m.id in memo:
                continue
            op = m.op
            if op == "c":
                r = self.rconst(m.args[0])
            elif op == "k":
                r = self.rgen(self.gen(("k", m.args[0]), math.pi if m.args[0] == "pi" else 0.5772156649015329))
            elif op == "x":
                r = self.rgen(self.gen(("x", m.args[0]), float(self.env[m.args[0]])))
            elif op == "+":
                r = self.radd(memo[m.args[0].id], memo[m.args[1].id])
            elif op == "*":
                r = self.rmul(memo[m.args[0].id], memo[m.args[1].id])
            elif op == "^":
                r = self.rpow(memo[m.args[0].id], m.args[1])
            else:
                r = self.rfn(m.args[0], [memo[a.id] for a in m.args[1:]])
            memo[m.id] = r
        return memo[n.id]

    def is_zero(self, n):
        r = self.rnorm(self.norm(n))
        return not r[0]


class _Hid:
    """payload carried in a key without taking part in equality"""
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def __eq__(self, o):
        return isinstance(o, _Hid)

    def __hash__(self):
        return 7


def _frozen(p):
    return frozenset(p.items())


def _i(c):
    c = Fraction(c)
    return int(c) if c.denominator == 1 else c


def _factor(n):
    out = {}
    n = abs(int(n))
    if n > 10 ** 14:
        return {n: 1}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _isqrt_frac(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None
