"""Execution of the repository's C kernels, and of the Cython wrappers around them, from their current source.

The C files are parsed by clang (-ast-dump=json) on every run; the abstract syntax tree of each function is executed
with concrete integers and symbolic data, every memory access is checked against the extent of the object it refers to,
every read of an uninitialised cell and every write through a pointer to const is an error.  The .pyx wrappers are
translated line by line: argument types are dropped and `&X[0]` becomes a pointer to the first element of X."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import numpy as np
from .sym import Unsupported

INT_MAX = 2 ** 31 - 1


class CError(Exception):
    """the C code does something undefined: out-of-bounds, uninitialised read, write to const, overflow"""


class Undefd:
    def __repr__(self):
        return "<uninitialised>"


UND = Undefd()


class Buf:
    def __init__(self, cells, name, const=False, flush=None):
        self.cells, self.name, self.const, self.flush = cells, name, const, flush
        self.freed = False


class Ptr:
    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off

    def _cell(self, i):
        k = self.off + i
        if self.buf is None:
            raise CError("null pointer dereferenced")
        if self.buf.freed:
            raise CError("access to freed %s" % self.buf.name)
        if not 0 <= k < len(self.buf.cells):
            raise CError("%s[%d] is outside its %d elements" % (self.buf.name, k, len(self.buf.cells)))
        return k

    def load(self, i=0):
        v = self.buf.cells[self._cell(i)] if self.buf is not None else self._cell(i)
        if v is UND:
            raise CError("%s[%d] is read before it is written" % (self.buf.name, self.off + i))
        return v

    def store(self, v, i=0):
        k = self._cell(i)
        if self.buf.const:
            raise CError("write to the operand %s" % self.buf.name)
        self.buf.cells[k] = v

    def __add__(self, i):
        return Ptr(self.buf, self.off + i)

    def __sub__(self, o):
        if isinstance(o, Ptr):
            return self.off - o.off
        return Ptr(self.buf, self.off - o)


class Var:
    """a local variable as an lvalue"""
    __slots__ = ("v", "name")

    def __init__(self, v, name):
        self.v, self.name = v, name

    def load(self, i=0):
        if self.v is UND:
            raise CError("%s is read before it is written" % self.name)
        return self.v

    def store(self, v, i=0):
        self.v = v


class Elem:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def load(self):
        return self.p.load()

    def store(self, v):
        self.p.store(v)


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    pass


SIZES = {"char": 1, "int": 4, "unsigned int": 4, "float": 4, "double": 8, "long": 8, "unsigned long": 8, "size_t": 8,
         "_Complex double": 16, "double _Complex": 16, "long long": 8, "_Complex float": 8}


def size_of(t):
    t = t.replace("const ", "").strip()
    if t.endswith("*"):
        return 8
    if t in SIZES:
        return SIZES[t]
    raise Unsupported("sizeof %s" % t)


class Alloc:
    def __init__(self, nbytes, fill):
        self.nbytes, self.fill = nbytes, fill


class CProgram:
    def __init__(self, repo):
        self.funcs = {}
        self.failed = []
        src = os.path.join(repo, "pystatsm", "utilities", "src")
        clang = shutil.which("clang") or shutil.which("clang-18")
        if not clang:
            raise Unsupported("clang not found")
        setup = open(os.path.join(repo, "setup.py")).read()
        files = [f for f in sorted(glob.glob(os.path.join(src, "*.c"))) if os.path.basename(f) in setup]
        stub = tempfile.mkdtemp(prefix="vf-inc-")
        open(os.path.join(stub, "omp.h"), "w").close()  # OpenMP pragmas are not enabled in the build either
        try:
            self.parse(clang, src, stub, files)
        finally:
            shutil.rmtree(stub, True)
        self.steps = 0

    def parse(self, clang, src, stub, files):
        for f in files:
            r = subprocess.run([clang, "-fsyntax-only", "-w", "-I", src, "-idirafter", stub, "-Xclang", "-ast-dump=json", f], capture_output=True, text=True)
            if r.returncode:
                self.failed.append(os.path.basename(f))
                continue
            for d in json.loads(r.stdout)["inner"]:
                if d.get("kind") == "FunctionDecl" and d.get("name") and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ())):
                    self.funcs[d["name"]] = d

    # -- calls ----------------------------------------------------------
    def call(self, name, args):
        d = self.funcs.get(name)
        if d is None:
            return self.builtin(name, args)
        ps = [c for c in d["inner"] if c["kind"] == "ParmVarDecl"]
        if len(ps) != len(args):
            raise CError("%s takes %d arguments, %d given" % (name, len(ps), len(args)))
        fr = {}
        for p, a in zip(ps, args):
            t = p["type"]["qualType"]
            if isinstance(a, Ptr) and t.startswith("const ") and a.buf is not None and a.buf.flush is not None:
                b = Buf(a.buf.cells, a.buf.name, True, None)
                a = Ptr(b, a.off)
            fr[p["id"]] = Var(self.conv(a, t), p.get("name", "?"))
        body = [c for c in d["inner"] if c["kind"] == "CompoundStmt"][-1]
        try:
            self.stmt(body, fr)
        except _Return as r:
            return r.args[0] if r.args else None

    def builtin(self, name, a):
        if name == "malloc":
            return Alloc(a[0], UND)
        if name == "calloc":
            return Alloc(a[0] * a[1], 0)
        if name == "free":
            if isinstance(a[0], Ptr) and a[0].buf is not None:
                if a[0].off:
                    raise CError("free of an interior pointer")
                if a[0].buf.freed:
                    raise CError("double free of %s" % a[0].buf.name)
                a[0].buf.freed = True
            return None
        if name in ("memset", "__builtin_memset", "__builtin___memset_chk"):
            raise Unsupported("memset")
        if name in ("memcpy", "memmove"):
            raise Unsupported(name)
        if name in ("fabs", "fabsf"):
            return abs(a[0])
        raise Unsupported("call to %s" % name)

    @staticmethod
    def conv(v, t):
        t = t.replace("const ", "").strip()
        if isinstance(v, Alloc):
            if not t.endswith("*"):
                raise Unsupported("allocation used as %s" % t)
            if t.startswith("void"):
                return v
            sz = size_of(t[:-1].strip())
            return Ptr(Buf([v.fill] * (v.nbytes // sz), "allocated array"))
        if v is UND or isinstance(v, Ptr) or v is None:
            return v
        if t in ("int", "long", "unsigned long", "size_t", "unsigned int", "long long", "short", "char"):
            if isinstance(v, (float, np.floating)):
                v = int(v)
            if isinstance(v, (int, np.integer, bool)):
                v = int(v)
                if t in ("unsigned long", "size_t"):
                    v %= 2 ** 64
                elif t == "unsigned int":
                    v %= 2 ** 32
                if t == "int" and not -INT_MAX - 1 <= v <= INT_MAX:
                    raise CError("32-bit integer overflow")
                return v
        return v

    # -- statements -----------------------------------------------------
    def stmt(self, n, fr):
        k = n.get("kind")
        self.steps += 1
        if self.steps > 2000000:
            raise CError("does not terminate")
        if k is None or k == "NullStmt":
            return
        if k == "CompoundStmt":
            for c in n.get("inner", ()):
                self.stmt(c, fr)
        elif k == "DeclStmt":
            for c in n["inner"]:
                if c["kind"] != "VarDecl":
                    raise Unsupported(c["kind"])
                t = c["type"]["qualType"]
                if t.endswith("]"):
                    m = re.match(r"(.*?)\[(\d+)\]$", t)
                    if not m or c.get("inner"):
                        raise Unsupported("array declaration %s" % t)
                    v = Ptr(Buf([UND] * int(m.group(2)), c["name"]))
                elif c.get("inner"):
                    v = self.conv(self.ev(c["inner"][-1], fr), t)
                else:
                    v = UND
                fr[c["id"]] = Var(v, c["name"])
        elif k == "ForStmt":
            init, cv, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
            self.stmt_or_expr(init, fr)
            while not cond or self.truth(cond, fr):
                try:
                    self.stmt_or_expr(body, fr)
                except _Break:
                    break
                except _Continue:
                    pass
                if inc:
                    self.ev(inc, fr)
        elif k == "WhileStmt":
            cond, body = n["inner"][-2:]
            while self.truth(cond, fr):
                try:
                    self.stmt_or_expr(body, fr)
                except _Break:
                    break
                except _Continue:
                    pass
        elif k == "DoStmt":
            body, cond = n["inner"]
            while True:
                try:
                    self.stmt_or_expr(body, fr)
                except _Break:
                    break
                except _Continue:
                    pass
                if not self.truth(cond, fr):
                    break
        elif k == "IfStmt":
            if self.truth(n["inner"][0], fr):
                self.stmt_or_expr(n["inner"][1], fr)
            elif len(n["inner"]) > 2:
                self.stmt_or_expr(n["inner"][2], fr)
        elif k == "BreakStmt":
            raise _Break()
        elif k == "ContinueStmt":
            raise _Continue()
        elif k == "ReturnStmt":
            raise _Return(*([self.ev(n["inner"][0], fr)] if n.get("inner") else []))
        elif k.startswith("OMP"):
            raise Unsupported(k)
        else:
            self.ev(n, fr)

    def stmt_or_expr(self, n, fr):
        if n:
            self.stmt(n, fr)

    def truth(self, n, fr):
        self.steps += 1
        if self.steps > 2000000:
            raise CError("does not terminate")
        v = self.ev(n, fr)
        if isinstance(v, Ptr):
            return v.buf is not None
        return bool(v)

    # -- expressions ------------------------------------------------------
    def lval(self, n, fr):
        k = n["kind"]
        if k == "ParenExpr":
            return self.lval(n["inner"][0], fr)
        if k == "DeclRefExpr":
            i = n["referencedDecl"]["id"]
            if i not in fr:
                raise Unsupported("reference to %s" % n["referencedDecl"].get("name"))
            return fr[i]
        if k == "ArraySubscriptExpr":
            p, i = self.ev(n["inner"][0], fr), self.ev(n["inner"][1], fr)
            if not isinstance(p, Ptr):
                p, i = i, p
            if not isinstance(i, int):
                raise Unsupported("symbolic index")
            return Elem(p + i)
        if k == "UnaryOperator" and n["opcode"] == "*":
            return Elem(self.ev(n["inner"][0], fr))
        raise Unsupported("lvalue %s" % k)

    def ev(self, n, fr):
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups"):
            return self.ev(n["inner"][0], fr)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = n.get("castKind")
            c = n["inner"][0]
            if ck == "LValueToRValue":
                return self.lval(c, fr).load()
            if ck == "ArrayToPointerDecay":
                return self.lval(c, fr).load()
            if ck == "NullToPointer":
                return Ptr(None)
            v = self.ev(c, fr)
            if ck in ("IntegralCast", "FloatingToIntegral", "BitCast"):
                return self.conv(v, n["type"]["qualType"])
            if ck == "IntegralToFloating" or ck in ("NoOp", "FloatingCast", "FloatingComplexCast", "FloatingRealToComplex", "IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "IntegralRealToComplex", "ToVoid"):
                return v
            raise Unsupported("cast %s" % ck)
        if k == "IntegerLiteral":
            return int(n["value"])
        if k == "FloatingLiteral":
            v = float(n["value"])
            return int(v) if v == int(v) else v
        if k == "ImaginaryLiteral":
            return 1j * self.ev(n["inner"][0], fr)
        if k in ("DeclRefExpr", "ArraySubscriptExpr"):
            return self.lval(n, fr).load()
        if k == "UnaryExprOrTypeTraitExpr":
            if n.get("name") != "sizeof":
                raise Unsupported(n.get("name"))
            t = n["argType"]["qualType"] if "argType" in n else n["inner"][0]["type"]["qualType"]
            return size_of(t)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op in ("++", "--"):
                l = self.lval(n["inner"][0], fr)
                old = l.load()
                d = 1 if op == "++" else -1
                new = old + d
                if isinstance(new, int):
                    new = self.conv(new, n["type"]["qualType"])
                l.store(new)
                return old if n.get("isPostfix") else new
            if op == "*":
                return self.lval(n, fr).load()
            if op == "&":
                l = self.lval(n["inner"][0], fr)
                if isinstance(l, Elem):
                    return l.p
                b = Buf([UND], l.name)
                raise Unsupported("address of a local")
            v = self.ev(n["inner"][0], fr)
            if op == "-":
                return -v
            if op == "+" or op == "__extension__":
                return v
            if op == "!":
                return int(not (v.buf is not None if isinstance(v, Ptr) else bool(v)))
            if op == "~":
                return ~v
            raise Unsupported("unary %s" % op)
        if k == "BinaryOperator":
            op = n["opcode"]
            a, b = n["inner"]
            if op == "=":
                l = self.lval(a, fr)
                v = self.conv(self.ev(b, fr), n["type"]["qualType"])
                l.store(v)
                return v
            if op == ",":
                self.ev(a, fr)
                return self.ev(b, fr)
            if op == "&&":
                return int(self.truth(a, fr) and self.truth(b, fr))
            if op == "||":
                return int(self.truth(a, fr) or self.truth(b, fr))
            return self.bin(op, self.ev(a, fr), self.ev(b, fr), n["type"]["qualType"])
        if k == "CompoundAssignOperator":
            l = self.lval(n["inner"][0], fr)
            r = self.ev(n["inner"][1], fr)
            v = self.bin(n["opcode"][:-1], l.load(), r, n["type"]["qualType"])
            l.store(v)
            return v
        if k == "ConditionalOperator":
            return self.ev(n["inner"][1 if self.truth(n["inner"][0], fr) else 2], fr)
        if k == "CallExpr":
            f = n["inner"][0]
            while f["kind"] != "DeclRefExpr":
                f = f["inner"][0]
            return self.call(f["referencedDecl"]["name"], [self.ev(c, fr) for c in n["inner"][1:]])
        raise Unsupported(k)

    def bin(self, op, a, b, t):
        isint = isinstance(a, int) and isinstance(b, int) and not t.startswith(("double", "float", "_Complex"))
        if isinstance(a, complex) and a.imag == 0:
            a = a.real
        if isinstance(b, complex) and b.imag == 0:
            b = b.real
        if op == "+":
            r = a + b if isinstance(a, Ptr) or not isinstance(b, Ptr) else b + a
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if isint:
                if b == 0:
                    raise CError("division by zero")
                r = abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)
            else:
                r = a / b
        elif op == "%":
            if b == 0:
                raise CError("remainder by zero")
            r = abs(a) % abs(b) * (1 if a >= 0 else -1)
        elif op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.buf is b.buf:
                    a, b = a.off, b.off
                elif op in ("==", "!="):
                    return int((a is b) == (op == "=="))
                else:
                    raise Unsupported("comparison of pointers")
            return int(bool({"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()))
        elif op in ("&", "|", "^", "<<", ">>"):
            r = {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
        else:
            raise Unsupported("operator %s" % op)
        if isinstance(r, complex) and r.imag == 0:
            r = r.real
            if r == int(r):
                r = int(r)
        return self.conv(r, t) if isint and isinstance(r, int) else r


# -- Cython wrappers ------------------------------------------------------------------------
def pyx_functions(path):
    """name -> (parameter names, body lines)"""
    src = open(path).read()
    out = {}
    for m in re.finditer(r"^def\s+(\w+)\s*\(", src, re.M):
        i, depth = m.end(), 1
        while depth:
            depth += {"(": 1, ")": -1}.get(src[i], 0)
            i += 1
        head = src[m.end():i - 1]
        rest = src[i:]
        rest = rest[rest.index(":") + 1:]
        body = []
        for l in rest.split("\n"):
            if l.strip() and not l.startswith((" ", "\t")):
                break
            body.append(l)
        params, depth, cur = [], 0, ""
        for ch in head + ",":
            if ch == "," and depth == 0:
                if cur.strip():
                    params.append(cur.strip())
                cur = ""
                continue
            depth += {"[": 1, "(": 1, "]": -1, ")": -1}.get(ch, 0)
            cur += ch
        out[m.group(1)] = (params, "\n".join(body))
    return out


class Wrappers:
    """the functions of cython_wrappers.pyx, executed through the C functions' syntax trees"""

    def __init__(self, repo):
        self.prog = CProgram(repo)
        self.fn = pyx_functions(os.path.join(repo, "pystatsm", "utilities", "cython_wrappers.pyx"))

    def get(self, name):
        params, body = self.fn[name]
        names, modes = [], {}
        for p in params:
            q = re.sub(r"\s+not\s+None$", "", p)
            nm = re.split(r"[\s\*]", q[q.rfind("]") + 1:].split("=")[0].strip())[-1]
            names.append(nm)
            mm = re.search(r"np\.ndarray\[(.*)\]", p)
            if mm:
                nd = re.search(r"ndim\s*=\s*(\d)", mm.group(1))
                md = re.search(r"mode\s*=\s*[\"'](\w+)", mm.group(1))
                modes[nm] = (int(nd.group(1)) if nd else None, md.group(1) if md else "c", mm.group(1).split(",")[0].strip())
        b = body
        b = re.sub(r"^\s*cdef\s+[\w\s\*]*?(\w+)\s*=", lambda m: "    %s =" % m.group(1), b, flags=re.M)
        if re.search(r"\bcdef\b", b):
            raise Unsupported("cdef in %s" % name)
        b = re.sub(r"<[^<>]*>\s*", "", b)
        b = re.sub(r"np\.PyArray_DATA\(\s*(\w+)\s*\)", r"_ptr('\1')", b)
        b = re.sub(r"&\s*(\w+)\[[0,\s]*\]", r"_ptr('\1')", b)
        b = re.sub(r"&\s*(\w+)", r"_ptr('\1')", b)
        b = re.sub(r"\breturn\b[ \t]*(.*)", r"_ret(\1)", b)
        code = compile("if 1:\n" + b, name, "exec")
        prog = self.prog

        def run(*args):
            if len(args) != len(names):
                raise TypeError("%s() takes %d arguments" % (name, len(names)))
            env, bufs, res, alias = {}, {}, [], {}
            for nm, a in zip(names, args):
                if nm in modes:
                    nd, md, dt = modes[nm]
                    if not isinstance(a, np.ndarray):
                        raise TypeError("Argument '%s' has incorrect type" % nm)
                    if nd and a.ndim != nd:
                        raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (nd, a.ndim))
                    if md == "c" and not a.flags.c_contiguous:
                        raise ValueError("ndarray is not C-contiguous")
                    if md == "fortran" and not a.flags.f_contiguous:
                        raise ValueError("ndarray is not Fortran contiguous")
                    if dt == "int" and a.dtype != np.int32:
                        raise ValueError("Buffer dtype mismatch, expected 'int' but got %s" % a.dtype)
                    if dt == "double" and not (a.dtype == object or a.dtype == np.float64):
                        raise ValueError("Buffer dtype mismatch, expected 'double' but got %s" % a.dtype)
                env[nm] = a

            def _ptr(nm):
                a = env[nm]
                if isinstance(a, np.ndarray) and a.size:
                    nm = alias.setdefault((a.__array_interface__["data"][0], a.size), nm)
                if nm not in bufs:
                    if isinstance(a, np.ndarray):
                        order = "F" if modes.get(nm, (0, "c"))[1] == "fortran" else "C"
                        cells = [int(v) if isinstance(v, np.integer) else v for v in np.asarray(a).reshape(-1, order=order).tolist()]
                        bufs[nm] = Buf(cells, nm, False, (a, order))
                    else:
                        bufs[nm] = Buf([a], nm, False, (None, None))
                return Ptr(bufs[nm])
            g = dict(env, _ptr=_ptr, _ret=lambda *a: res.append(a[0] if a else None))

            def mk(fname):
                return lambda *a: prog.call(fname, [int(x) if isinstance(x, (np.integer, int)) else x for x in a])
            prog.steps = 0

            def flush():
                for nm, bf in bufs.items():
                    a, order = bf.flush
                    if a is None:
                        g[nm] = bf.cells[0]
                        continue
                    if bf.const:
                        continue
                    flat = np.empty(len(bf.cells), dtype=a.dtype)
                    for i, v in enumerate(bf.cells):
                        flat[i] = v
                    a[...] = flat.reshape(a.shape, order=order)
            # values written by the kernel are visible to later statements of the wrapper
            for f in prog.funcs:
                def mk2(fname):
                    inner = mk(fname)

                    def h(*a):
                        r = inner(*a)
                        flush()
                        return r
                    return h
                g[f] = mk2(f)
            exec(code, g)
            return res[0] if res else None
        run.__name__ = name
        return run
