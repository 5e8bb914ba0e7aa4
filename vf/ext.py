"""Compiled extensions: use the in-place build when it belongs to the current sources,
otherwise build the current sources in a scratch directory and import that build."""
import atexit
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile


def src_files(repo):
    out = []
    if os.path.exists(os.path.join(repo, "setup.py")):
        out.append("setup.py")
    for d, _, fs in os.walk(os.path.join(repo, "pystatsm")):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), repo)
            if f.endswith((".pyx", ".pxd")) or f == "setup.py" or ("/src/" in p and f.endswith((".c", ".h"))):
                out.append(p)
    return sorted(out, key=lambda s: s.encode())


def stamp(repo):
    h = repo + "\n"
    for p in src_files(repo):
        h += hashlib.sha256(open(os.path.join(repo, p), "rb").read()).hexdigest() + "  " + p + "\n"
    return hashlib.sha256(h.encode()).hexdigest() + "  -"


def ensure(repo):
    st = os.path.join(repo, "build", ".vp-ext-hash")
    have = open(st).read().strip() if os.path.exists(st) else ""
    if have == stamp(repo):
        return "in-place"
    tmp = tempfile.mkdtemp(prefix="vf-ext-")
    atexit.register(shutil.rmtree, tmp, True)
    for p in src_files(repo):
        os.makedirs(os.path.dirname(os.path.join(tmp, p)), exist_ok=True)
        shutil.copy(os.path.join(repo, p), os.path.join(tmp, p))
    for d, _, fs in os.walk(os.path.join(repo, "pystatsm")):
        for f in fs:
            if f == "__init__.py":
                q = os.path.join(tmp, os.path.relpath(os.path.join(d, f), repo))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                open(q, "w").close()
    for f in ("README.md", "README", "pyproject.toml", "setup.cfg"):
        if os.path.exists(os.path.join(repo, f)):
            shutil.copy(os.path.join(repo, f), tmp)
    r = subprocess.run([sys.executable, "setup.py", "build_ext", "--inplace", "--force"], cwd=tmp, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
        raise RuntimeError("extension build failed")
    import pystatsm.utilities
    for nm in ("cython_wrappers", "ordered_indices"):
        d = os.path.join(tmp, "pystatsm", "utilities")
        so = [f for f in os.listdir(d) if f.startswith(nm + ".") and f.endswith(".so")]
        full = "pystatsm.utilities." + nm
        spec = importlib.util.spec_from_file_location(full, os.path.join(d, so[0]))
        m = importlib.util.module_from_spec(spec)
        sys.modules[full] = m
        spec.loader.exec_module(m)
        setattr(pystatsm.utilities, nm, m)
    return "scratch"
