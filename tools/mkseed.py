#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: each SPEC defines id, prop, file(s)/edits, needs, breaks, demo (python source).
Creates /verif/seeded/<id>, confirms in a scratch copy: applies, builds, demo 0/nonzero, stable tests pass."""
import json, os, re, subprocess, sys, shutil, concurrent.futures as cf

def sh(cmd, cwd, timeout=1500):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr

def one(spec):
    ns = {}
    exec(open(spec).read(), ns)
    i = ns["id"]
    wt = "/tmp/seedwt-" + i
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a /repo %s" % wt, "/")
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            k = s.count(old)
            assert k == 1, (f, old, k)
            open(p, "w").write(s.replace(old, new))
        d = "/verif/seeded/" + i
        os.makedirs(d, exist_ok=True)
        rc, diff = sh("git diff", wt)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(ns["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" OMP_NUM_THREADS=2\nexec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
        a, oa = sh("bash %s/demo.sh" % d, "/repo")
        if "ext" in ns:
            sh(ns["ext"], wt)
        b, ob = sh("bash %s/demo.sh" % d, wt)
        msg = "demo clean=%d patched=%d" % (a, b)
        if a != 0 or b == 0:
            return i, "BAD " + msg + "\n" + oa[-1500:] + ob[-1500:]
        if os.environ.get("NOTEST"):
            return i, msg
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        mods = sorted({x.split("::")[0] for x in base})
        rc, o = sh("OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2 NUMBA_NUM_THREADS=2 PYTHONPATH=%s timeout 1400 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 3 --runslow -W ignore -rA %s" % (wt, " ".join(m.replace(".", "/") + ".py" for m in mods)), wt)
        passed = set(re.findall(r"^PASSED (\S+)", o, re.M))
        passed = {p.replace("/", ".").replace(".py::", "::") for p in passed}
        miss = [x for x in base if x.split("[")[0] not in {q.split("[")[0] for q in passed}]
        bad = set(re.findall(r"^(?:FAILED|ERROR) (\S+)", o, re.M))
        bad = {p.replace("/", ".").replace(".py::", "::") for p in bad} & set(base)
        return i, msg + (" tests ok" if not miss and not bad else " TESTS FAIL %s %s" % (miss[:5], sorted(bad)[:5]))
    finally:
        shutil.rmtree(wt, ignore_errors=True)

with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for i, m in ex.map(one, sys.argv[1:]):
        print(i, m, flush=True)
