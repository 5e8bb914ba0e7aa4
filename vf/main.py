import faulthandler
import importlib.util
import os
import sys
import traceback
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
if HERE in sys.path:
    sys.path.remove(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get("VF_REPO", "/repo")
if REPO != "/repo":
    sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)
faulthandler.enable()


def main():
    pid = sys.argv[1]
    from vf import core, ext
    ext.ensure(REPO)
    import pystatsm
    f = os.path.realpath(pystatsm.__path__[0])
    assert f.startswith(os.path.realpath(REPO)), f
    spec = importlib.util.spec_from_file_location("check_" + pid, os.path.join(ROOT, "checks", pid + ".py"))
    mod = importlib.util.module_from_spec(spec)
    ck = core.Check(pid)
    spec.loader.exec_module(mod)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        import json
        d = json.load(open(sys.argv[3]))
        ck.seed = d["seed"]
        ck.only = d["contract"]
    jobs = int(os.environ.get("VF_JOBS") or min(8, os.cpu_count() or 1))
    bad = 0
    if jobs > 1 and not ck.only:
        ck.warm = getattr(mod, "WARM", None)
        bad = ck.parallel(mod.run, jobs)
    else:
        mod.run(ck)
    rc = ck.finish()
    return bad if bad and rc == 0 else rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 4
    import atexit
    atexit._run_exitfuncs()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
