#!/opt/venv/bin/python
"""run_check.py C01 [--tier T] [--seed N] [--workers N] [--budget S]
   run_check.py --replay FILE
   run_check.py C01 --case I      one case, verbose
   run_check.py C01 --determinism N   run N cases twice, compare histories
"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WANT = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
        "MKL_NUM_THREADS": "1", "LC_ALL": "C.UTF-8", "COLUMNS": "100",
        "LINES": "40"}
if os.environ.get("VERIF_STAGE") != "1":
    os.environ.update(WANT)
    os.environ["VERIF_STAGE"] = "1"
    for k in ("RAYTOOLS_PROC_CAP", "RAYPATH", "PYTHONPATH", "PYTHONSTARTUP"):
        os.environ.pop(k, None)
    os.environ["PATH"] = os.path.join(REPO, "radiance_depend", "linux") + \
        os.pathsep + os.environ.get("PATH", "/usr/bin:/bin")
    try:   # same addresses in every run
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main():
    from sim import boot
    boot.boot(REPO)
    from sim import runner
    a = sys.argv[1:]
    if "--setup" in a:
        print("simulator imports, nothing to build")
        return 0

    def opt(name, default, cast):
        if name in a:
            i = a.index(name)
            v = cast(a[i + 1])
            del a[i:i + 2]
            return v
        return default
    rp = opt("--replay", None, str)
    if rp:
        return runner.replay(rp)
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"), str)
    seed = opt("--seed", int(os.environ.get("VERIF_SEED", "1")), int)
    nw = opt("--workers", None, int)
    budget = opt("--budget", None, float)
    mc = opt("--min-cases", None, int)
    one = opt("--case", None, int)
    prop = a[0].upper()
    det = opt("--determinism", None, int)
    if det:
        return runner.determinism(prop, seed, tier, det)
    if one is not None:
        import shutil, json
        mod = runner.load(prop)
        root = runner.scratch_root()
        scratch = os.path.join(root, "w00", "s")
        os.makedirs(scratch)
        os.makedirs(os.path.join(root, "w00", "tmp"))
        case = runner.make_case(mod, seed, prop, one, tier)
        print(json.dumps(case)[:3000])
        res = runner.run_case(mod, case, scratch)
        print(open(os.path.join(root, "w00", ".stderr")).read()[-3000:])
        print(open(os.path.join(root, "w00", ".stdout")).read()[-2000:])
        shutil.rmtree(root)
        print(json.dumps({k: v for k, v in res.items()}, indent=1)[:6000])
        return 0
    return runner.main(prop, seed, tier, nw, budget, mc)


if __name__ == "__main__":
    sys.exit(main())
