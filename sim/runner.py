"""Run seeded cases of one property: workers, budgets, shrinking, evidence."""
import collections
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import threading
import time

from sim import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mono = core.REAL_MONO
MAXBAD = 10**9 if os.environ.get("VERIF_NOSTOP") else 3
WALL = float(os.environ.get("VERIF_CASE_WALL", "60"))


def quiet_fds(scratch):
    """stdin from /dev/null, stdout/stderr into scratch files"""
    null = os.open("/dev/null", os.O_RDONLY)
    os.dup2(null, 0)
    os.close(null)
    for n, name in ((1, ".stdout"), (2, ".stderr")):
        fd = os.open(os.path.join(scratch, name),
                     os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(fd, n)
        os.close(fd)
    sys.stdout = os.fdopen(1, "w", closefd=False)
    sys.stderr = os.fdopen(2, "w", closefd=False)
    sys.stdin = os.fdopen(0, "r", closefd=False)
    sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr


def case_child(mod, case, out_fd, scratch, linecap=None):
    """runs in a forked process; never returns"""
    sim = None
    try:
        os.setpgid(0, 0)
        os.chdir(scratch)
        os.environ["HOME"] = scratch
        quiet_fds(os.path.dirname(scratch))
        import tempfile as tf
        tf.tempdir = os.path.join(os.path.dirname(scratch), "tmp")
        tf._name_sequence = iter("t%06d" % i for i in range(10**6))
        random.seed(0)
        import numpy as np
        np.random.seed(0)
        sim = core.Sim(case["seed"], case.get("choices"), out_fd)
        core.SIM = sim
        sim.scratch = scratch
        sim.digest.update(json.dumps(case["params"], sort_keys=True).encode())
        if linecap:
            install_linecap(sim, linecap)
        try:
            try:
                mod.run(case["params"], sim)
                res = sim.result("ok")
            finally:
                sys.settrace(None)
        except core.Violation as ex:
            res = sim.result("violation", ex)
        except core.Skip as ex:
            res = sim.result("skip", ex)
        except BaseException as ex:
            import traceback
            st = "error"
            if not isinstance(ex, core.HarnessError):
                tb = ex.__traceback__
                while tb is not None:
                    if tb.tb_frame.f_code.co_filename.startswith(sim.pkg):
                        st = "violation"
                    tb = tb.tb_next
            msg = traceback.format_exc()
            if st == "violation":
                msg = f"a call raised {type(ex).__name__} where it has to " \
                    f"succeed: {ex}\n" + msg
            res = sim.result(st, msg)
        core.finish(out_fd, res, sim)
    except BaseException:
        import traceback
        core.finish(out_fd, dict(status="error", msg=traceback.format_exc()))
    finally:
        os._exit(3)


def install_linecap(sim, cap):
    n = [0]

    def tr(frame, event, arg):
        n[0] += 1
        if n[0] > cap:
            sim.fatal("hang", f"still running after {cap} lines of python at "
                      f"{frame.f_code.co_name}")
        return tr
    sys.settrace(tr)
    threading._trace_hook = tr


def clean(d):
    for base in (d, os.path.join(os.path.dirname(d), "tmp")):
        for e in os.scandir(base):
            try:
                if e.is_dir(follow_symlinks=False):
                    shutil.rmtree(e.path)
                else:
                    os.unlink(e.path)
            except OSError:
                pass


RUNNING = [None]


def end_with_parent():
    """a worker told to stop (or whose parent is gone) takes the case it is
    running with it"""
    def stop(sig, frame):
        if RUNNING[0]:
            try:
                os.killpg(RUNNING[0], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(RUNNING[0], signal.SIGKILL)
            except OSError:
                pass
        os._exit(5)
    signal.signal(signal.SIGTERM, stop)
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGTERM)
    except (OSError, AttributeError):
        pass


def run_case(mod, case, scratch, wall=None, linecap=None):
    """fork, run one case, return its result dict"""
    wall = wall or WALL
    clean(scratch)
    r, w = os.pipe()
    mask = signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGTERM])
    pid = os.fork()
    if pid == 0:
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, mask)
        os.close(r)
        case_child(mod, case, w, scratch, linecap)
    RUNNING[0] = pid
    signal.pthread_sigmask(signal.SIG_SETMASK, mask)
    os.close(w)
    chunks = []
    end = mono() + wall
    timed_out = False
    while True:
        left = end - mono()
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed_out = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    RUNNING[0] = None
    _, st = os.waitpid(pid, 0)
    if timed_out:
        if linecap is None:
            res = run_case(mod, case, scratch, wall=240, linecap=20_000_000)
            if res["status"] == "timeout":
                res["status"] = "error"
                res["msg"] = "case exceeds its wall time limit"
            elif res["status"] == "ok":
                res["slow"] = True
            return res
        return dict(status="timeout", msg="wall timeout")
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return dict(status="error", msg=f"case died without result, wait "
                    f"status {st}")


def make_case(mod, seed, prop, i, tier):
    fams = mod.FAMILIES
    fam = fams[i % len(fams)]
    s = f"{prop}/{seed}/{i}"
    params = mod.gen(random.Random(s + "/gen"), fam, tier)
    params["family"] = fam
    return dict(prop=prop, seed=s, index=i, params=params)


def worker(mod, prop, seed, tier, k, n, t_end, min_cases, out_fd, scratch_root):
    scratch = os.path.join(scratch_root, f"w{k:02d}", "s")
    os.makedirs(scratch)
    os.makedirs(os.path.join(scratch_root, f"w{k:02d}", "tmp"))
    try:    # a case's processes take turns: they do so faster on one core
        cores = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cores[k % len(cores)]})
    except OSError:
        pass
    i = k
    bad = 0
    while (mono() < t_end or i < min_cases) and bad < MAXBAD:
        case = make_case(mod, seed, prop, i, tier)
        t = mono()
        res = run_case(mod, case, scratch)
        res["index"] = i
        res["family"] = case["params"]["family"]
        res["real_s"] = mono() - t
        if res["status"] in ("violation", "hang", "error"):
            res["case"] = case
            bad += 1
        elif i >= 40:
            res.pop("choices", None)
            res.pop("log", None)
        if i < 40:
            res["params"] = case["params"]
        core.send(out_fd, res)
        i += n
    os._exit(0)


def signature(res):
    """class of a failure, for shrinking: same status and same first line"""
    m = (res.get("msg") or "").split("\n")[0]
    m = m.split(":")[0]
    return res["status"], m


def shrink(mod, case, res, scratch, budget):
    """smaller params, then fewer unusual choices, same failure class"""
    end = mono() + budget
    want = signature(res)
    best, bres = dict(case, choices=res["choices"]), res
    tried = 0

    def attempt(c):
        nonlocal best, bres, tried
        tried += 1
        r = run_case(mod, c, scratch, wall=20)
        if signature(r) == want:
            best, bres = dict(c, choices=r["choices"]), r
            return True
        return False
    progress = True
    while progress and mono() < end:
        progress = False
        for p in getattr(mod, "shrink", lambda p: ())(best["params"]):
            if mono() > end:
                break
            p = dict(p, family=best["params"]["family"])
            if p == best["params"]:
                continue
            if attempt(dict(best, params=p)):
                progress = True
                break
    for tag in sorted(best["choices"]):
        if mono() > end:
            break
        ch = {k: v for k, v in best["choices"].items() if k != tag}
        attempt(dict(best, choices=ch))
    for tag in sorted(best["choices"]):
        width = len(best["choices"].get(tag, ()))
        while width >= 1 and mono() < end:
            j = 0
            while j < len(best["choices"].get(tag, ())) and mono() < end:
                v = list(best["choices"][tag])
                if any(v[j:j + width]):
                    v[j:j + width] = [0] * len(v[j:j + width])
                    ch = dict(best["choices"])
                    ch[tag] = v
                    attempt(dict(best, choices=ch))
                j += width
            width //= 2
    return best, bres, tried


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def known(prop):
    """entries of known-findings.txt: KNOWN property=<id> match=<text> ..."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith(f"known: property={prop} "):
                sig = l.split("match=<", 1)[1].split(">", 1)[0]
                out.append((sig, l))
    except OSError:
        pass
    return out


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    if base and shutil.disk_usage(base).free < 400 << 20:
        base = None
    return tempfile.mkdtemp(prefix="vsim", dir=base)


def main(prop, seed, tier, nworkers=None, budget=None, min_cases=None):
    t0 = mono()
    mod = load(prop)
    budget = budget or (getattr(mod, "QUICK_S", 30) if tier == "quick"
                        else getattr(mod, "THOROUGH_S", 600))
    min_cases = min_cases or getattr(mod, "MIN_CASES", 64)
    nw = nworkers or min(8, os.cpu_count() or 8)
    root = scratch_root()
    pids, fds = [], []
    stats = dict(n=0, ok=0, skip=0, nontrivial=set(), scheds=set(),
                 digests=set(), sim_time=0.0, steps=0, switches=0, nchoices=0,
                 counts=collections.Counter(), fams=collections.Counter(),
                 samples=[], slow=0, maxcase=0.0)
    fails, errors = [], []
    try:
        t_end = mono() + budget
        sys.stdout.flush()
        for k in range(nw):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    end_with_parent()
                    os.close(r)
                    for f in fds:
                        os.close(f)
                    worker(mod, prop, seed, tier, k, nw, t_end, min_cases, w,
                           root)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    os._exit(4)
            os.close(w)
            pids.append(pid)
            fds.append(r)
        live = set(fds)
        stop = False
        while live and not stop:
            rl, _, _ = select.select(list(live), [], [], 900)
            if not rl:
                errors.append(dict(msg="workers stopped answering"))
                break
            for f in rl:
                res = core.recv(f)
                if res is None:
                    live.discard(f)
                    continue
                account(stats, res)
                if res["status"] in ("violation", "hang"):
                    fails.append(res)
                    if len(fails) >= 2 * MAXBAD:
                        stop = True
                elif res["status"] in ("error", "timeout"):
                    errors.append(res)
        for p in pids:
            try:
                os.kill(p, signal.SIGTERM)
            except OSError:
                pass
        for p in pids:
            os.waitpid(p, 0)
        for f in fds:
            os.close(f)
        t_run = mono() - t0
        out = []
        hits = collections.OrderedDict()
        if fails:
            kn = known(prop)
            scratch = os.path.join(root, "wsh", "s")
            os.makedirs(scratch)
            os.makedirs(os.path.join(root, "wsh", "tmp"))
            seen = {}
            fails.sort(key=lambda r: r["index"])
            for res in fails:
                kk = [l for s, l in kn if s in res["msg"]]
                if kk:
                    hits[kk[0]] = 1
                    continue
                sg = signature(res)
                if sg in seen or len(seen) >= 2:
                    continue
                seen[sg] = 1
                again = run_case(mod, dict(res["case"],
                                           choices=res["choices"]), scratch)
                if signature(again) != sg or again["digest"] != res["digest"]:
                    note = ("replay differs from the first run: "
                            f"{again['status']} {again['msg'][:300]}")
                else:
                    note = "replayed exactly"
                best, bres, tried = shrink(mod, res["case"], res, scratch,
                                           25 if tier == "quick" else 60)
                out.append((res, best, bres, tried, note))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    paths = []
    for res, best, bres, tried, note in out:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        name = hashlib.sha256(json.dumps(best, sort_keys=True).encode()) \
            .hexdigest()[:12]
        path = os.path.join(VERIF, "replays", f"{prop}-{name}.json")
        with open(path, "w") as f:
            json.dump(dict(prop=prop, case=best, status=bres["status"],
                           msg=bres["msg"], digest=bres["digest"],
                           trace=bres["log"], original_seed=res["case"]["seed"],
                           shrink_runs=tried, replay_check=note,
                           replay_cmd=f"/opt/venv/bin/python "
                           f"{VERIF}/run_check.py --replay {path}"), f,
                      indent=1)
        paths.append((path, bres))
    write_evidence(mod, prop, seed, tier, stats, mono() - t0, t_run, nw,
                   len(paths), [dict(replay=p, msg=b["msg"][:1000])
                                for p, b in paths], errors)
    for l in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    for path, b in paths:
        print(f"VIOLATION property={prop} replay={path}")
        print("  " + " ".join(b["msg"].split())[:700])
    if fails and os.environ.get("VERIF_NOSTOP"):
        print("failing:", len(fails),
              dict(collections.Counter(r["family"] for r in fails)),
              dict(stats["fams"]))
    print(f"{prop}: {stats['n']} runs, {len(stats['nontrivial'])} distinct "
          f"non-trivial, {len(stats['scheds'])} interleavings, "
          f"{sum(v for k, v in stats['counts'].items() if k.startswith('fault.'))}"
          f" faults, {mono() - t0:.1f}s")
    if paths:
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR of the check:", e.get("index"), e.get("family"),
                  e["msg"][-3000:])
        return 2
    if stats["n"] - stats["skip"] < min_cases // 2:
        print("ERROR of the check: too few cases ran")
        return 2
    return 0


def account(st, res):
    st["n"] += 1
    if res["status"] == "skip":
        st["skip"] += 1
    if res["status"] == "ok":
        st["ok"] += 1
    st["fams"][res.get("family")] += 1
    st["slow"] += bool(res.get("slow"))
    if res.get("real_s", 0) > st["maxcase"]:
        st["maxcase"], st["maxindex"] = res["real_s"], res.get("index")
    if "digest" not in res:
        return
    if res["nontrivial"] and res["status"] != "skip":
        st["nontrivial"].add(res["key"] or res["digest"])
    if res["switches"]:
        st["scheds"].add(res["sched"])
    st["digests"].add(res["digest"])
    for k in ("sim_time", "steps", "switches", "nchoices"):
        st[k] += res[k]
    st["counts"].update(res["counts"])
    if res["status"] == "ok" and res["nontrivial"] and len(st["samples"]) < 4 \
            and "params" in res:
        st["samples"].append(dict(index=res["index"], params=res["params"],
                                  choices={k: v[:20] for k, v in
                                           res["choices"].items()},
                                  history=res["log"][-15:]))


def write_evidence(mod, prop, seed, tier, st, wall, t_run, nw, nviol, viol,
                   errors):
    cnt = dict(sorted(st["counts"].items()))
    cov = dict(
        evaluations=st["n"] - st["skip"],
        distinct_nontrivial=len(st["nontrivial"]),
        rule=mod.RULE,
        samples=st["samples"] or [dict(note="no sample")],
        families=dict(st["fams"]),
        skipped=st["skip"],
        simulated_runs_and_seeds_per_hour=round(
            st["n"] / max(t_run, .001) * 3600),
        simulated_seconds=round(st["sim_time"], 3),
        faults_injected={k[6:]: v for k, v in cnt.items()
                         if k.startswith("fault.")},
        other_counts={k: v for k, v in cnt.items()
                      if not k.startswith("fault.")},
        distinct_interleavings=len(st["scheds"]),
        interleaving_measure="hash of the sequence of simulated thread and "
        "process switches",
        distinct_histories=len(st["digests"]),
        scheduling_steps=st["steps"], context_switches=st["switches"],
        recorded_choices=st["nchoices"],
        longest_case_s=round(st["maxcase"], 2),
        longest_case_index=st.get("maxindex"),
        workers=nw,
        real_components=mod.REAL, stub_components=mod.STUB,
        violations_found=viol,
        check_errors=[e["msg"][-300:] for e in errors[:3]])
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=cov, assumptions=mod.ASSUME, wall_s=round(wall, 2),
              violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    d = json.load(open(path))
    mod = load(d["prop"])
    root = scratch_root()
    try:
        scratch = os.path.join(root, "w00", "s")
        os.makedirs(scratch)
        os.makedirs(os.path.join(root, "w00", "tmp"))
        res = run_case(mod, dict(d["case"]), scratch)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    same = res.get("digest") == d["digest"]
    print(res["status"], res["msg"])
    print("trace:", *res.get("log", []), sep="\n  ")
    print("history digest", "identical" if same else "DIFFERENT",
          res.get("digest"))
    if res["status"] in ("violation", "hang"):
        print(f"VIOLATION property={d['prop']} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2


def determinism(prop, seed, tier, n):
    """each case twice: same history, same steps, same virtual time"""
    mod = load(prop)
    root = scratch_root()
    bad = 0
    try:
        for k in "ab":
            os.makedirs(os.path.join(root, "w0" + k, "s"))
            os.makedirs(os.path.join(root, "w0" + k, "tmp"))
        for i in range(n):
            case = make_case(mod, seed, prop, i, tier)
            a, b = [run_case(mod, case, os.path.join(root, "w0" + k, "s"))
                    for k in "ab"]
            for k in ("status", "msg", "digest", "steps", "sim_time",
                      "choices", "counts", "log"):
                if a.get(k) != b.get(k):
                    bad += 1
                    print(i, case["params"]["family"], k, str(a.get(k))[-200:],
                          "\n   ---- ", str(b.get(k))[-200:])
                    break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(f"{prop}: {n} cases twice, {bad} differ")
    return 1 if bad else 0
