#!/usr/bin/env python3
"""Checks of ros_pointcloud2's properties by static analysis.

  run.py setup                       build the compiler driver and the analysed crates once
  run.py check <ID> [--tier T]       decide one property (exit 0 held, 1 violated, 2 no answer)
  run.py all [--tier T] [IDs...]     decide several
"""
import hashlib
import json
import os
import pickle
import selectors
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)

# What is compiled: name -> features of the witness crate
CONFIGS = {
    "full": "std,rayon,ros",
    "core": "",
    "serde": "std,serde",
}


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------ building
def sh(cmd, env=None, cwd=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d, ext):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git", "build", "__pycache__")]
        out += [os.path.join(r, f) for f in fs if f.endswith(ext)]
    return out


def sysroot():
    rc, o = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise NoAnswer("no nightly compiler: " + o)
    return o.strip()


def driver():
    src = os.path.join(HERE, "driver", "driver.rs")
    out = os.path.join(BUILD, "driver-" + digest([src]))
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out + ".tmp"])
        if rc:
            raise NoAnswer("the driver does not build:\n" + o[-3000:])
        os.rename(out + ".tmp", out)
    return out


def drop_mine(target):
    """Forget what was compiled from /repo and from the witness crate, so that it is compiled again."""
    mine = ("ros_pointcloud2", "rpcl2-derive", "rpcl2_derive", "witness")
    dbg = os.path.join(target, "debug")
    for sub in (".fingerprint", "build"):
        d = os.path.join(dbg, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith(mine):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)
    shutil.rmtree(os.path.join(dbg, "incremental"), ignore_errors=True)


def cargo_env(target, drv=None, out=None):
    e = dict(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", RUSTC_WORKSPACE_WRAPPER="", CARGO_INCREMENTAL="0",
             RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings", LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"))
    if drv:
        e.update(RUSTC=drv, VP_CRATE="witness", VP_OUT=out, VP_LEAF=os.path.join(HERE, "driver", "leaf.txt"), VP_MINE="ros_pointcloud2,witness")
    return e


def export(config):
    """Compile /repo's working tree with the driver; path of the exported program."""
    drv = driver()
    target = os.path.join(BUILD, "target-" + config)
    out = os.path.join(BUILD, config + ".json")
    drop_mine(target)
    if os.path.exists(out):
        os.unlink(out)
    cmd = ["cargo", "+nightly", "check", "--offline", "--quiet"]
    if CONFIGS[config]:
        cmd += ["--features", CONFIGS[config]]
    rc, o = sh(cmd, env=cargo_env(target, drv, out), cwd=os.path.join(HERE, "witness"))
    if rc or not os.path.exists(out):
        raise NoAnswer(f"/repo does not compile in configuration {config}:\n" + o[-4000:])
    return out


# ------------------------------------------------------------------ running tasks
class Late(BaseException):
    """The time of a task is nearly used up: what it found so far is reported."""


def late(*a):
    raise Late()


def child(fd, loader, task, seconds):
    import common
    import solve
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(5, int(seconds)))
    rep = common.Report()
    t0 = time.time()
    err = None
    try:
        loader()
        fn, args = task
        import importlib
        mod, name = fn.split(".")
        getattr(importlib.import_module(mod), name)(rep, *args)
    except common.Enough:
        err = "stopped after enough violations"
    except common.AnchorMissing as e:
        err = "missing: " + str(e)
    except Late:
        err = "stopped at the time limit"
    except MemoryError:
        err = "out of memory"
    except BaseException:
        err = "analysis stopped: " + traceback.format_exc()[-900:]
    signal.alarm(0)
    if solve.Stats.faults:
        rep.extra.setdefault("solver_faults", []).append(f"{solve.Stats.faults} in {task[0]}: {solve.Stats.fault}")
    data = pickle.dumps((time.time() - t0, err, rep.n, rep.items, rep.rules, sorted(map(str, rep.functions)), sorted(map(str, rep.unmodelled)), rep.extra))
    with os.fdopen(fd, "wb") as f:
        f.write(data)


def run_tasks(tasks, per_task, deadline, workers, enough=lambda r: False):
    """tasks: [(label, loader, (fn, args))]; [(label, result or None, reason)].  Once enough() holds of
    a result, the tasks that have not finished are left out."""
    sel = selectors.DefaultSelector()
    running = {}
    todo = list(tasks)[::-1]
    results = []
    while todo or running:
        while todo and len(running) < workers and time.time() < deadline:
            label, loader, task = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    child(w, loader, task, min(per_task, deadline - time.time()) - 8)
                finally:
                    os._exit(0)
            os.close(w)
            running[pid] = (label, r, [], time.time())
            sel.register(r, selectors.EVENT_READ, pid)
        if todo and not running:
            for label, _, _ in todo:
                results.append((label, None, "not started: time limit or a violation was found"))
            break
        for key, _ in sel.select(1.0):
            pid = key.data
            label, r, buf, t0 = running[pid]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            sel.unregister(r)
            os.close(r)
            os.waitpid(pid, 0)
            del running[pid]
            try:
                results.append((label, pickle.loads(b"".join(buf)), None))
                if enough(results[-1][1]):
                    deadline = min(deadline, time.time() + 5)
                    enough = lambda r: False
            except Exception:
                results.append((label, None, "the analysis process died"))
        now = time.time()
        for pid, (label, r, buf, t0) in list(running.items()):
            if now - t0 > per_task or now > deadline + 5:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                sel.unregister(r)
                os.close(r)
                os.waitpid(pid, 0)
                del running[pid]
                results.append((label, None, "not finished: time limit or a violation was found"))
    return results


_loaded = {}


def loader_for(config):
    def load():
        import interp
        interp.P = _loaded[config]
    return load


def load_configs(names):
    import interp
    from concurrent.futures import ThreadPoolExecutor
    driver()
    with ThreadPoolExecutor(4) as ex:
        paths = list(ex.map(export, names))
    for n, p in zip(names, paths):
        _loaded[n] = interp.load(p)


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=" + prop + " "):
                out.append(l.split(" ", 2)[2])
    return out


# ------------------------------------------------------------------ one property
def check(prop, tier, seed):
    import common
    import props
    t0 = time.time()
    spec = props.PROPS[prop]
    plan = spec.tasks(tier)
    configs = sorted({c for c, _, _ in plan if c})
    load_configs(configs)
    workers = min(8, os.cpu_count() or 1)
    limit = 560 if tier == "quick" else 3000
    per = 400 if tier == "quick" else 2400
    tasks = [(f"{fn}({', '.join(map(str, args))}) [{c or 'source'}]", loader_for(c) if c else (lambda: None), (fn, args)) for c, fn, args in plan]
    known = known_findings(prop)

    def listed(rule, where):
        return any(k in rule + " | " + where for k in known)

    def enough(r):
        return tier == "quick" and any(x[0] == "violated" and not listed(x[1], x[2]) for x in r[3])
    common.QUICK[0] = tier == "quick"
    res = run_tasks(tasks, per, t0 + limit, workers, enough)
    n = {"held": 0, "violated": 0, "undecided": 0}
    rules, items, fns, unm, slow, errs, extra = {}, [], set(), set(), [], [], {}
    for label, r, why in res:
        if r is None:
            errs.append(f"{label}: {why}")
            continue
        dt, err, rn, ri, rr, rf, ru, rx = r
        if err:
            errs.append(f"{label}: {err}")
        for k in n:
            n[k] += rn[k]
        for k, v in rr.items():
            d = rules.setdefault(k, {"held": 0, "violated": 0, "undecided": 0})
            for s in d:
                d[s] += v[s]
        items += [(label,) + x for x in ri]
        fns |= set(rf)
        unm |= set(ru)
        for k, v in rx.items():
            extra.setdefault(k, []).extend(v)
        slow.append((round(dt, 1), label))
    viol, kf = [], []
    for it in items:
        if it[1] == "violated":
            (kf if listed(it[2], it[3]) else viol).append(it)
    und = [it for it in items if it[1] == "undecided"]
    wall = time.time() - t0
    total = sum(n.values())
    cov = dict(spec.coverage(tier)) if spec.coverage else {}
    mine = sorted(f for f in fns if "ros_pointcloud2" in f or "witness" in f)
    cov.update(obligations=total, discharged=n["held"], undecided=n["undecided"] + len(errs), tasks=len(tasks),
               checker_cmd=f"python3 run.py check {prop} --tier {tier}",
               trusted_base=props.TRUSTED,
               rules={k: v for k, v in sorted(rules.items())},
               functions_analysed=len(fns), functions_of_the_crate=[f[:120] for f in mine][:150],
               undecided_samples=[" | ".join(map(str, it[1:]))[:300] for it in und[:8]] + [e[:300] for e in errs[:8]],
               calls_treated_as_unknown=sorted(unm)[:30],
               slowest_tasks=[list(x) for x in sorted(slow, reverse=True)[:5]],
               configurations={c: CONFIGS[c] for c in configs})
    for k, v in extra.items():
        cov[k] = v[:40]
    if spec.level == "other":
        cov.setdefault("explanation", spec.note)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.level, coverage=cov, assumptions=props.ASSUMPTIONS + spec.assumptions, wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        cov["functions_of_the_crate"] = cov["functions_of_the_crate"][:20]
        txt = json.dumps(ev, indent=1)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        f.write(txt + "\n")
    print(f"{prop}: {n['held']} shown, {len(viol)} violated, {n['undecided']} undecided, {len(errs)} incomplete, {wall:.0f} s")
    for e in errs[:10]:
        print("  incomplete: " + e[:1200])
    for it in und[:10]:
        print("  undecided: " + " | ".join(map(str, it[2:]))[:300])
    seen = set()
    for it in kf:
        k = " | ".join(it[2:4])
        if k not in seen:
            seen.add(k)
            print(f"KNOWN-FINDING: property={prop} {k}")
    if viol:
        rp = os.path.join(BUILD, f"replay-{prop}.txt")
        with open(rp, "w") as f:
            for it in viol:
                f.write("\n".join(["task:   " + it[0], "rule:   " + it[2], "where:  " + it[3], "detail: " + it[4], "", ""]))
        shown = set()
        for it in viol:
            if (it[2], it[3]) in shown or len(shown) > 12:
                continue
            shown.add((it[2], it[3]))
            print(f"  violated: {it[2]} | {it[3]} | {it[4][:500]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if not n["held"]:
        print("nothing could be decided")
        return 2
    return 0


def main(argv):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    if not argv:
        print(__doc__)
        return 2
    if argv[0] == "setup":
        from concurrent.futures import ThreadPoolExecutor
        try:
            driver()
            with ThreadPoolExecutor(3) as ex:
                for p in ex.map(export, CONFIGS):
                    print("exported", p, os.path.getsize(p))
        except NoAnswer as e:
            print(e)
            return 2
        return 0
    if argv[0] == "check":
        try:
            return check(argv[1], tier, seed)
        except NoAnswer as e:
            print("no answer:", e)
            return 2
    if argv[0] == "all":
        import props
        rc = 0
        for p in argv[1:] or sorted(props.PROPS):
            r = subprocess.call([sys.executable, os.path.abspath(__file__), "check", p, "--tier", tier])
            rc = max(rc, r)
        return rc
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
