"""Runner: explores one property exhaustively within its stated bounds.

A property module (mc/props/<id>.py) provides

    LEVEL   "model_checking" or "exploration"
    RULE    how the space is enumerated / what a non-trivial case is
    ASSUME  list of assumptions
    tasks(tier) -> list of dict(name=..., x64=True, **params)   (picklable)
    run(task, ctx)                                              explores one slice

The parent process never imports jax; slices are handed out to forked workers that
import the code under test from /repo's working tree.
"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def worker_env(x64):
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["JAX_ENABLE_X64"] = "1" if x64 else "0"
    os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ.pop("JAX_COMPILATION_CACHE_DIR", None)
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(REPO, "src"))
    # the version file is generated by the build and not tracked
    vf = os.path.join(REPO, "src", "jaxoplanet", "jaxoplanet_version.py")
    if not os.path.exists(vf):
        import types

        m = types.ModuleType("jaxoplanet.jaxoplanet_version")
        m.__version__ = m.version = "0.0.0"
        sys.modules["jaxoplanet.jaxoplanet_version"] = m


def worker(pid, x64, q, out, tier):
    worker_env(x64)
    import warnings

    warnings.filterwarnings("ignore")
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    try:
        import framework

        mod = importlib.import_module("props." + pid)
        import jaxoplanet

        src = os.path.realpath(jaxoplanet.__file__)
        if not src.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f"wrong code under test: {src}")
    except BaseException:
        out.put(("fatal", None, traceback.format_exc()))
        return
    while True:
        item = q.get()
        if item is None:
            break
        i, task = item
        t0 = time.time()
        ctx = framework.Ctx(pid, task, tier)
        try:
            mod.run(task, ctx)
        except framework.HarnessError:
            out.put(("fatal", i, traceback.format_exc()))
            continue
        except Exception as e:
            # The code under test raised where the property promises a result.
            ctx.violation(
                "raised:" + task["name"],
                error=f"{type(e).__name__}: {e}"[:2000],
                traceback=traceback.format_exc()[-4000:],
            )
        res = ctx.result()
        res["wall"] = time.time() - t0
        out.put(("ok", i, res))
    out.put(("done", None, None))


def load_known():
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    parts = dict(
                        p.split("=", 1) for p in line.split()[1:3] if "=" in p
                    )
                    what = line.split(None, 3)[3]
                    known[(parts["property"], parts["key"])] = what
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only tasks whose name contains this")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    pid, tier = args.pid, args.tier
    t0 = time.time()
    scratch = tempfile.TemporaryDirectory(prefix="mc-")  # removed when this process ends
    os.environ["VERIF_SCRATCH"] = scratch.name
    sys.path.insert(0, HERE)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    # read task list in a child so the parent never imports jax
    if args.replay:
        with open(args.replay) as f:
            tasks = [json.load(f)["task"]]
    else:
        rq = mp.Queue()

        def lister():
            worker_env(True)
            mod = importlib.import_module("props." + pid)
            rq.put((mod.tasks(tier), mod.LEVEL, mod.RULE, mod.ASSUME))

        p = mp.Process(target=lister)
        p.start()
        try:
            tasks, level, rule, assume = rq.get(timeout=60)
        except Exception:
            print("harness error: cannot list tasks")
            sys.exit(2)
        p.join()
    if args.replay:
        level, rule, assume = "exploration", "replay", []
    if args.only:
        tasks = [t for t in tasks if args.only in t["name"]]
    for i, t in enumerate(tasks):
        t.setdefault("x64", True)

    out = mp.Queue()
    procs = []
    n32 = sum(not t["x64"] for t in tasks)
    n64 = len(tasks) - n32
    jobs = {}
    if n32 and n64:
        j32 = max(1, min(n32, round(args.jobs * n32 / len(tasks))))
        j32 = min(j32, args.jobs - 1)
        jobs = {False: j32, True: min(n64, args.jobs - j32)}
    elif n32:
        jobs = {False: min(n32, args.jobs)}
    else:
        jobs = {True: min(n64, args.jobs)}
    for mode, nj in jobs.items():
        q = mp.Queue()
        # heavier tasks first ("cost" is a hint)
        mine = [(i, t) for i, t in enumerate(tasks) if t["x64"] == mode]
        mine.sort(key=lambda it: -it[1].get("cost", 1))
        for it in mine:
            q.put(it)
        for _ in range(nj):
            q.put(None)
        for _ in range(nj):
            p = mp.Process(target=worker, args=(pid, mode, q, out, tier))
            p.daemon = True
            p.start()
            procs.append(p)

    results = {}
    done = 0
    fatal = []
    import queue as _queue

    limit = 860 if tier == "quick" else 24 * 3600
    while done < len(procs):
        try:
            kind, i, payload = out.get(timeout=5)
        except _queue.Empty:
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead:
                fatal.append(f"worker died: exit {[p.exitcode for p in dead]}")
                break
            if time.time() - t0 > limit:
                fatal.append("time limit")
                break
            continue
        if kind == "done":
            done += 1
        elif kind == "fatal":
            fatal.append(payload)
            if i is None:
                done += 1
        else:
            results[i] = payload
            if args.v:
                print(
                    f"  {tasks[i]['name']}: {payload['wall']:.1f}s "
                    f"states={payload['states']} viol={len(payload['violations'])}"
                )
    for p in procs:
        if p.is_alive():
            p.terminate()

    tot = dict(states=0, transitions=0, traces=0, evals=0, nontrivial=0)
    violations, samples, notes = [], [], {}
    for i in sorted(results):
        r = results[i]
        for k in tot:
            tot[k] += r[k]
        for v in r["violations"]:
            violations.append((tasks[i], v))
        if r["samples"] and len(samples) < 12:
            samples.extend(r["samples"][: 1 if len(tasks) > 6 else 3])
        for k, v in r["notes"].items():
            notes[k] = max(notes[k], v) if k in notes else v

    known = load_known()
    new, old = [], {}
    for t, v in violations:
        k = (pid, v["key"])
        if k in known:
            old[v["key"]] = known[k]
        else:
            new.append((t, v))

    if not args.replay and not args.only:
        cov = dict(samples=samples or ["none"], rule=rule, notes=notes)
        cov["exhaustive"] = not fatal
        if level == "model_checking":
            cov.update(
                states=tot["states"],
                transitions=tot["transitions"],
                traces_validated_against_impl=tot["traces"],
            )
        else:
            cov.update(
                evaluations=tot["states"], distinct_nontrivial=tot["nontrivial"]
            )
        cov["tasks"] = {
            tasks[i]["name"]: results[i]["states"] for i in sorted(results)
        }
        ev = dict(
            property=pid,
            tier=tier,
            seed=seed,
            level=level,
            coverage=cov,
            assumptions=assume,
            wall_s=round(time.time() - t0, 2),
            violations=len(new),
        )
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ROOT, "evidence", f"{pid}.json"))

    for key, what in old.items():
        print(f"KNOWN-FINDING: property={pid} {what} [{key}]")
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{pid}.json")
        with open(path, "w") as f:
            json.dump(
                dict(
                    property=pid,
                    task=new[0][0],
                    first=new[0][1],
                    all=[dict(task=t["name"], **v) for t, v in new[:50]],
                    how=f"./check {pid} --replay {path}",
                ),
                f,
                indent=1,
                default=str,
            )
        t, v = new[0]
        print(f"first of {len(new)}: task={t['name']} {json.dumps(v, default=str)[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if fatal:
        print("harness error:\n" + "\n".join(map(str, fatal))[-6000:])
        sys.exit(2)
    print(
        f"{pid}: held on {tot['states']} states, {tot['transitions']} transitions, "
        f"{tot['traces']} traces ({time.time() - t0:.1f}s, tier {tier})"
    )
    sys.exit(0)


if __name__ == "__main__":
    main()
