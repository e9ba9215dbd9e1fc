"""Seeded search, minimisation, replay and evidence for one property.

A property module provides
  ID, TITLE, RULE, REAL, STUB, ASSUMPTIONS
  QUICK, THOROUGH      number of simulated runs
  gen(rng, tier, i)    -> scenario (plain JSON data: the whole run)
  run(scenario, ctx)   -> None; raises Violation; records into ctx
  LISTS                dotted names of scenario lists the minimiser may shorten
  simplify(scenario)   optional, yields simpler scenarios
  prepare(), finish()  optional, once around a batch of runs
Every run executes in its own forked child with its own scratch directory.
"""
import collections
import copy
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, cls, detail=""):
        super().__init__(f"{cls}: {detail}")
        self.cls, self.detail = cls, str(detail)


class judging:
    """Errors while looking at what the library delivered mean it is malformed."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or issubclass(et, Violation) or not issubclass(et, Exception):
            return False
        raise Violation("malformed", f"{self.what}: {et.__name__}: {ev}") from ev


def must(what, fn, *a, **k):
    """Call that the property says has to succeed."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except (Exception, SystemExit) as e:
        raise Violation("unexpected-failure", f"{what}: {type(e).__name__}: {e}") from e


def check(cond, cls, detail=""):
    if not cond:
        raise Violation(cls, detail() if callable(detail) else detail)


class Ctx:
    """What a run reports back."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.simtime = 0.0
        self.steps = 0
        self.switches = 0
        self.ops = 0
        self.trail = hashlib.sha256()
        self.shape = hashlib.sha256()
        self.plan = None
        self.nontrivial = False

    def log(self, *items):
        """Event log: outcome of every operation, fault and switch."""
        s = repr(items)
        self.trail.update(s.encode())

    def state(self, *items):
        """Feeds the 'distinct interleavings / states' measure."""
        self.shape.update(repr(items).encode())

    def absorb(self, sched):
        self.steps += sched.steps
        self.switches += sched.n_switch
        self.simtime += sched.now + sched.steps * 1e-4
        for kind, where in sched.fired:
            self.faults[f"exception:{kind}"] += 1
            if where:
                self.state("F", kind, where)
        d = sched.trail.hexdigest()
        self.log("sched", d, sched.steps)
        self.state(d)
        self.plan = sched.plan_out()


def silence():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")


def uses_pristine(mod):
    if mod.__name__ not in _uses:
        with open(mod.__file__) as f:
            _uses[mod.__name__] = "in_child" in f.read()
    return _uses[mod.__name__]


_uses = {}


def execute(mod, scenario, timeout=120.0, base=None):
    """Run one scenario in a forked child; returns its result dict."""
    r, w = os.pipe()
    base = base or scratch_base()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            os.setpgid(0, 0)
            silence()
            tmp = tempfile.mkdtemp(dir=base)
            os.chdir(tmp)
            random.seed(0)
            import numpy as np

            np.random.seed(0)
            if uses_pristine(mod):
                from sim import lib

                lib.start_pristine((w,))
            ctx = Ctx(tmp)
            out = {"violation": None, "error": None}
            try:
                mod.run(copy.deepcopy(scenario), ctx)
            except Violation as v:
                out["violation"] = {"class": v.cls, "detail": v.detail[:2000]}
                ctx.log("violation", v.cls)
            except BaseException:  # noqa: BLE001
                out["error"] = traceback.format_exc()[-4000:]
            sys.settrace(None)
            resource.setrlimit(resource.RLIMIT_FSIZE,
                               (resource.RLIM_INFINITY,
                                resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            out.update(
                faults=dict(ctx.faults), probes=dict(ctx.probes), simtime=ctx.simtime,
                steps=ctx.steps, switches=ctx.switches, ops=ctx.ops,
                digest=ctx.trail.hexdigest(), shape=ctx.shape.hexdigest(),
                plan=ctx.plan, nontrivial=bool(ctx.nontrivial),
            )
            data = json.dumps(out).encode()
            os.chdir("/")
            shutil.rmtree(tmp, ignore_errors=True)
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:  # noqa: BLE001
            code = 3
        os._exit(code)
    os.close(w)
    chunks, deadline, status = [], time.monotonic() + timeout, None
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                k()
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    raw = b"".join(chunks)
    try:
        return json.loads(raw)
    except ValueError:
        why = "timeout" if timed_out else f"child ended with status {status}"
        return no_result(why, not timed_out)


def no_result(why, died=False):
    return {"violation": None, "error": why, "died": died, "faults": {},
            "probes": {}, "simtime": 0, "steps": 0, "switches": 0, "ops": 0,
            "digest": why, "shape": why, "plan": None, "nontrivial": False}


_base = None


def scratch_base():
    global _base
    if _base is None:
        _base = tempfile.mkdtemp(prefix="vsim-")
    return _base


def drop_scratch():
    global _base
    if _base is not None:
        shutil.rmtree(_base, ignore_errors=True)
        _base = None


def scenario_of(mod, seed, i, tier):
    rng = random.Random(f"{mod.ID}:{seed}:{i}")
    sc = mod.gen(rng, tier, i)
    return json.loads(json.dumps(sc))


def _worker(mod, seed, tier, todo, fd, stop_at):
    with os.fdopen(fd, "wb") as out:
        for i, again in todo:
            if time.monotonic() > stop_at:
                break
            try:
                res = execute(mod, scenario_of(mod, seed, i, tier))
            except Exception:  # noqa: BLE001  a defect of the generator itself
                res = no_result(traceback.format_exc()[-2000:])
            res["i"], res["again"] = i, again
            blob = pickle.dumps(res)
            out.write(len(blob).to_bytes(4, "big") + blob)
            out.flush()


def search(mod, seed, tier, n, workers, cap, selftest):
    """Parallel batch; results ordered by run index."""
    plan = [(i, False) for i in range(n)] + [(i, True) for i in selftest]
    stop_at = time.monotonic() + cap
    pids, fds = [], {}
    for k in range(workers):
        # repeated runs land on another worker than the first execution
        todo = [(i, a) for i, a in plan if (i + (3 if a else 0)) % workers == k]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for q in fds:
                os.close(q)
            try:
                _worker(mod, seed, tier, todo, w, stop_at)
            finally:
                os._exit(0)
        os.close(w)
        pids.append(pid)
        fds[r] = b""
    got = []
    viol = 0
    while fds:
        ready, _, _ = select.select(list(fds), [], [], 5.0)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del fds[r]
                continue
            buf = fds[r] + b
            while len(buf) >= 4:
                m = int.from_bytes(buf[:4], "big")
                if len(buf) < 4 + m:
                    break
                res = pickle.loads(buf[4:4 + m])
                got.append(res)
                if res["violation"]:
                    viol += 1
                buf = buf[4 + m:]
            fds[r] = buf
        if viol >= 40:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
    for r in fds:
        os.close(r)
    for p in pids:
        os.waitpid(p, 0)
    got.sort(key=lambda x: (x["i"], x["again"]))
    return got


# ------------------------------------------------------------------ minimiser
def _get(sc, path):
    cur = sc
    for p in path.split("."):
        if isinstance(cur, list) and p.isdigit() and int(p) < len(cur):
            cur = cur[int(p)]
        elif isinstance(cur, dict) and p in cur:
            cur = cur[p]
        else:
            return None
    return cur


def _set(sc, path, val):
    cur = sc
    parts = path.split(".")
    for p in parts[:-1]:
        cur = cur[int(p)] if isinstance(cur, list) else cur[p]
    if isinstance(cur, list):
        cur[int(parts[-1])] = val
    else:
        cur[parts[-1]] = val


def minimise(mod, sc, cls, budget_s=60.0, max_runs=150):
    end, runs = time.monotonic() + budget_s, 0

    def bad(c):
        nonlocal runs
        if runs >= max_runs or time.monotonic() > end:
            return False
        runs += 1
        r = execute(mod, c, timeout=60)
        return r["violation"] is not None and r["violation"]["class"] == cls

    # freeze a drawn schedule into an explicit one
    if isinstance(sc.get("plan"), dict) and "seed" in sc["plan"]:
        r = execute(mod, sc)
        if r.get("plan"):
            c = copy.deepcopy(sc)
            c["plan"] = r["plan"]
            if bad(c):
                sc = c
    lists = list(mod.LISTS) + ["plan.switches"]
    for _ in range(2):
        before = json.dumps(sc)
        for path in lists:
            cur = _get(sc, path)
            if not isinstance(cur, list) or not cur:
                continue
            c = copy.deepcopy(sc)
            _set(c, path, [])
            if bad(c):
                sc = c
                continue
            size = max(1, len(cur) // 2)
            while size >= 1:
                k = 0
                while True:
                    cur = _get(sc, path)
                    if k >= len(cur):
                        break
                    c = copy.deepcopy(sc)
                    _set(c, path, cur[:k] + cur[k + size:])
                    if bad(c):
                        sc = c
                    else:
                        k += size
                if size == 1:
                    break
                size //= 2
        if hasattr(mod, "simplify"):
            progress = True
            while progress and time.monotonic() < end and runs < max_runs:
                progress = False
                for c in mod.simplify(copy.deepcopy(sc)):
                    if json.dumps(c) != json.dumps(sc) and bad(c):
                        sc, progress = c, True
                        break
        if json.dumps(sc) == before:
            break
    return sc, runs


# -------------------------------------------------------------- known findings
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [e for e in json.load(open(path)) if e.get("status") == "known"]


def match_known(mod, viol):
    for e in known_findings():
        if e["property"] == mod.ID and e["class"] == viol["class"] and e["match"] in viol["detail"]:
            return e
    return None


# ------------------------------------------------------------------------ main
def replay(mod, path):
    rec = json.load(open(path))
    try:
        if hasattr(mod, "prepare"):
            mod.prepare()
        res = execute(mod, rec["scenario"], timeout=300)
    finally:
        if hasattr(mod, "finish"):
            mod.finish()
        drop_scratch()
    if res["error"]:
        print("ERROR", res["error"])
        return 2
    if res["violation"] is None:
        print(f"replay of {path}: no violation")
        return 0
    print("class:", res["violation"]["class"])
    print("detail:", res["violation"]["detail"])
    print("digest:", res["digest"])
    print(f"VIOLATION property={mod.ID} replay={path}")
    return 1


def main(mod, argv):
    if "--replay" in argv:
        return replay(mod, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    n = mod.THOROUGH if tier == "thorough" else mod.QUICK
    if "--runs" in argv:
        n = int(argv[argv.index("--runs") + 1])
    cap = 420.0 if tier == "quick" else 6 * 3600.0
    print(f"{mod.ID} {mod.TITLE}: tier={tier} VERIF_SEED={seed} runs={n} workers={workers}",
          flush=True)
    t0 = time.monotonic()
    scratch_base()
    try:
        if hasattr(mod, "prepare"):
            mod.prepare()
        return _main(mod, tier, seed, workers, n, cap, t0)
    finally:
        if hasattr(mod, "finish"):
            mod.finish()
        drop_scratch()


def _main(mod, tier, seed, workers, n, cap, t0):
    step = max(1, n // (24 if tier == "quick" else 400))
    selftest = list(range(0, n, step))
    got = search(mod, seed, tier, n, workers, cap, selftest)
    first = {r["i"]: r for r in got if not r["again"]}
    again = {r["i"]: r for r in got if r["again"]}
    mism = [i for i, r in again.items() if i in first and r["digest"] != first[i]["digest"]]
    errors = [r for r in first.values() if r["error"]]
    viols = [r for r in first.values() if r["violation"]]
    search_s = time.monotonic() - t0

    faults, probes = collections.Counter(), collections.Counter()
    for r in first.values():
        faults.update(r["faults"])
        probes.update(r["probes"])
    shapes = {r["shape"] for r in first.values() if r["nontrivial"]}
    rc, known_hit, reported = 0, {}, []
    fresh = []
    for r in viols:
        k = match_known(mod, r["violation"])
        if k:
            known_hit.setdefault(k["id"], k)
        else:
            fresh.append(r)
    # minimise one representative per violation class
    seen = set()
    for r in sorted(fresh, key=lambda r: r["i"]):
        cls = r["violation"]["class"]
        if cls in seen or len(seen) >= 3:
            continue
        seen.add(cls)
        sc = scenario_of(mod, seed, r["i"], tier)
        msc, mruns = minimise(mod, sc, cls)
        final = execute(mod, msc, timeout=120)
        if not final["violation"] or match_known(mod, final["violation"]):
            msc, final = sc, execute(mod, sc, timeout=120)
        if not final["violation"]:
            errors.append(dict(r, error="violation did not repeat in this process"))
            continue
        path = write_replay(mod, tier, seed, r["i"], msc, final, sc)
        ok, out = replay_fresh(mod, path)
        if not ok:
            path = write_replay(mod, tier, seed, r["i"], sc, r, sc)
            ok, out = replay_fresh(mod, path)
        if not ok:
            errors.append(dict(r, error="violation did not replay in a fresh process: " + out))
            continue
        print(f"  run {r['i']}: {final['violation']['class']}: "
              f"{final['violation']['detail'][:600]}  (minimised in {mruns} runs)")
        reported.append({"run": r["i"], "class": cls, "replay": path})
        print(f"VIOLATION property={mod.ID} replay={path}", flush=True)
        rc = 1
    for k in known_findings():
        if k["property"] == mod.ID:
            print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    died = [r for r in errors if r.get("died")]
    if errors and rc == 0:
        rc = 2
    for r in errors[:3]:
        print(f"  run {r['i']} harness error: {str(r['error'])[-1500:]}")
    if len(first) < n and rc == 0:
        print(f"  only {len(first)} of {n} runs fitted in {cap:.0f} s")
        if len(first) < max(4, n // 10):
            rc = 2
    wall = time.monotonic() - t0
    ordered = [first[i]["digest"] for i in sorted(first)]
    batch = hashlib.sha256("".join(ordered).encode()).hexdigest()
    samples = []
    for i in sorted(first)[:1] + sorted(first)[len(first) // 2:][:1]:
        samples.append({"run": i, "scenario": trim(scenario_of(mod, seed, i, tier)),
                        "faults": first[i]["faults"], "steps": first[i]["steps"],
                        "digest": first[i]["digest"]})
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(first),
            "distinct_nontrivial": len(shapes),
            "rule": mod.RULE,
            "samples": samples,
            "simulated_runs_per_hour": round(len(first) / max(search_s, 1e-9) * 3600),
            "seeds_per_hour": round(len(first) / max(search_s, 1e-9) * 3600),
            "simulated_seconds": round(sum(r["simtime"] for r in first.values()), 3),
            "logical_steps": sum(r["steps"] for r in first.values()),
            "context_switches": sum(r["switches"] for r in first.values()),
            "operations": sum(r["ops"] for r in first.values()),
            "faults_injected": {k: v for k, v in sorted(faults.items()) if v},
            "probes": dict(sorted(probes.items())),
            "determinism": {"runs_executed_twice": len(again), "digest_mismatches": len(mism),
                            "batch_digest": batch},
            "components_real": mod.REAL,
            "components_stubbed": mod.STUB,
            "workers": workers,
            "harness_errors": len(errors),
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if mism:
        print(f"  NOTE: {len(mism)} repeated runs had another event log: {mism[:10]}")
    print(f"{mod.ID}: {len(first)} runs, {len(shapes)} distinct, faults={ {k: v for k, v in faults.items() if v} }, "
          f"violations={len(fresh)}, errors={len(errors)} ({len(died)} died), {wall:.1f} s -> exit {rc}")
    return rc


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def write_replay(mod, tier, seed, i, sc, res, original):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.ID}-{seed}-{i}.json")
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "tier": tier, "seed": seed, "run": i,
                   "violation": res["violation"], "digest": res["digest"],
                   "scenario": sc, "unminimised_size": len(json.dumps(original)),
                   "minimised_size": len(json.dumps(sc))}, f, indent=1)
    return path


def replay_fresh(mod, path):
    p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), mod.ID, "--replay", path],
                       capture_output=True, text=True, timeout=400)
    return p.returncode == 1 and f"VIOLATION property={mod.ID}" in p.stdout, p.stdout[-500:]
