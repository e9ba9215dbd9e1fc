"""C12: results depend neither on the environment nor on earlier work."""
import gc
import os
import random
import sys
import tempfile
import threading

import numpy as np

from sim import lib, pipeline, sched, zygote
from sim.props import c01
from sim.runner import Violation, check

ID = "C12"
TITLE = "environment and history independence"
RULE = ("A run is one analysis (mesh, graph, space, system, solution, exports) repeated under 1-3 drawn environments "
        "and histories; two runs are distinct when analysis, environment or interrupted history differ, and count only "
        "when a whole analysis was compared in another environment or after other work.")
REAL = ["all of src/", "gmsh", "meshio", "basix", "PETSc", "joblib dispatch"]
STUB = ["clock", "processor count", "thread pool in parallel builds (simulated)", "hash seed and malloc fill (other interpreters)"]
ASSUMPTIONS = ["BLAS runs with one thread", "gmsh is repeatable for a given model in a given session state"]
QUICK, THOROUGH = 420, 20000
LISTS = ["variants", "variants.0.prior", "variants.1.prior", "variants.2.prior", "variants.0.env", "variants.1.env",
         "variants.2.env"]
ENV = ["cpu", "clock", "random", "gc", "print", "stale", "cwd", "heap", "umask"]
STALE = ["m.msh", "g_1d.vtk", "g_2d.vtk", "g_3d.vtk", "g_0d.vtk", "g.txt", "solution.vtk", "exact.vtk"]


def prepare():
    zygote.start()


def finish():
    zygote.stop()


def gen(rng, tier, i):
    a = pipeline.gen_analysis(rng, kinds=("spec", "spec", "gen", "gen", "md"), small=tier == "quick")
    return {"a": a, "variants": [gen_variant(rng, a) for _ in range(rng.choice([1, 2, 2, 3]))]}


def gen_variant(rng, a):
    v = {"interp": rng.choice([0, 0] + list(range(1, len(zygote.SETTINGS)))), "env": [], "prior": [], "how": "plain"}
    for e in rng.sample(ENV, rng.randint(0, 4)):
        v["env"].append([e, {"cpu": rng.choice([1, 2, 3, 7, 64]), "clock": [rng.choice([0.0, 2.0**31, 1e12, 1.7e9]),
                                       [[int(10 ** rng.uniform(0, 3)), rng.choice([5.0, -3600.0, 1e3, 1e7, -1e-3])]
                                        for _ in range(rng.choice([1, 3, 8]))]],
                             "random": rng.randrange(1 << 30), "gc": rng.choice(["off", "often"]),
                             "print": 0, "stale": rng.choice(["long", "other", "empty"]),
                             "cwd": rng.choice(["with space", "d" * 100, "ünï", "a/b/c/d"]),
                             "heap": rng.randrange(1 << 30), "umask": 0o077}[e]])
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        same = rng.random() < 0.25
        b = a if same else pipeline.gen_analysis(rng, kinds=("spec", "spec", "gen", "gen", "md"), small=True)
        p = {"a": b, "here": rng.random() < 0.3, "stop": None}
        if rng.random() < 0.6:
            p["stop"] = [rng.choice(["memory", "interrupt", "oserror"]), int(10 ** rng.uniform(1.5, 4.6))]
            if rng.random() < 0.7:
                # within the k-th stage: function, call, line
                p["stop"][1] = [rng.choice([rng.randrange(15), rng.randrange(8, 16)]), rng.choice([0, int(40 ** rng.random()) - 1]),
                                rng.choice([1, int(20 ** rng.random())]), int(10 ** rng.uniform(0, 2))]
        v["prior"].append(p)
    if a["kind"] == "spec":
        v["how"] = rng.choice(["plain", "plain", "thread", "parallel"])
    if not v["env"] and not v["prior"] and not v["interp"] and v["how"] == "plain":
        v["prior"].append({"a": a, "here": False, "stop": None})
    return v


def simplify(sc):
    for i, v in enumerate(sc["variants"]):
        for key, val in (("how", "plain"), ("interp", 0)):
            if v[key] != val:
                c = [dict(u) for u in sc["variants"]]
                c[i][key] = val
                yield dict(sc, variants=c)
    a = sc["a"]
    if len(a["exports"]) > 1:
        for e in a["exports"]:
            yield dict(sc, a=dict(a, exports=[e]))
    if a["project"]:
        yield dict(sc, a=dict(a, project=False))


def outcome(a, objects=None, stage=lambda k: None):
    """(stages, kind of the exception that ended the analysis)."""
    out = []
    try:
        stage(0)
        for s in pipeline.analysis(a, objects=objects):
            out.append(s)
            stage(len(out))
    except Exception as e:  # noqa: BLE001
        return out, type(e).__name__
    return out, None


def own_output():
    """Prints go to a stream that stays as the library leaves it."""
    sys.stdout = open(os.devnull, "w")
    lib.loud = True


def reference(a):
    own_output()
    d = tempfile.mkdtemp(dir=os.getcwd())
    os.chdir(d)
    random.seed(0)
    np.random.seed(0)
    return outcome(a)


def interrupted(a, stop, objects, log):
    def act():
        raise sched.FAULT_EXC[stop[0]]()

    at, staged = stop[1], isinstance(stop[1], (list, tuple))
    s, end = sched.Lines(None if staged else at, act), None

    def stage(k):
        # where a stage has no such place an early one of the next stage is taken
        if staged and s.where is None and k >= at[0]:
            n = k - at[0]
            s.aim((at[1] >> n, max(1, at[2] >> n), max(1, at[3] >> 2 * n)))

    try:
        end = s.run(lambda: outcome(a, objects, stage))[1]
    except BaseException as e:  # noqa: BLE001
        end = type(e).__name__
    log.append([s.steps if s.where else -1, stop[0], s.where, end])


def play(a, v, root):
    """One variant; returns its outcome and what became of earlier objects."""
    own_output()
    d = tempfile.mkdtemp(dir=root)
    os.chdir(d)
    env = dict(v["env"])
    junk, log, objects, threads = [], [], [], threading.active_count()
    if "heap" in env:
        r = random.Random(env["heap"])
        junk = [[bytearray(r.randrange(1, 4000)) for _ in range(3000)], [object() for _ in range(r.randrange(5000))],
                [np.full(r.randrange(1, 3000), np.nan) for _ in range(2000)]]
        junk = [x[::2] for x in junk]
    if "cwd" in env:
        os.makedirs(env["cwd"])
        os.chdir(env["cwd"])
    if "umask" in env:
        os.umask(env["umask"])
    w = sched.world
    w.cpu = env.get("cpu", 4)
    if "clock" in env:
        w.clock0, w.clock_faults = env["clock"]
    w.on = "cpu" in env or "clock" in env or v["how"] == "parallel"
    if "random" in env:
        random.seed(env["random"])
        np.random.seed(env["random"] % (1 << 32))
    if env.get("gc") == "off":
        gc.disable()
    elif "gc" in env:
        gc.set_threshold(100, 2, 2)
    if "print" in env:
        np.set_printoptions(precision=2, threshold=3, edgeitems=1, suppress=True, linewidth=20)
    here = os.getcwd()
    for p in v["prior"]:
        if not p["here"]:
            os.chdir(tempfile.mkdtemp(dir=root))
        got = []
        if p["stop"]:
            interrupted(p["a"], p["stop"], got, log)
        else:
            log.append(["done", outcome(p["a"], got)[1]])
        os.chdir(here)
        # what came out is described after the work that made it has ended
        objects += [(n, o, f, lib.digest(f(o))) for n, o, f in got]
    if "stale" in env:
        for n in STALE:
            lib.in_file(n, {"long": b"\xff old content\n" * 4000, "other": b"$MeshFormat\n4.1 0 8\n", "empty": b""}[env["stale"]])
    box = []
    if v["how"] == "thread":
        t = threading.Thread(target=lambda: box.append(outcome(a)))
        t.start()
        t.join()
    elif v["how"] == "parallel":
        c01.parallel(True)
        s = sched.Sched({"seed": len(v["prior"]), "rate": 0.001}, gran="line")
        try:
            s.run([("main", lambda: box.append(outcome(a)))])
        finally:
            c01.parallel(False)
        log.append(["parallel", s.steps, s.n_switch])
    else:
        box.append(outcome(a))
    changed = [n for n, o, f, was in objects if lib.digest(f(o)) != was]
    return box[0] if box else None, log, changed, len(objects)


def run(sc, ctx):
    a = sc["a"]
    r = lib.in_child(reference, a)
    if r[0] != "ok":
        raise RuntimeError(f"reference analysis: {r[1:]}")
    want, ended = r[1]
    ctx.log(lib.digest(want), ended)
    ctx.probes["analyses that raise"] += bool(ended)
    zyg = zygote.current
    for v in sc["variants"]:
        what = f"interpreter {zygote.SETTINGS[v['interp']]}, {v['how']}, {v['env']}, {len(v['prior'])} earlier analyses"
        if v["interp"]:
            r = zyg.call(v["interp"], __name__, "play", a, v, ctx.tmp)
        else:
            r = lib.in_child(play, a, v, ctx.tmp)
        if r[0] != "ok":
            if r[1] == "child died":
                raise Violation("died", f"the process ends in this environment: {what}")
            raise RuntimeError(f"{what}: {r[1:]}")
        got, log, changed, n = r[1]
        ctx.ops += 1 + len(v["prior"])
        ctx.log(what, log, changed)
        for e, _ in v["env"]:
            ctx.faults[f"environment:{e}"] += 1
        ctx.faults["environment:interpreter settings"] += v["interp"] > 0
        ctx.faults[f"environment:{v['how']}"] += v["how"] != "plain"
        for x in log:
            if x[0] == "parallel":
                ctx.steps += x[1]
                ctx.switches += x[2]
                ctx.probes["parallel construction"] += 1
            elif x[0] == "done":
                ctx.faults["history:whole analysis"] += 1
            else:
                ctx.faults["history:interrupted analysis"] += x[0] >= 0
                ctx.state(x)
        check(got is not None, "died", f"the analysis gave nothing: {what}")
        stages, end = got
        for (n0, x), (n1, y) in zip(want, stages):
            check(n0 == n1, "differs", f"stage {n1} instead of {n0}: {what}")
            check(x == y, "differs", lambda: f"{n0}: {lib.first_diff(x, y)}: {what}")
        check(end == ended, "differs",
              lambda: f"the analysis ends with {end} after {len(stages)} stages, elsewhere with {ended} after {len(want)}: {what}")
        check(not changed, "earlier-objects-changed", f"{changed} of an earlier analysis changed: {what}")
        ctx.probes["earlier objects checked"] += n
        ctx.state(lib.digest(a), v["interp"], v["env"], v["how"], len(v["prior"]))
        ctx.nontrivial = True
