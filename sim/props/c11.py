"""C11: an analysis may die anywhere; rerunning it gives the uninterrupted result."""
import os
import pickle
import resource
import signal
import sys
import tempfile

from sim import disk, lib, pipeline, sched
from sim.runner import check

ID = "C11"
TITLE = "crash and rerun"
RULE = ("A run is one analysis whose process is ended 1-3 times, at a drawn library line or at a drawn byte of a file being "
        "written, with the unacknowledged files torn, and then run to the end; two runs are distinct when the place of "
        "death, the files left or the analysis differ, and count only when a process really died.")
REAL = ["all of src/", "gmsh", "meshio", "basix", "PETSc", "process death (own process, own directory)", "the file system"]
STUB = ["torn state of files whose writer had not returned"]
ASSUMPTIONS = ["a file whose writer returned is durable", "one analysis at a time works in the directory"]
QUICK, THOROUGH = 420, 30000
LISTS = ["crashes", "stale"]
EXPORTS = ["g_0d.vtk", "g_1d.vtk", "g_2d.vtk", "g_3d.vtk", "g.txt", "solution.vtk", "exact.vtk"]


def gen(rng, tier, i):
    a = pipeline.gen_analysis(rng, kinds=("spec", "gen", "gen", "md"), small=True)
    if a["kind"] == "spec" and rng.random() < 0.5:
        a["exports"] = list(set(a["exports"]) | {"vtk"})
        a["exports"].sort()
    crashes = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        c = {"mode": rng.choice(["rewrite", "reuse", "reuse"]), "torn": {}}
        x = rng.random()
        if x < 0.25:
            # shortly before the writer of the k-th file returns
            c["at"] = ["near", rng.randint(0, 3), int(10 ** rng.uniform(0, 2.7))]
        elif x < 0.45:
            # in a function, counted in the order they are first entered
            c["at"] = ["place", rng.randrange(200), int(10 ** rng.uniform(0, 1.3)), int(10 ** rng.uniform(0, 2))]
        elif x < 0.75:
            c["at"] = ["line", rng.choice([rng.random(), rng.random(), rng.random() ** 4, 1 - rng.random() ** 4])]
        else:
            c["at"] = ["byte", rng.randint(0, 3), rng.choice([0.0, rng.random(), rng.random()])]
        # "*" is what becomes of any other file the run touched
        for n in ["m.msh"] + EXPORTS + ["*"]:
            if rng.random() < 0.6:
                c["torn"][n] = {"kind": rng.choice(["cut", "cut", "zero", "empty", "gone"]),
                                "at": rng.random(), "len": rng.choice([0.02, 0.1, 0.5])}
        crashes.append(c)
    final = rng.choice(["rewrite", "reuse", "reuse"])
    crashes[0]["mode"] = rng.choice(["rewrite", crashes[0]["mode"]])
    stale = rng.sample(EXPORTS, rng.choice([0, 0, 1, 2]))
    if all(c["mode"] == "rewrite" for c in crashes) and final == "rewrite" and rng.random() < 0.5:
        stale.append("m.msh")
    # another analysis that ran in the same directory, to the end
    earlier = None
    if rng.random() < 0.3:
        if rng.random() < 0.5:
            earlier = pipeline.gen_analysis(rng, kinds=("spec", "gen", "md"), small=True)
        else:
            # nearly the same one
            earlier = dict(a, exports=rng.choice([a["exports"], ["data", "vtk"]]))
            if a["kind"] == "spec":
                earlier["aff"] = lib.gen_affine(rng, a["dim"])
            elif a["kind"] == "gen":
                earlier["g"] = dict(a["g"], lc=a["g"]["lc"] * 0.7)
            else:
                earlier["lines"] = rng.choice(pipeline.LINES)
            earlier["coef"] = lib.gen_coef(rng)
    return {"a": a, "crashes": crashes, "final": final, "stale": stale, "earlier": earlier}


def simplify(sc):
    a = sc["a"]
    if sc.get("earlier"):
        yield dict(sc, earlier=None)
    if len(a["exports"]) > 1:
        for e in a["exports"]:
            yield dict(sc, a=dict(a, exports=[e]))
    if a["project"]:
        yield dict(sc, a=dict(a, project=False))
    for i, c in enumerate(sc["crashes"]):
        for n in c["torn"]:
            t = {k: v for k, v in c["torn"].items() if k != n}
            yield dict(sc, crashes=sc["crashes"][:i] + [dict(c, torn=t)] + sc["crashes"][i + 1:])


def reference(a, root):
    os.chdir(tempfile.mkdtemp(dir=root))
    out, names, marks = [], [], []

    def ack(*n):
        names.extend(n)
        marks.append(ln.steps)

    def f():
        try:
            for s in pipeline.analysis(a, "rewrite", ack=ack):
                out.append(s)
        except Exception as e:  # noqa: BLE001
            return type(e).__name__
        return None

    ln = sched.Lines()
    ended = ln.run(f)
    files = {n: open(n, "rb").read() for n in names}
    return out, ended, ln.steps, files, marks


class Arm:
    """Sets the write limit that kills the process once `after` files are acknowledged."""

    def __init__(self, after, size):
        self.left, self.size = after, size
        self.check()

    def check(self):
        if self.left == 0:
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (self.size, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))

    def ack(self):
        self.left -= 1
        self.check()


def live(a, mode, crash, steps, sizes, where, marks=()):
    """Runs the analysis in its own process; (exit status, messages, stages or None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(where)
            sys.settrace(None)
            done = []

            def tell(*x):
                b = pickle.dumps(x)
                b = len(b).to_bytes(8, "big") + b
                while b:
                    b = b[os.write(w, b):]

            arm = None

            def ack(*names):
                for n in names:
                    tell("ack", n)
                if arm and not names[0].startswith("="):
                    arm.ack()

            def work():
                try:
                    for s in pipeline.analysis(a, mode, ack=ack):
                        done.append(s)
                except Exception as e:  # noqa: BLE001
                    return f"{type(e).__name__}: {e}"
                return None

            if crash is None:
                end = work()
            elif crash[0] == "line":
                end = sched.Lines(max(1, int(crash[1] * steps)), lambda: os._exit(7)).run(work)
            elif crash[0] == "place":
                end = sched.Lines(None, lambda: os._exit(7), crash[1:]).run(work)
            elif crash[0] == "near":
                k = marks[crash[1] % len(marks)] if marks else 1
                end = sched.Lines(max(1, k - crash[2]), lambda: os._exit(7)).run(work)
            else:
                arm = Arm(crash[1], int(crash[2] * max(list(sizes) or [0])))
                end = work()
            tell("end", end, done)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    msgs = []
    while len(data) >= 8:
        n = int.from_bytes(data[:8], "big")
        if len(data) < 8 + n:
            break
        msgs.append(pickle.loads(data[8:8 + n]))
        data = data[8 + n:]
    return status, msgs


def mark(p):
    try:
        st = os.stat(p)
        return st.st_mtime_ns, st.st_ino, st.st_size
    except FileNotFoundError:
        return None


def same(want, got, loaded, what):
    w = [s for s in want if not (loaded and s[0] in ("domain", "file"))]
    g = [s for s in got if not (loaded and s[0] in ("domain", "file"))]
    if not loaded:
        # the domain is only described when the file is always rewritten
        if not g or g[0][0] != "domain":
            w = [s for s in w if s[0] != "domain"]
    for (n0, x), (n1, y) in zip(w, g):
        check(n0 == n1, "rerun-differs", f"stage {n1} instead of {n0}: {what}")
        check(x == y, "rerun-differs", lambda: f"{n0}: {lib.first_diff(x, y)}: {what}")
    return len(w), len(g)


def run(sc, ctx):
    a = sc["a"]
    r = lib.in_child(reference, a, ctx.tmp)
    if r[0] != "ok":
        raise RuntimeError(f"reference analysis: {r[1:]}")
    want, ended, steps, files, marks = r[1]
    ctx.log(lib.digest(want), ended, steps)
    ctx.steps += steps
    where = tempfile.mkdtemp(dir=ctx.tmp)
    for n in sc["stale"]:
        lib.in_file(os.path.join(where, n), b"\xfe stale content\n" * 3000)
        ctx.faults["stale file"] += 1
    other = None
    if sc.get("earlier"):
        live(sc["earlier"], "rewrite", None, 0, [], where)
        p = os.path.join(where, "m.msh")
        other = open(p, "rb").read() if os.path.exists(p) else None
        ctx.faults["files of another analysis"] += 1
    whole = set()
    story = []
    plan = [(c["mode"], c) for c in sc["crashes"]] + [(sc["final"], None)]
    for mode, c in plan:
        names = sorted(os.listdir(where))
        if other is not None and mode == "reuse" and "m.msh" in names and \
                open(os.path.join(where, "m.msh"), "rb").read() == other:
            # the mesh of the other analysis is not one to load again
            mode = "rewrite"
        before = {n: mark(os.path.join(where, n)) for n in names}
        status, msgs = live(a, mode, c and c["at"], steps, [len(b) for b in files.values()], where, marks)
        acked = [m[1] for m in msgs if m[0] == "ack"]
        loaded = "=loaded" in acked
        end = next((m for m in msgs if m[0] == "end"), None)
        ctx.ops += 1
        died = "finished" if end else ("line" if status == 7 << 8 else "byte" if status & 127 == signal.SIGXFSZ else f"status {status}")
        ctx.log(mode, died, acked)
        what = f"history {story + [[mode, c and c['at']]]}, stale {sc['stale']}, earlier {bool(sc.get('earlier'))}"
        check(died in ("finished", "line", "byte"), "died", f"the process ended by itself ({died}): {what}")
        # an acknowledged mesh file has to be used again
        if mode == "reuse" and "m.msh" in whole and (end or len(acked) > 0):
            check(loaded, "acknowledged-file-lost", f"the mesh file reported as written is not accepted: {what}")
            ctx.probes["acknowledged file loaded again"] += 1
        touched = [n for n in sorted(os.listdir(where)) if mark(os.path.join(where, n)) != before.get(n)]
        if not loaded:
            whole -= {n for n in touched if n not in acked}
        else:
            whole -= {n for n in touched if n not in acked and n != "m.msh"}
        for n in acked:
            if not n.startswith("="):
                whole.add(n)
                check(os.path.isfile(os.path.join(where, n)), "acknowledged-file-incomplete",
                      f"{n} was reported as written, there is no such file: {what}")
                with open(os.path.join(where, n), "rb") as f:
                    check(f.read() == files.get(n), "acknowledged-file-incomplete",
                          f"{n} was reported as written, its content is not the full one: {what}")
                ctx.probes["acknowledged files compared"] += 1
        if loaded:
            ctx.probes["existing mesh file accepted"] += 1
        elif mode == "reuse" and "m.msh" in before:
            ctx.probes["left mesh file refused or unreadable"] += 1
        if end:
            nw, ng = same(want, end[2], loaded, what)
            check(bool(end[1]) == bool(ended) and nw == ng, "rerun-differs",
                  f"ends with {end[1]} after {ng} stages, uninterrupted with {ended} after {nw}: {what}")
            whole = set(files)
        if c is None:
            break
        if died != "finished":
            ctx.faults[f"crash at {died}"] += 1
            ctx.nontrivial = True
            ctx.state(died, len(acked), touched, [len(open(os.path.join(where, n), "rb").read()) for n in touched])
        else:
            ctx.probes["crash point after the end"] += 1
        torn = []
        for n in touched:
            t = c["torn"].get(n if n == "m.msh" or n in EXPORTS else "*")
            if n not in acked and t and not end and os.path.isfile(os.path.join(where, n)):
                disk.tear(os.path.join(where, n), t)
                ctx.faults[f"torn:{t['kind']}"] += 1
                torn.append([n, t["kind"]])
        story.append([mode, c["at"], died, torn])
        ctx.log(touched, torn)
        ctx.state(lib.digest(a), story)
