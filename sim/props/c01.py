"""C01 - parallel element construction equals serial construction."""
import functools
import inspect

from sim import lib, sched
from sim.lib import np
from sim.refmodel import RefMesh, check_space
from sim.runner import Violation, check, judging, must

ID = "C01"
TITLE = "parallel element construction equals serial construction"
QUICK, THOROUGH = 2000, 40000
RULE = ("distinct digest of (context-switch trail with source lines, fault sites, scenario) among "
        "runs with at least one context switch between workers or one fired fault")
REAL = ["spaces.discrete_space", "spaces.dof_map", "basis.*", "mesh.*", "joblib.Parallel dispatcher",
        "postprocess.projectors (end-to-end use of the built space)"]
STUB = ["OS thread scheduler (baton scheduler, line or bytecode granularity)",
        "multiprocessing.pool.ThreadPool below joblib (simulated FIFO pool)", "locks", "clock", "cpu_count"]
ASSUMPTIONS = ["preemption happens at Python line or bytecode boundaries of library code; basix, numpy "
               "and PETSc calls are atomic",
               "joblib's own bookkeeping is not preempted internally",
               "an injected failure stops a worker at a call of the library, as an exception"]
LISTS = ["faults"]


@lib.renamed
def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 3])
    mats = rng.choice([1, 1, 2])
    spec = lib.make_spec(rng, dim, materials=mats, interface=rng.random() < 0.4)
    fields = lib.gen_fields(rng, dim)
    tags, btags = lib.gen_tags(rng, dim, fields, mats)
    sc = {"spec": spec, "dim": dim, "fields": fields, "tags": tags, "btags": btags,
          "coef": lib.gen_coef(rng), "cpu": rng.choice([1, 2, 2, 3, 4, 8, 16]),
          "gran": rng.choice(["line", "line", "opcode"]),
          "plan": {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.003, 0.02, 0.1, 0.3])},
          "faults": [], "project": rng.random() < 0.5, "clock": []}
    if dim == 3 and any(t == 50 for _, t in spec["facets"]):
        sc["project"] = False  # tagged interior faces: see DESIGN.md, limits of C05
    n_el = len(spec["cells"])
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            sc["faults"].append({"el": rng.randrange(max(1, n_el)), "field": rng.choice(list(fields)),
                                 "kind": rng.choice(["memory", "oserror", "runtime"]),
                                 "when": rng.choice(["before", "after"])})
    if rng.random() < 0.3:
        sc["clock"] = [[rng.randint(1, 20), rng.choice([-3600.0, -1.0, 1e6])] for _ in range(2)]
    return sc


EXC = {"memory": MemoryError, "oserror": OSError, "runtime": RuntimeError}


class Flaky:
    """Stands for FiniteElement in discrete_space: fails at planned elements."""

    def __init__(self, real, plan, fired):
        self.real, self.plan, self.fired, self.n = real, plan, fired, 0

    def __call__(self, *a, **k):
        self.n += 1
        f = self.plan.pop(self.n - 1, None)
        if f and f["when"] == "before":
            self.fired.append(f["kind"])
            raise EXC[f["kind"]]("injected")
        e = self.real(*a, **k)
        if f:
            self.fired.append(f["kind"])
            raise EXC[f["kind"]]("injected")
        return e


def parallel(on):
    """Switches the construction the library's own way (parallel_run_q)."""
    import spaces.discrete_space as ds

    cls = ds.DiscreteSpace
    for n, f in list(vars(cls).items()):
        f = getattr(f, "_vsim_real", f)
        if callable(f) and "parallel_run_q" in inspect.signature(f).parameters:
            if on:
                def par(self, *a, _f=f, **k):
                    k["parallel_run_q"] = True
                    ba = inspect.signature(_f).bind_partial(self, *a)
                    if "parallel_run_q" in ba.arguments:
                        k.pop("parallel_run_q")
                        args = dict(ba.arguments, parallel_run_q=True)
                        args.pop("self")
                        return _f(self, **args, **k)
                    return _f(self, *a, **k)

                functools.update_wrapper(par, f)
                par._vsim_real = f
                setattr(cls, n, par)
            else:
                setattr(cls, n, f)
            return True
    return False


def reference(sc):
    m = lib.mesh_from_spec(sc["spec"], "ref.msh")
    with lib.quiet():
        sp = lib.make_space(m, sc["dim"], sc["fields"], sc["tags"], sc["btags"])
    return lib.describe_space(sp)


def run(sc, ctx):
    import spaces.discrete_space as ds

    dim, fields, tags, btags = sc["dim"], sc["fields"], sc["tags"], sc["btags"]
    ok, want = lib.in_child(reference, sc)[:2]
    if ok != "ok":
        raise Violation("serial-build", f"serial construction fails: {want}")
    mesh = lib.mesh_from_spec(sc["spec"])
    before = lib.digest(lib.describe_mesh(mesh))
    ref = RefMesh.of_spec(sc["spec"])
    ctx.probes["parallel path found"] += bool(parallel(True))
    w = sched.world
    w.on, w.cpu, w.clock_faults = True, sc["cpu"], [tuple(c) for c in sc["clock"]]
    real = ds.FiniteElement
    names = list(fields)
    fired, box = [], {}

    def build():
        with lib.quiet():
            sp = lib.make_space(mesh, dim, fields, tags, btags, build=False)
            box["sp"] = sp
            flaky = Flaky(real, {}, fired)
            per = {}
            for f in sc["faults"]:
                per.setdefault(f["field"], []).append(f)
            if per and attempt == 0:
                # element numbers count over the whole build, field after field
                off = 0
                for n in names:
                    ne = sum(1 for c, t in sc["spec"]["cells"] if t in tags[n])
                    for f in per.get(n, []):
                        flaky.plan[off + f["el"] % max(1, ne)] = f
                    off += ne
            ds.FiniteElement = flaky
            try:
                sp.build_structures({n: list(t) for n, t in tags.items()},
                                    {n: list(t) for n, t in btags.items()})
            finally:
                ds.FiniteElement = real
        return sp

    try:
        for attempt in range(2):
            plan = dict(sc["plan"]) if attempt == 0 else {"switches": []}
            s = sched.Sched(plan, gran=sc["gran"])
            n0 = len(fired)
            try:
                t = s.run([("main", build)])[0]
            except (sched.Deadlock, sched.StepBudget) as e:
                raise Violation("no-progress", f"parallel construction: {e}") from e
            if attempt == 0:
                ctx.absorb(s)
            ctx.ops += 1
            exc = t.exc
            ctx.log("build", attempt, type(exc).__name__, s.steps)
            if len(fired) > n0:
                for k in fired[n0:]:
                    ctx.faults[f"worker failure:{k}"] += 1
                ctx.nontrivial = True
                ctx.state("fired", fired, sc["faults"])
                check(exc is not None, "worker-failure-lost",
                      f"{fired[n0:]} raised in a worker, yet the construction returned normally")
                chain, e = [], exc
                while e is not None and len(chain) < 10:
                    chain.append(e)
                    e = e.__cause__ or e.__context__
                check(any(isinstance(e, tuple(EXC.values())) and "injected" in str(e) for e in chain),
                      "worker-failure-lost", f"{type(exc).__name__}: {exc} surfaced instead of the worker's error")
                continue
            check(exc is None, "unexpected-failure",
                  lambda: f"parallel construction raised {type(exc).__name__}: {exc}")
            with judging("space built in parallel"):
                got = lib.describe_space(t.result)
                check(got == want, "parallel-differs", lambda: lib.first_diff(want, got))
            check_space(t.result, mesh, ref, dim, fields, tags, btags)
            if attempt:
                ctx.probes["retry after worker failure"] += 1
            if sc["project"]:
                must("projection on the space built in parallel", project, sc, t.result, ctx)
            break
        else:
            raise Violation("no-recovery", "rebuilding after a worker failure did not succeed")
        check(lib.digest(lib.describe_mesh(mesh)) == before, "mesh-modified",
              "construction changed the mesh")
    finally:
        w.on = False
    ctx.faults["clock jump"] += sum(1 for n, _ in w.clock_faults if n <= w.clock_reads)
    ctx.faults["worker count"] += sc["cpu"] > 1
    ctx.state(lib.digest([sc["spec"], fields, tags]), sc["cpu"])
    ctx.nontrivial = ctx.nontrivial or ctx.switches > 0
    ctx.probes["preempted between elements"] += ctx.switches > 0


def project(sc, sp, ctx):
    funs = lib.polys(sc["dim"], sc["fields"], sc["coef"])
    with lib.quiet():
        alpha = lib.l2_projector(sp, funs)
        e = lib.l2_error(sc["dim"], sp, funs, alpha)
    ctx.probes["projection"] += 1
    check(np.all(np.isfinite(e)) and max(np.ravel(e)) < 1e-7, "projection",
          f"polynomials in the space are reproduced with error {e}")
