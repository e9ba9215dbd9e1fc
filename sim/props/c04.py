"""C04 - threads sharing a mesh or a built space get the results they get alone."""
from sim import lib, sched
from sim.lib import np
from sim.refmodel import RefMesh, check_space
from sim.runner import Violation, check, judging

ID = "C04"
TITLE = "threads sharing a mesh or a built space get the results they get alone"
QUICK, THOROUGH = 1400, 30000
RULE = ("distinct digest of (context-switch trail with source lines, work of every thread) among runs with at "
        "least one context switch")
REAL = ["mesh", "spaces", "basis", "geometry.mapping", "postprocess.projectors",
        "postprocess.l2_error_post_processor", "postprocess.solution_norms_post_processor",
        "mesh.mesh_metrics", "assembly.SequentialAssembler", "PETSc and MUMPS"]
STUB = ["OS thread scheduler (baton scheduler, line or bytecode granularity)", "clock"]
ASSUMPTIONS = ["preemption happens at Python line or bytecode boundaries of library code; basix, numpy "
               "and PETSc calls are atomic",
               "weak forms using automatic differentiation are excluded: auto_diff exchanges numpy functions "
               "for the whole process while it evaluates",
               "threads own what they write: coefficient vectors, matrices, functions, spaces they build"]
LISTS = ["threads.0", "threads.1", "threads.2"]

KINDS = ("build", "build", "index", "basis", "project", "project", "error", "norm", "metrics", "fail", "assemble")


def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 2, 3])
    mats = rng.choice([1, 2])
    shape = {1: (rng.randint(2, 5),), 2: (rng.randint(1, 2), rng.randint(1, 2)), 3: (1, 1, 1)}[dim]
    spec = lib.make_spec(rng, dim, shape=shape, materials=mats)
    fields = lib.gen_fields(rng, dim, nmax=2, kcap=2)
    tags, btags = lib.gen_tags(rng, dim, fields, mats)
    threads = []
    # focused runs: every thread repeats the same few read-only operations, so that any state two calls share is
    # contended over and over
    focus = rng.choice([("basis",), ("error",), ("norm",), ("index",), ("basis", "error"), ("project", "error"),
                        ("basis", "project"), ("error", "norm")]) if rng.random() < 0.4 else None
    for _ in range(rng.choice([2, 2, 3])):
        ops = []
        for _ in range(rng.choice([2, 2, 3]) if focus else rng.choice([1, 1, 2])):
            k = rng.choice(focus or KINDS)
            op = {"op": k, "coef": lib.gen_coef(rng)}
            if k == "build":
                op["fields"] = lib.gen_fields(rng, dim, nmax=2, kcap=2)
                op["tags"], op["btags"] = lib.gen_tags(rng, dim, op["fields"], mats)
            elif k == "project":
                op["sym"] = rng.random() < 0.6
            elif k == "basis":
                op["pts"] = rng.choice([None, rng.randrange(1 << 30), rng.randrange(1 << 30)])
            elif k == "fail":
                op["call"] = rng.randint(1, 4)
            ops.append(op)
        threads.append(ops)
    gran = rng.choice(["line", "line", "line", "opcode"])
    return {"dim": dim, "spec": spec, "fields": fields, "tags": tags, "btags": btags, "threads": threads,
            "shift": rng.choice([0, 0, 5]), "gran": gran,
            "plan": {"seed": rng.randrange(1 << 30),
                     "rate": rng.choice([0.03, 0.1, 0.3] if focus else [0.001, 0.01, 0.05, 0.3]) * (0.3 if gran == "opcode" else 1)},
            "clock": [[rng.randint(1, 10), rng.choice([-3600.0, 1e6])]] if rng.random() < 0.2 else []}


def work(sc, op, mesh, sp):
    """One operation of a thread; everything it returns is plain data."""
    dim = sc["dim"]
    funs = lib.polys(dim, sc["fields"], op["coef"])
    k = op["op"]
    if k == "build":
        q = lib.make_space(mesh, dim, op["fields"], op["tags"], op["btags"])
        return ("space", q)
    if k == "index":
        n = len(next(iter(sp.discrete_spaces.values())).elements)
        nb = min([len(s.bc_elements) for s in sp.discrete_spaces.values() if len(s.bc_elements)] or [0])
        return ([[int(v) for v in sp.destination_indexes(i)] for i in range(n)],
                [[int(v) for v in sp.bc_destination_indexes(i)] for i in range(nb)])
    if k == "basis":
        out = []
        pts = sp.quadrature[dim][0]
        if op.get("pts") is not None:
            r = np.random.default_rng(op["pts"])
            pts = r.uniform(0.0, 1.0 / dim, (int(r.integers(1, 5)), dim))
        for s in sp.discrete_spaces.values():
            for e in s.elements:
                x, J, det, inv = e.evaluate_mapping(pts)
                out.append([np.array(x), np.array(J), np.array(det), np.array(inv),
                            np.array(e.evaluate_basis(pts, J, det, inv))])
        return lib.digest(out)
    if k == "project":
        a = np.array(lib.l2_projector(sp, funs, symmetric_solver_q=op["sym"]))
        return [float(v).hex() for v in a]
    if k == "fail":
        calls = [0]
        n0 = next(iter(funs))

        def bad(x, y, z, f=funs[n0]):
            calls[0] += 1
            if calls[0] == op["call"]:
                raise ValueError("user function failed")
            return f(x, y, z)

        try:
            a = np.array(lib.l2_projector(sp, dict(funs, **{n0: bad})))
            return [float(v).hex() for v in a]
        except ValueError as e:
            return ["failed", str(e)]
    if k == "error":
        a = np.sin(np.arange(sp.n_dof + sc["shift"]) * 1.7)
        return [float(v).hex() for v in np.ravel(lib.l2_error(dim, sp, funs, a))]
    if k == "norm":
        one = {n: f for n, f in funs.items()}
        return [float(v).hex() for v in np.ravel(lib.norms.l2_norm(dim, sp, one))]
    if k == "metrics":
        from mesh.mesh_metrics import mesh_size
        from mesh.mesh_topology import MeshTopology

        t = MeshTopology(mesh, dim)
        t.build_data()
        return ([float(v).hex() for v in mesh_size(mesh)],
                [[int(v) for v in t.entities_by_dimension(d)] for d in range(dim + 1)])
    from weak_forms.l2_projector_weak_form import L2ProjectorWeakForm

    n = sp.n_dof + sc["shift"]
    wf = L2ProjectorWeakForm(sp)
    wf.functions = funs
    A, r = lib.aij(n), np.zeros(n)
    A.setUp()
    asm = lib.SequentialAssembler(sp, A, r)
    asm.form_to_input_list = {"f": ["form", range(len(next(iter(sp.discrete_spaces.values())).elements)),
                                    wf, np.zeros(n)]}
    asm.scatter_forms(measure_time_q=True)
    return ([float(v).hex() for v in r], lib.digest(lib.to_dense(A)))


def plain(v):
    if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "space":
        return lib.json.loads(lib.json.dumps(lib.describe_space(v[1])))
    return lib.json.loads(lib.json.dumps(v))


def shared(sc, name):
    mesh = lib.mesh_from_spec(sc["spec"], name)
    sp = lib.make_space(mesh, sc["dim"], sc["fields"], sc["tags"], sc["btags"])
    sp.dof_shift = sc["shift"]
    return mesh, sp


def alone(sc, op):
    with lib.quiet():
        mesh, sp = shared(sc, "ref.msh")
        try:
            return ["ok", plain(work(sc, op, mesh, sp))]
        except Exception as e:  # noqa: BLE001
            return ["exc", type(e).__name__]


def run(sc, ctx):
    dim = sc["dim"]
    with lib.quiet():
        mesh, sp = shared(sc, "m.msh")
    d_mesh, d_sp = lib.describe_mesh(mesh), lib.describe_space(sp)
    want = [[lib.in_child(alone, sc, op) for op in ops] for ops in sc["threads"]]
    ref = RefMesh.of_spec(sc["spec"])
    w = sched.world
    w.on, w.clock_faults = True, [tuple(c) for c in sc["clock"]]
    outs = [[] for _ in sc["threads"]]

    def thread(k):
        def body():
            for op in sc["threads"][k]:
                try:
                    outs[k].append(("ok", work(sc, op, mesh, sp)))
                except Exception as e:  # noqa: BLE001
                    outs[k].append(("exc", type(e).__name__, str(e)))
        return body

    s = sched.Sched(dict(sc["plan"]), gran=sc["gran"], max_steps=6_000_000)
    try:
        with lib.quiet():
            tasks = s.run([(f"t{k}", thread(k)) for k in range(len(sc["threads"]))])
    except (sched.Deadlock, sched.StepBudget) as e:
        raise Violation("no-progress", f"threads do not finish: {e}") from e
    finally:
        w.on = False
    ctx.absorb(s)
    ctx.state(lib.digest([sc["spec"], sc["fields"], sc["threads"]]))
    ctx.nontrivial = ctx.switches > 0
    for k, t in enumerate(tasks):
        check(t.exc is None, "thread-died", lambda: f"thread {k}: {type(t.exc).__name__}: {t.exc}")
        for j, (op, got) in enumerate(zip(sc["threads"][k], outs[k])):
            ctx.ops += 1
            ok, exp = want[k][j][:2]
            check(ok == "ok", "alone", lambda: f"{op['op']} alone: {exp}")
            check(got[0] == exp[0], "differs-from-alone",
                  lambda: f"thread {k}, {op['op']}: {got[0]} {got[1:] if got[0] == 'exc' else ''}; alone {exp[0]} "
                  f"{exp[1] if exp[0] == 'exc' else ''}")
            ctx.log(k, j, op["op"], got[0])
            if got[0] == "exc":
                check(got[1] == exp[1], "differs-from-alone", f"thread {k}, {op['op']}: raised {got[1]}, alone {exp[1]}")
                continue
            with judging(f"result of {op['op']} in thread {k}"):
                pg = plain(got[1])
                check(pg == exp[1], "differs-from-alone",
                      lambda: f"thread {k}, {op['op']}: {lib.first_diff(exp[1], pg)}")
            if op["op"] == "build":
                check_space(got[1][1], mesh, ref, dim, op["fields"], op["tags"], op["btags"])
            ctx.probes[f"compared: {op['op']}"] += 1
    ctx.faults["user function failed in a thread"] += sum(
        1 for k in range(len(outs)) for o in outs[k] if o[0] == "ok" and isinstance(o[1], list)
        and o[1][:1] == ["failed"])
    with judging("shared objects afterwards"):
        d = lib.describe_mesh(mesh)
        check(d == d_mesh, "mesh-modified", lambda: lib.first_diff(d_mesh, d))
        d2 = lib.describe_space(sp)
        check(d2 == d_sp, "space-modified", lambda: lib.first_diff(d_sp, d2))
    ctx.faults["clock jump"] += sum(1 for n, _ in w.clock_faults if n <= w.clock_reads)
    ctx.faults["preemption"] += ctx.switches


def simplify(sc):
    if len(sc["threads"]) > 2:
        for k in range(len(sc["threads"])):
            yield dict(sc, threads=[t for j, t in enumerate(sc["threads"]) if j != k])
    if sc["clock"]:
        yield dict(sc, clock=[])
    if sc["shift"]:
        yield dict(sc, shift=0)
