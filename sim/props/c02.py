"""C02 - a space's structures depend only on its last completed build."""
from sim import lib, sched
from sim.refmodel import RefMesh, check_space
from sim.runner import Violation, check, judging, must

ID = "C02"
TITLE = "a space's structures depend only on its last completed build"
QUICK, THOROUGH = 2000, 100000
RULE = ("distinct digest of (mesh, history of builds with tags, abort places and outcomes) among runs in which "
        "a completed build was compared with a fresh space and with the reference numbering")
REAL = ["spaces.product_space", "spaces.discrete_space", "spaces.dof_map", "mesh.mesh_topology", "basis", "mesh"]
STUB = ["allocation failures, I/O errors and interrupts raised at any simulated step of a build",
        "failing element constructors", "clock"]
ASSUMPTIONS = ["faults strike at Python line boundaries of library code",
               "all fields of one product space cover the same cells (as the library's common element index needs)"]
LISTS = ["ops"]


def gen_build(rng, sc, s):
    fields, dim = sc["spaces"][s]["fields"], sc["spaces"][s]["dim"]
    if dim == sc["dim"]:
        tags, btags = lib.gen_tags(rng, dim, fields, sc["mats"])
        if rng.random() < 0.06:
            tags = {n: t + [77] for n, t in tags.items()}  # a tag the mesh does not have
    else:
        sides = [2 + 2 * d + q for d in range(sc["dim"]) for q in (0, 1)]
        pool = rng.sample(sides, rng.randint(1, len(sides)))
        tags = {n: rng.sample(pool, len(pool)) for n in fields}
        btags = {n: [] for n in fields} if rng.random() < 0.5 else {}
    op = {"op": "build", "sp": s, "tags": tags, "btags": btags, "disc": [], "abort": None}
    if rng.random() < 0.2:
        op["disc"] = rng.sample(list(fields), rng.randint(1, len(fields)))
    return op


@lib.renamed
def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 3, 3])
    mats = rng.choice([1, 2, 2])
    sc = {"dim": dim, "mats": mats, "spaces": [], "ops": [],
          "spec": lib.make_spec(rng, dim, materials=mats, interface=rng.random() < 0.4), "clock": []}
    for s in range(rng.choice([1, 1, 2])):
        d = dim - 1 if dim > 1 and s and rng.random() < 0.4 else dim
        fields = lib.gen_fields(rng, d, nmax=3)
        if d < dim:
            for f in fields.values():
                f["fam"], f["k"] = "Lagrange", max(f["k"], 1)
        sc["spaces"].append({"dim": d, "fields": fields})
    for _ in range(rng.randint(1, 5)):
        s = rng.randrange(len(sc["spaces"]))
        r = rng.random()
        if r < 0.1:
            sc["ops"].append({"op": "shift", "sp": s, "value": rng.choice([0, 3, 50])})
            continue
        op = gen_build(rng, sc, s)
        if r < 0.45:
            op["abort"] = lib.aim(rng, {"how": "step", "step": int(2 ** rng.uniform(0, 13)),
                                        "kind": rng.choice(["memory", "interrupt", "oserror"])})
        elif r < 0.6:
            op["abort"] = {"how": "element", "n": int(2 ** rng.uniform(0, 6)),
                           "kind": rng.choice(["memory", "runtime"])}
        elif r < 0.7:
            op["abort"] = {"how": "tags"}
        sc["ops"].append(op)
    for s in range(len(sc["spaces"])):
        sc["ops"].append(gen_build(rng, sc, s))
    if rng.random() < 0.2:
        sc["clock"] = [[rng.randint(1, 10), rng.choice([-3600.0, 1e6])]]
    return sc


EXC = {"memory": MemoryError, "runtime": RuntimeError}


def fresh(sc, s, fields, tags, btags, shift):
    mesh = lib.mesh_from_spec(sc["spec"], "ref.msh")
    with lib.quiet():
        sp = lib.make_space(mesh, sc["spaces"][s]["dim"], fields, tags, btags)
    sp.dof_shift = shift
    return lib.describe_space(sp)


class BadTags:
    """A tag collection that fails while the build walks it."""

    def __len__(self):
        return 1

    def __iter__(self):
        raise RuntimeError("injected: tags")

    def __contains__(self, x):
        raise RuntimeError("injected: tags")


def run(sc, ctx):
    import spaces.discrete_space as ds

    mesh = lib.mesh_from_spec(sc["spec"])
    d0 = lib.digest(lib.describe_mesh(mesh))
    ref = RefMesh.of_spec(sc["spec"])
    w = sched.world
    w.on, w.clock_faults = True, [tuple(c) for c in sc["clock"]]
    sps, disc, shift, aborted, built = [], [], [], [], []
    with lib.quiet():
        for q in sc["spaces"]:
            sps.append(lib.make_space(mesh, q["dim"], q["fields"], {}, build=False))
            disc.append({n: f["disc"] for n, f in q["fields"].items()})
            shift.append(0)
            aborted.append(False)
            built.append(None)
    real = getattr(ds, "FiniteElement", None)
    try:
        for k, op in enumerate(sc["ops"]):
            s = op["sp"]
            sp, q = sps[s], sc["spaces"][s]
            ctx.ops += 1
            built[s] = None
            if op["op"] == "shift":
                sp.dof_shift = shift[s] = op["value"]
                ctx.state("shift", op["value"])
                continue
            if op["disc"]:
                sp.make_subspaces_discontinuous({n: True for n in op["disc"]})
                disc[s].update({n: True for n in op["disc"]})
            ab, hit, faults = op["abort"] or {"how": None}, [], []
            tags = {n: list(t) for n, t in op["tags"].items()}
            btags = {n: list(t) for n, t in op["btags"].items()}
            if ab["how"] == "step":
                faults = [dict(ab, task=0)]
            elif ab["how"] == "element" and real is not None:
                count = [0]

                def flaky(*a, **kw):
                    count[0] += 1
                    if count[0] == ab["n"]:
                        hit.append("element")
                        raise EXC[ab["kind"]]("injected: element")
                    return real(*a, **kw)

                ds.FiniteElement = flaky
            elif ab["how"] == "tags":
                btags[list(q["fields"])[-1]] = BadTags()

            def build():
                with lib.quiet():
                    sp.build_structures(tags, btags)

            sim = sched.Sched({"switches": []}, faults=faults)
            try:
                t = sim.run([("main", build)])[0]
            finally:
                if real is not None:
                    ds.FiniteElement = real
            ctx.absorb(sim)
            hit += [x for x, _ in sim.fired]
            if ab["how"] == "tags" and t.exc is not None:
                hit.append("tags")
            for x in hit:
                if x in ("element", "tags"):
                    ctx.faults[f"build:{x}"] += 1
            ctx.log("build", k, s, type(t.exc).__name__, hit)
            ctx.state(s, op, type(t.exc).__name__)
            check(lib.digest(lib.describe_mesh(mesh)) == d0, "mesh-modified", f"build {k} changed the mesh")
            unknown = any(77 in x for x in op["tags"].values())
            if t.exc is not None:
                check(hit or unknown, "unexpected-failure",
                      lambda: f"build {k} ({op}) raised {type(t.exc).__name__}: {t.exc}")
                aborted[s] = True
                ctx.probes["build aborted"] += 1
                continue
            if ab["how"] == "tags":  # a build that never looked at the bad tags proves nothing
                aborted[s] = True
                continue
            check("element" not in hit, "failure-lost", f"an element failed in build {k}, yet it returned")
            if hit:
                # an asynchronous error that code below swallowed: nothing to compare with
                aborted[s] = True
                continue
            fields = {n: dict(f, disc=disc[s][n]) for n, f in q["fields"].items()}
            ok, want = lib.in_child(fresh, sc, s, fields, op["tags"], op["btags"], shift[s])[:2]
            check(ok == "ok", "fresh-build", lambda: f"fresh build with the arguments of build {k} fails: {want}")
            with judging(f"space after build {k}"):
                got = lib.describe_space(sp)
                check(got == want, "history-dependent",
                      lambda: f"build {k} after {[(o['op'], bool(o.get('abort'))) for o in sc['ops'][:k]]}: "
                      f"{lib.first_diff(want, got)}")
            tg = {n: [x for x in t if x != 77] for n, t in op["tags"].items()}
            check_space(sp, mesh, ref, q["dim"], fields, tg, op["btags"])
            for s2 in range(len(sps)):  # other spaces are not touched
                if s2 != s and built[s2] is not None:
                    check(lib.digest(lib.describe_space(sps[s2])) == built[s2], "other-space-modified",
                          f"build {k} of space {s} changed space {s2}")
                    ctx.probes["other space unchanged"] += 1
            built[s] = lib.digest(got)
            ctx.nontrivial = True
            ctx.probes["build compared"] += 1
            ctx.probes["build after an aborted one"] += aborted[s]
            aborted[s] = False
        # spaces whose last build was aborted were rebuilt at the end of the history
    finally:
        w.on = False
    ctx.faults["clock jump"] += sum(1 for n, _ in w.clock_faults if n <= w.clock_reads)


def simplify(sc):
    if sc["clock"]:
        yield dict(sc, clock=[])
    if len(sc["spaces"]) == 2:
        keep = {o["sp"] for o in sc["ops"]}
        if keep == {0}:
            yield dict(sc, spaces=sc["spaces"][:1])
    for s, q in enumerate(sc["spaces"]):
        if len(q["fields"]) > 1:
            for n in q["fields"]:
                c = lib.json.loads(lib.json.dumps(sc))
                del c["spaces"][s]["fields"][n]
                for o in c["ops"]:
                    if o["sp"] == s and o["op"] == "build":
                        o["tags"].pop(n, None)
                        o["btags"].pop(n, None)
                        o["disc"] = [x for x in o["disc"] if x != n]
                yield c
