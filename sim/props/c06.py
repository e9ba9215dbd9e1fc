"""C06 - a mesh file is loaded exactly or refused."""
import errno
import os

from sim import lib, mshfile, sched
from sim.disk import disk, tear
from sim.refmodel import RefMesh, check_mesh, parse_msh41, simplices_of
from sim.runner import Violation, check, must

ID = "C06"
TITLE = "a mesh file is loaded exactly or refused"
QUICK, THOROUGH = 2600, 200000
RULE = ("distinct digest of (mesh files, sequence of file states, read faults, outcomes) among runs with at "
        "least one fault that took effect or a complete reference comparison")
REAL = ["mesh.mesh", "mesh.mesh_cell", "mesh.msh_file", "meshio reader", "real files"]
STUB = ["file opening and reading (errors and short reads below the buffers)",
        "allocation failures and interrupts (raised at a simulated step)", "file time stamps"]
ASSUMPTIONS = ["crash artefacts of one file are: cut, emptied, zero-filled ranges (text formats), missing",
               "the C library reports a device error to numpy.fromfile as end of file",
               "files are MSH 4.1 (ASCII) or 2.2 (ASCII, binary), with one physical tag per entity; the node order of "
               "a facet listed after a cell it bounds is not specified"]
LISTS = ["loads"]


def gen_layout(rng, dim):
    plain = rng.random() < 0.4
    lay = {"fmt": "41" if plain else rng.choice(["41", "41", "22", "22b"]), "seed": rng.randrange(1 << 30),
           "shuffle": False, "split": False, "extra": [], "untag": None, "names": False, "tags": "plain"}
    if not plain:
        lay.update(shuffle=rng.random() < 0.4, split=rng.random() < 0.4, names=rng.random() < 0.3,
                   tags=rng.choice(["plain", "gaps", "mixed"]),
                   extra=rng.sample(range(dim), rng.randint(0, min(2, dim))))
        if lay["fmt"] == "41" and rng.random() < 0.12:
            lay["untag"] = rng.choice(["some", "all"])
    return lay


def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 3, 3])
    mats = rng.choice([1, 1, 2])
    if rng.random() < (0.02 if tier == "quick" else 0.01):  # thousands of entities
        dim = rng.choice([1, 2, 2, 3])
        big = rng.random() < 0.1
        n = {1: rng.randint(900, 12000 if big else 2000), 2: rng.randint(28, 105 if big else 44),
             3: rng.randint(5, 12 if big else 8)}[dim]
        specs = [{"make": {"seed": rng.randrange(1 << 30), "dim": dim, "shape": [n] * dim, "mats": mats}}]
    else:
        specs = [lib.make_spec(rng, dim, materials=mats, interface=rng.random() < 0.4)]
        if rng.random() < 0.5:  # other tag values, as users choose them
            used = {t for _, t in specs[0]["cells"] + specs[0]["facets"]}
            new = dict(zip(sorted(used), rng.sample(range(1, 400), len(used))))
            for part in ("cells", "facets"):
                specs[0][part] = [[s, new[t]] for s, t in specs[0][part]]
        if rng.random() < 0.35:
            specs.append({"variant": {"kind": rng.choice(["retag", "points", "cell"]), "seed": rng.randrange(1 << 30)}})
        if rng.random() < 0.2:
            specs.append(lib.make_spec(rng, dim, materials=mats))
    lays = [gen_layout(rng, dim)]
    if rng.random() < 0.3:
        lays.append(gen_layout(rng, dim))
    sc = {"dim": dim, "specs": specs, "lays": lays, "same_name": rng.random() < 0.4,
          "stamp": rng.random() < 0.4, "loads": []}
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        sc["loads"].append(gen_load(rng, sc))
    return sc


def gen_load(rng, sc):
    r = rng.random()
    ld = {"spec": rng.randrange(len(sc["specs"])), "lay": rng.randrange(len(sc["lays"])), "tear": None, "disk": [],
          "dir": rng.choice(["", "", "sub", "abs"]), "late": rng.random() < 0.15, "alien": None, "act": None}
    if r < 0.4:
        kind = rng.choice(["cut", "cut", "cut", "zero", "zero", "empty", "gone"])
        at = rng.choice([rng.random(), rng.random(), 1 - rng.random() * 0.05])
        ld["tear"] = {"kind": kind, "at": at, "len": rng.choice([0.001, 0.01, 0.1, 0.5]),
                      "back": rng.choice([0, 0, 0, 1, 2, 3, 5, 8, 13, 14])}
    elif r < 0.7:
        for _ in range(rng.choice([1, 1, 2])):
            n = rng.choice([1, 2])
            ld["disk"].append(rng.choice([
                {"op": "read", "n": n, "at": rng.random()},
                {"op": "read", "n": n, "at": rng.random()},
                {"op": "short", "n": n, "max": rng.choice([1, 2, 7, 64, 513])},
                {"op": "open", "mode": "r", "n": n,
                 "errno": rng.choice([errno.EACCES, errno.EMFILE, errno.EIO])}]))
    elif r < 0.8:
        ld["act"] = {"step": int(2 ** rng.uniform(0, 12)), "kind": rng.choice(["memory", "interrupt"]),
                     "again": rng.random() < 0.5}
    elif r < 0.86:
        ld["alien"] = rng.choice(["quad", "line3", "triangle6"])
    return ld


def run(sc, ctx):
    specs = []
    for s in sc["specs"]:
        specs.append(mshfile.variant(specs[0], s["variant"]) if "variant" in s else mshfile.resolve(s))
    if len(specs[0]["points"]) < 200:  # the writer of the harness against the reader of the harness
        pts, simp = parse_msh41(lib.to_msh41(specs[0]))
        assert [list(p) for p in pts] == [list(map(float, p)) for p in specs[0]["points"]]
        assert sorted(map(repr, simp)) == sorted(repr((tuple(a), b)) for a, b in simplices_of(specs[0]))
    loads = list(sc["loads"])
    for k in range(len(specs)):
        loads.append({"spec": k, "lay": 0, "tear": None, "disk": [], "dir": "", "late": False, "alien": None,
                      "act": None})
    os.makedirs("sub", exist_ok=True)
    refs, kept, late = {}, [], []
    stamp = 1_700_000_000
    for k, ld in enumerate(loads):
        spec, lay = specs[ld["spec"]], sc["lays"][ld["lay"]]
        key = (ld["spec"], ld["lay"])
        if key not in refs:
            refs[key] = RefMesh(spec["dim"], spec["points"], mshfile.simplices(mshfile.blocks_of(spec, lay)))
        alien = mshfile.alien_block(spec, ld["alien"]) if ld["alien"] and lay["fmt"] != "22b" else None
        data = mshfile.content(spec, lay, alien)
        ctx.state(lib.digest(data))
        base = "m.msh" if sc["same_name"] else f"m{k}.msh"
        here = os.getcwd()
        path = os.path.join(here, "sub", base) if ld["dir"] == "sub" else os.path.join(here, base)
        lib.in_file(path, data)
        whole = alien is None and lay["untag"] is None
        if sc["stamp"]:
            os.utime(path, (stamp, stamp))
            ctx.faults["time stamp kept"] += 1
        if ld["tear"] and not (ld["tear"]["kind"] == "zero" and lay["fmt"] == "22b"):
            t = dict(ld["tear"])
            if t["kind"] == "cut" and t["back"]:
                t["at"] = (len(data) - t["back"] + 0.5) / len(data)
            if t["kind"] == "gone":
                os.unlink(path)
            else:
                left = tear(path, t)
                ctx.state(len(left), t["kind"])
                if sc["stamp"]:
                    os.utime(path, (stamp, stamp))
            ctx.faults["file " + t["kind"]] += 1
            ctx.nontrivial = True
            whole = False
        plan = []
        for f in ld["disk"]:
            f = dict(f)
            if f["op"] == "read":
                f["at"] = int(f["at"] * len(data))
            plan.append(f)
        n0 = sum(ctx.faults.values())
        exc = m = None
        box, built = {}, not ld["late"]

        def load():
            with lib.quiet():
                if ld["dir"] == "sub":
                    os.chdir("sub")
                try:
                    box["m"] = lib.Mesh(dimension=sc["dim"], file_name=path if ld["dir"] == "abs" else base)
                    if not ld["late"]:
                        box["m"].build_conformal_mesh()
                finally:
                    os.chdir(here)
            return box["m"]

        act = ld["act"]
        lines = sched.Lines(act["step"] if act else None, (lambda: _raise(act["kind"])) if act else None)
        with disk(plan, ctx.tmp, ctx.faults):
            try:
                m = lines.run(load) if act else load()
            except (Exception, SystemExit, KeyboardInterrupt) as e:
                exc = e
        hit = act is not None and lines.where is not None
        if hit:
            ctx.faults["allocation failed" if act["kind"] == "memory" else "interrupted"] += 1
            if exc is not None and act["again"] and "m" in box:  # the object exists: its build can be repeated
                m, exc, built = box["m"], None, True
                ctx.probes["build repeated on the same object"] += 1
                try:
                    with lib.quiet():
                        m.build_conformal_mesh()
                except Exception as e:  # noqa: BLE001
                    check(not whole, "refused-good-file",
                          lambda: f"load {k}, build repeated after {act}: {type(e).__name__}: {e}")
                    m, exc = None, e
        fired = sum(ctx.faults.values()) > n0
        ctx.ops += 1
        ctx.log("load", k, type(exc).__name__, fired)
        ctx.state(type(exc).__name__, fired, [(f["op"], f["n"]) for f in plan], lines.where)
        ctx.nontrivial = ctx.nontrivial or fired or m is not None
        what = (f"load {k} after {ld['tear'] or plan or act or ld['alien']}"
                if (ld["tear"] or plan or act or ld["alien"]) else f"load {k} from an intact file")
        if m is not None:
            if not built:
                late.append((m, refs[key], what, whole))
                continue
            # whatever happened below: a mesh that was delivered is the mesh of the file
            compare(m, refs[key], what, ctx)
            kept.append((m, refs[key], what))
            if not whole:
                ctx.probes["torn file accepted, content intact"] += 1
        else:
            hard = any(f["op"] != "short" for f in plan) or hit
            check(not whole or hard, "refused-good-file",
                  lambda: f"{what} (faults {plan}): {type(exc).__name__}: {exc}")
            ctx.probes["refused"] += 1
    for m, ref, what, whole in late:  # meshes read earlier, built now
        try:
            with lib.quiet():
                m.build_conformal_mesh()
        except Exception as e:  # noqa: BLE001
            check(not whole, "refused-good-file", lambda: f"{what}, built late: {type(e).__name__}: {e}")
            continue
        compare(m, ref, what + ", built late", ctx)
    if len(kept) > 1:
        for m, ref, what in kept[:-1]:
            compare(m, ref, what + ", looked at again after the other loads", ctx)


def _raise(kind):
    raise MemoryError("injected") if kind == "memory" else KeyboardInterrupt()


def compare(m, ref, what, ctx):
    try:
        check_mesh(m, ref)
    except Violation as v:
        raise Violation("wrong-mesh", f"{what}: accepted, {v}") from None
    ctx.probes["mesh compared"] += 1


def simplify(sc):
    if sc["stamp"]:
        yield dict(sc, stamp=False)
    for k, s in enumerate(sc["specs"]):
        if "make" in s and min(s["make"]["shape"]) > 2:
            for f in (0.5, 0.8, 0.95):
                mk = dict(s["make"], shape=[max(2, int(n * f)) for n in s["make"]["shape"]])
                yield dict(sc, specs=[dict(s, make=mk) if j == k else t for j, t in enumerate(sc["specs"])])
    for k, lay in enumerate(sc["lays"]):
        for key, v in (("fmt", "41"), ("shuffle", False), ("split", False), ("extra", []), ("untag", None),
                       ("names", False), ("tags", "plain")):
            if lay[key] != v:
                yield dict(sc, lays=[dict(q, **{key: v}) if j == k else q for j, q in enumerate(sc["lays"])])
