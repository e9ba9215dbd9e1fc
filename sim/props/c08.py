"""C08 - mesh exports are complete and exact, or the export fails."""
import errno
import os
import random

import numpy as np

from sim import lib, mshfile, sched, vtk
from sim.disk import disk
from sim.runner import Violation, check, judging, must

ID = "C08"
TITLE = "Mesh exports are complete and exact, or the export fails"
QUICK, THOROUGH = 1800, 120000
RULE = ("distinct digest of (mesh, sequence of exports, disk trouble, exceptions, interleavings, outcomes) "
        "among runs with at least one export compared in full")
REAL = ["mesh.mesh", "mesh.mesh_cell", "meshio writer", "numpy native file writing", "real files"]
STUB = ["opening files (errors)", "disk space (file size limit of the process)", "allocation failures and "
        "interrupts (raised at a simulated step)", "thread scheduling"]
ASSUMPTIONS = ["a full disk cuts a write short and fails the following ones",
               "meshes carry at least one physical tag, as meshers write them",
               "exports running at the same time go to different files",
               "colouring (coloring_mesh_q) is outside: it fails on every mesh"]
LISTS = ["ops"]


def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 3])
    meshes = []
    for _ in range(rng.choice([1, 1, 2])):
        mats = rng.choice([1, 1, 2])
        if rng.random() < 0.03:  # hundreds to thousands of entities
            n = {1: rng.randint(200, 1200), 2: rng.randint(12, 34), 3: rng.randint(3, 6)}[dim]
            spec = {"make": {"seed": rng.randrange(1 << 30), "dim": dim, "shape": [n] * dim, "mats": mats}}
        else:
            spec = lib.make_spec(rng, dim, materials=mats, interface=rng.random() < 0.4)
            if rng.random() < 0.5:
                used = sorted({t for _, t in spec["cells"] + spec["facets"]})
                new = dict(zip(used, rng.sample(range(1, rng.choice([100, 3000, 70000, (1 << 31) - 2000])), len(used))))
                for part in ("cells", "facets"):
                    spec[part] = [[s, new[t]] for s, t in spec[part]]
        meshes.append({"spec": spec, "aff": lib.gen_affine(rng, dim),
                       "lay": {"fmt": "41", "seed": rng.randrange(1 << 30), "shuffle": rng.random() < 0.2,
                               "split": rng.random() < 0.3, "untag": None, "names": False, "tags": "plain",
                               "extra": rng.sample(range(dim), rng.randint(0, min(2, dim)))}})
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        kinds = ["data", "vtk", "vtk"] + (["conf"] if dim == 2 and rng.random() < 0.5 else [])
        o = {"kind": rng.choice(kinds), "mesh": rng.randrange(len(meshes)), "name": rng.choice([0, 0, 1, None]),
             "disk": []}
        r = rng.random()
        if r < 0.35:
            n = rng.choice([1, 1, 2])
            o["disk"] = [rng.choice([
                {"op": "full", "n": n, "at": rng.choice([rng.random(), 1 - rng.random() * 0.05])},
                {"op": "full", "n": n, "at": rng.random()},
                {"op": "open", "mode": "w", "n": n,
                 "errno": rng.choice([errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS])}])]
        elif r < 0.42:
            o["pre"] = rng.choice(["dir", "nodir"])
        elif r < 0.52:
            o["pre"] = "junk"
        elif r < 0.64:
            o["async"] = lib.aim(rng, {"step": int(2 ** rng.uniform(0, 12)), "kind": rng.choice(["memory", "interrupt"])})
        elif r < 0.76:  # a second export at the same time, to files of its own
            o["second"] = {"kind": rng.choice(["data", "vtk"]), "mesh": rng.randrange(len(meshes))}
            o["plan"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.003, 0.03, 0.3])}
        elif r < 0.92:
            o["edit"] = {"kind": rng.choice(["move", "retag", "flip", "append", "scale"]), "seed": rng.randrange(1 << 30)}
        if rng.random() < (0.7 if "make" in meshes[o["mesh"]]["spec"] else 0.25):  # sizes next to those of buffers and tables
            o["edit"] = {"kind": "pad", "seed": rng.randrange(1 << 30)}
        ops.append(o)
    return {"dim": dim, "meshes": meshes, "ops": ops}


def load(sc, k, name):
    ms = sc["meshes"][k]
    spec = lib.map_spec(mshfile.resolve(ms["spec"]), ms["aff"])
    lib.in_file(name, mshfile.content(spec, ms["lay"]))
    with lib.quiet():
        m = lib.Mesh(dimension=spec["dim"], file_name=name)
        m.build_conformal_mesh()
    return m


def edit(mesh, e):
    """What users do to a mesh between exports."""
    r = random.Random(e["seed"])
    kind = e["kind"]
    tops = [c for c in mesh.cells if c.dimension == mesh.dimension and c.material_id is not None]
    if kind == "move":
        mesh.points[:, 0] += 0.125 * (1 + np.abs(mesh.points).max())
    elif kind == "scale":
        mesh.points[r.randrange(len(mesh.points))] *= r.choice([1e-300, 1e15, -0.0, 1 / 3])
    elif kind == "retag":
        c = r.choice([c for c in mesh.cells if c.material_id is not None])
        c.material_id = c.material_id + r.choice([1, 1000])
    elif kind == "flip":
        c = r.choice(tops)
        c.node_tags = np.array(c.node_tags)[::-1].copy()
    else:  # a new point with its vertex cell
        k = r.choice([1, 2])
        if kind == "pad":
            base = r.choice(["points", "cells"])
            have = len(mesh.points if base == "points" else mesh.cells)
            sizes = [q + d for q in (64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096) for d in (-1, 0, 1)]
            k = r.choice([q - have for q in sizes if q > have][:12] or [1])
        n0, c0 = mesh.max_node_tag(), mesh.max_cell_id()
        mesh.append_points(np.array([[r.random(), r.random(), r.random()] for _ in range(k)]))
        new = []
        for q in range(k):
            c = mesh.create_cell(0, np.array([n0 + q]), c0 + q, r.choice([None, 77, 4000]))
            c.set_sub_cells_ids(0, np.array([c0 + q]))
            new.append(c)
        mesh.append_cells(np.array(new))


CONF = ["conf_geometric_mesh_2d.vtk", "conf_geometric_mesh_1d.vtk", "conf_geometric_mesh_0d.vtk"]


def files(kind, name, mesh):
    """File name argument and the files an export has to write."""
    if kind == "conf":
        return None, list(CONF)
    if kind == "data":
        arg = name and name + ".txt"
        return arg, [arg or "gmesh.txt"]
    dims = sorted({c.dimension for c in mesh.cells if c.material_id is not None}, reverse=True)
    return name, [f"{name or 'geometric_mesh'}_{d}d.vtk" for d in dims]


def export(mesh, kind, arg):
    with lib.quiet():
        if kind == "conf":
            mesh.conformal_mesh_write_vtk()
        elif kind == "data":
            mesh.write_data(arg) if arg else mesh.write_data()
        else:
            mesh.write_vtk(arg) if arg else mesh.write_vtk()


def fresh(sc, k, edits, kind):
    """The files a first export of this mesh writes in a process of its own."""
    mesh = load(sc, k, "ref.msh")
    for e in edits:
        edit(mesh, e)
    arg, names = files(kind, "reference", mesh)
    for n in names:
        if os.path.exists(n):
            os.rename(n, n + ".kept")
    export(mesh, kind, arg)
    out = []
    for n in names:
        with open(n, "rb") as f:
            out.append(f.read())
        os.unlink(n)
        if os.path.exists(n + ".kept"):
            os.rename(n + ".kept", n)
    return out


def numbers(line, conv=int):
    return [conv(v) for v in line.split(":", 1)[1].split()]


def check_data(path, mesh):
    with open(path) as f:
        text = f.read()
    lines = [ln.strip() for ln in text.split("\n")]
    k = lines.index("Cell data")
    head, body = lines[:k], lines[k + 1:]
    pts = [ln for ln in head if ln.startswith("tag:")]
    check(len(pts) == len(mesh.points) and
          [int(ln.split()[1]) for ln in pts] == list(range(len(mesh.points))), "wrong-points",
          lambda: f"{path}: {len(pts)} points listed, mesh has {len(mesh.points)}")
    for ln, p in zip(pts, mesh.points):
        got = [float(v) for v in ln.split()[2:]]
        check(got == [float(v) for v in p], "wrong-points", lambda: f"{path}: '{ln}' is point {p.tolist()}")
    n_p = [ln for ln in head if ln.startswith("Number_of_points")]
    n_c = [ln for ln in body if ln.startswith("Number_of_cells")]
    check(numbers(n_p[0])[0] == len(mesh.points) and numbers(n_c[0])[0] == len(mesh.cells), "wrong-counts",
          lambda: f"{path}: {n_p} {n_c}")
    dims = [c.dimension for c in mesh.cells]
    tagged = [c.dimension for c in mesh.cells if c.material_id is not None]
    for what, want in (("Min entity dimension:", min(dims)), ("Max entity dimension:", max(dims)),
                       ("Min entity dimension with", min(tagged)), ("Max entity dimension with", max(tagged))):
        ln = [q for q in head if q.startswith(what)]
        check(len(ln) == 1 and numbers(ln[0]) == [want], "wrong-dimensions", lambda: f"{path}: {ln}, not {want}")
    cells, cur = [], None
    for ln in body:
        if ln.startswith("Entity_type"):
            cur = {"sub": {}}
            cells.append(cur)
        elif ln.startswith("Dimension:"):
            cur["dim"] = numbers(ln)[0]
        elif ln.startswith("Tag:"):
            cur["id"] = numbers(ln)[0]
        elif ln.startswith("Physical_tag:"):
            v = ln.split(":")[1].strip()
            cur["tag"] = None if v == "None" else int(v)
        elif ln.startswith("Node_tags:"):
            cur["nodes"] = numbers(ln)
        elif ln.startswith("Entities of dimension"):
            cur["sub"][int(ln.split(":")[0].split()[3])] = numbers(ln)
    want = [{"dim": c.dimension, "id": c.id, "tag": c.material_id,
             "nodes": [int(v) for v in np.ravel(c.node_tags)],
             "sub": {d: [int(v) for v in np.ravel(s)] for d, s in enumerate(c.sub_cells_ids)}}
            for c in mesh.cells]
    check(len(cells) == len(want), "wrong-cells", lambda: f"{path}: {len(cells)} of {len(want)} cells")
    key = lambda c: (c["dim"], c["id"])  # noqa: E731
    for a, b in zip(sorted(cells, key=key), sorted(want, key=key)):
        check(a == b, "wrong-cells", lambda: f"{path}: written {a}, mesh has {b}")


def check_vtk(path, mesh, d):
    v = vtk.read(path)
    check(np.array_equal(v["points"], np.asarray(mesh.points, float)), "wrong-points",
          lambda: f"{path}: points differ from the mesh")
    check({"physical_tag", "entity_tag"} <= set(v["cell"]), "wrong-data", lambda: f"{path}: {list(v['cell'])}")
    got = sorted((i, n, p, dd) for (dd, n), i, p in zip(
        v["cells"], v["cell"]["entity_tag"][:, 0].tolist(), v["cell"]["physical_tag"][:, 0].tolist()))
    want = sorted((c.id, tuple(int(q) for q in np.ravel(c.node_tags)), c.material_id, d)
                  for c in mesh.cells if c.dimension == d and c.material_id is not None)
    check(len(got) == len(want), "wrong-cells", lambda: f"{path}: {len(got)} of {len(want)} cells")
    for a, b in zip(got, want):
        check(a == b, "wrong-cells", lambda: f"{path}: (id, nodes, tag, dim) written {a}, mesh has {b}")


def check_conf(path, mesh, d):
    """The mesh as the file held it."""
    v = vtk.read(path)
    c = mesh.conformal_mesh
    check(np.array_equal(v["points"], np.asarray(c.points, float)), "wrong-points", lambda: f"{path}: points differ")
    kind = {0: "vertex", 1: "line", 2: "triangle"}[d]
    want = sorted((d, tuple(int(q) for q in s), int(t)) for b, tags in zip(c.cells, c.cell_data["gmsh:physical"])
                  if b.type == kind for s, t in zip(b.data, tags))
    got = sorted((dd, tuple(n), int(t)) for (dd, n), t in zip(v["cells"], v["cell"]["physical_tag"][:, 0]))
    check(got == want, "wrong-cells", lambda: f"{path}: {lib.first_diff(want, got)}")


def check_files(kind, names, mesh, ref):
    for k, n in enumerate(names):
        check(os.path.isfile(n), "missing-file", lambda: f"export returned without writing {n}")
        try:
            with judging(n):
                if kind == "data":
                    check_data(n, mesh)
                elif kind == "conf":
                    check_conf(n, mesh, int(n[-6]))
                else:
                    check_vtk(n, mesh, int(n[-6]))
        except vtk.BadVtk as e:
            raise Violation("incomplete-file", f"{n}: {e}") from e
        with open(n, "rb") as f:
            data = f.read()
        check(data == ref[k], "differs-from-first-export",
              lambda: f"{n}: {len(data)} bytes, a first export in a fresh process writes {len(ref[k])}")


def run(sc, ctx):
    meshes = [must("loading the mesh", load, sc, k, f"m{k}.msh") for k in range(len(sc["meshes"]))]
    edits, refs = [[] for _ in meshes], {}
    ctx.state([lib.digest(lib.describe_mesh(m)) for m in meshes])

    def reference(kind, m):
        key = (kind, m, len(edits[m]))
        if key not in refs:
            st, out = lib.in_child(fresh, sc, m, list(edits[m]), kind)[:2]
            check(st == "ok", "fresh-export", lambda: f"exporting {kind} in a fresh process: {out}")
            refs[key] = out
        return refs[key]

    last = []
    for k in range(len(meshes)):
        last += [{"kind": "data", "name": 0, "disk": [], "mesh": k}, {"kind": "vtk", "name": 0, "disk": [], "mesh": k}]
    for n, o in enumerate(sc["ops"] + last):
        mesh = meshes[o["mesh"]]
        if o["kind"] == "conf" and not any(b.type == "vertex" for b in mesh.conformal_mesh.cells):
            o = dict(o, kind="vtk")  # this export is for meshes with tagged points
        if o.get("edit"):
            edit(mesh, o["edit"])
            edits[o["mesh"]].append(o["edit"])
            ctx.probes["mesh edited between exports"] += 1
        before = [lib.digest(lib.describe_mesh(m)) for m in meshes]
        name = None if o["name"] is None else f"out{o['name']}"
        if o.get("pre") == "nodir":
            name = f"nowhere{n}/x"
        elif o.get("pre") == "dir":
            name = f"taken{n}"
        plans = [(o["kind"], o["mesh"], *files(o["kind"], name, mesh))]
        if o.get("second"):
            q = o["second"]
            plans.append((q["kind"], q["mesh"], *files(q["kind"], f"second{n}", meshes[q["mesh"]])))
        blocked = []
        for k, _, _, names in plans:
            for f in names:
                if o.get("pre") == "junk":
                    lib.in_file(f, b"tag:  0   junk\n" * 4000)
                    ctx.faults["target holds other content"] += 1
                elif o.get("pre") == "dir" and f == names[-1]:
                    if os.path.isfile(f):
                        os.unlink(f)
                    os.mkdir(f)
                    blocked.append(f)
        if o.get("pre") == "dir":
            ctx.faults["target is a directory"] += 1
        if o.get("pre") == "nodir" and o["kind"] != "conf":
            ctx.faults["target folder missing"] += 1
        size = max(len(b) for b in reference(o["kind"], o["mesh"]))
        plan = []
        for f in o["disk"]:
            f = dict(f)
            if f["op"] == "full":
                f["at"] = int(f["at"] * size)
            plan.append(f)
        faults = [dict(o["async"], task=0)] if o.get("async") else []
        s = sched.Sched(o.get("plan") or {"switches": []}, faults=faults)
        with disk(plan, ctx.tmp, ctx.faults) as d:
            ts = s.run([(k, lambda k=k, m=m, a=a: export(meshes[m], k, a)) for k, m, a, _ in plans])
            hit_open = d.n_w
        ctx.absorb(s)
        ctx.ops += len(plans)
        after = [lib.digest(lib.describe_mesh(m)) for m in meshes]
        check(after == before, "mesh-modified", f"export {n} ({o}) changed the mesh")
        for (kind, m, arg, names), t in zip(plans, ts):
            ctx.log(n, kind, m, type(t.exc).__name__)
            ctx.state(n, kind, m, type(t.exc).__name__, [(f["op"], f["n"]) for f in plan])
            allowed = bool(s.fired) or bool(plan) or o.get("pre") in ("dir", "nodir")
            if t.exc is not None:
                check(allowed, "unexpected-failure",
                      lambda: f"export {n} ({o}): {type(t.exc).__name__}: {t.exc}")
                if any(f["op"] == "full" and f["n"] <= hit_open for f in plan):
                    ctx.faults["disk full"] += 1
                ctx.probes["export failed as injected"] += 1
                continue
            check_files(kind, names, meshes[m], reference(kind, m))
            ctx.nontrivial = True
            ctx.probes["export compared"] += 1
            ctx.probes["exports at the same time"] += len(plans) > 1
        for f in blocked:
            if os.path.isdir(f):
                os.rmdir(f)


def simplify(sc):
    one = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]

    def with_mesh(k, **kw):
        return dict(sc, meshes=[dict(m, **kw) if j == k else m for j, m in enumerate(sc["meshes"])])

    for k, m in enumerate(sc["meshes"]):
        if m["aff"]["A"] != one:
            yield with_mesh(k, aff={"A": one, "b": [0.0, 0.0, 0.0]})
        for key, v in (("shuffle", False), ("split", False), ("extra", [])):
            if m["lay"][key] != v:
                yield with_mesh(k, lay=dict(m["lay"], **{key: v}))
        if "make" in m["spec"] and min(m["spec"]["make"]["shape"]) > 2:
            for f in (0.5, 0.8, 0.95):
                mk = dict(m["spec"]["make"], shape=[max(2, int(n * f)) for n in m["spec"]["make"]["shape"]])
                yield with_mesh(k, spec={"make": mk})
    for k, o in enumerate(sc["ops"]):
        for drop in ("edit", "pre", "async", "second"):
            if o.get(drop):
                yield dict(sc, ops=[{q: v for q, v in p.items() if q != drop} if j == k else p
                                    for j, p in enumerate(sc["ops"])])
