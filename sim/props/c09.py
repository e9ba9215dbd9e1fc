"""C09 - solution exports contain the discrete field values, or the export fails."""
import errno
import os

import numpy as np

from sim import lib, sched, vtk
from sim.disk import disk
from sim.runner import Violation, check, judging, must

ID = "C09"
TITLE = "Solution exports contain the discrete field values, or the export fails"
QUICK, THOROUGH = 650, 60000
RULE = ("distinct digest of (mesh, fields, sequence of exports, disk trouble, failing functions, exceptions, "
        "interleavings, outcomes) among runs with at least one export compared in full")
REAL = ["postprocess.solution_post_processor (all five writers)", "spaces", "basis", "mesh", "meshio writer",
        "numpy native file writing", "real files"]
STUB = ["opening files (errors)", "disk space (file size limit of the process)", "exact functions (failing)",
        "allocation failures and interrupts (raised at a simulated step)", "thread scheduling"]
ASSUMPTIONS = ["scalar fields have at most as many components as the mesh has dimensions (the writers fail "
               "on others)",
               "values at points that no cell of the field touches are not judged",
               "a value shared by several cells is the mean over the cells of the field",
               "exports running at the same time go to different files"]
LISTS = ["ops"]
WRITERS = ("plain", "exact", "error", "multi", "functions")


@lib.renamed
def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 2, 3])
    mats = rng.choice([1, 1, 2])
    shape = {1: (rng.randint(2, 4),), 2: (2, rng.randint(1, 2)), 3: (rng.choice([1, 1, 2]), 1, 1)}[dim]
    if rng.random() < 0.1:
        shape = {1: (rng.randint(10, 40),), 2: (rng.randint(4, 6), rng.randint(3, 5)), 3: (2, 2, 2)}[dim]
    spec = lib.make_spec(rng, dim, shape, materials=mats)
    aff = lib.gen_affine(rng, dim)
    spaces = []
    for s in range(rng.choice([1, 1, 2])):
        fields = lib.gen_fields(rng, dim, nmax=2)
        fields = {f"{n}{s}": f for n, f in fields.items()}
        tags, _ = lib.gen_tags(rng, dim, fields, mats)
        spaces.append({"fields": fields, "tags": tags})
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        s = rng.randrange(len(spaces))
        o = {"kind": rng.choice(WRITERS), "space": s, "name": rng.choice(["a.vtk", "a.vtk", "b.vtk"]),
             "coef": rng.randrange(2), "disk": []}
        names = [n for q in spaces for n in q["fields"]]
        o["centered"] = [n for n in names if rng.random() < 0.35]
        r = rng.random()
        if r < 0.25:
            o["disk"] = [rng.choice([
                {"op": "full", "n": 1, "at": rng.choice([rng.random(), 1 - rng.random() * 0.05])},
                {"op": "full", "n": 1, "at": rng.random()},
                {"op": "open", "mode": "w", "n": 1,
                 "errno": rng.choice([errno.EACCES, errno.ENOSPC, errno.EMFILE, errno.EROFS])}])]
        elif r < 0.32:
            o["pre"] = rng.choice(["dir", "nodir"])
        elif r < 0.4:
            o["pre"] = "junk"
        elif r < 0.52:
            o["raise"] = {"call": int(2 ** rng.uniform(0, 5)), "kind": rng.choice(["value", "zero", "zero", "exit", "stop"])}
        elif r < 0.67:
            o["async"] = lib.aim(rng, {"step": int(2 ** rng.uniform(0, 14)), "kind": rng.choice(["memory", "interrupt"])})
        elif r < 0.78:
            o["with"] = rng.choice(WRITERS)
            o["plan"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.001, 0.01, 0.1])}
        if rng.random() < 0.4:
            o["edit"] = rng.choice(["alpha", "alpha", "shift", "new alpha", "move", "respace"])
        ops.append(o)
    return {"dim": dim, "spec": spec, "aff": aff, "spaces": spaces, "ops": ops, "mats": mats,
            "coefs": [lib.gen_coef(rng), lib.gen_coef(rng)], "seed": rng.randrange(1 << 30),
            "alpha": rng.choice(["any", "any", "sparse", "blocks", "large", "equal"])}


ERR = {"value": ValueError, "zero": ZeroDivisionError, "exit": SystemExit, "stop": StopIteration}


def build(sc, name):
    with lib.quiet():
        mesh = lib.mesh_from_spec(lib.map_spec(sc["spec"], sc["aff"]), name)
        sps, n = [], 0
        for q in sc["spaces"]:
            sp = lib.make_space(mesh, sc["dim"], q["fields"], q["tags"])
            sp.dof_shift = n
            n += sp.n_dof
            sps.append(sp)
    g = np.random.default_rng(sc["seed"])
    alpha = g.uniform(-1, 1, n + 3)
    if sc.get("alpha") == "sparse":
        alpha[g.uniform(size=n + 3) < 0.8] = 0.0
    elif sc.get("alpha") == "blocks":
        alpha[np.cumsum(g.uniform(size=n + 3) < 0.15) % 2 == 0] = 0.0
    elif sc.get("alpha") == "large":
        alpha *= 10.0 ** g.integers(-12, 12)
    elif sc.get("alpha") == "equal":
        alpha[:] = 0.5
    return mesh, sps, alpha


def edit(sc, mesh, sps, alpha, kind):
    """What a script does between exports: new values in the same or in a new vector, another block offset, a
    moved mesh, new spaces on the same mesh."""
    if kind == "alpha":
        alpha *= -0.75
        alpha += 0.125
    elif kind == "new alpha":
        alpha = np.cos(alpha) - 0.5
    elif kind == "move":
        mesh.points *= 1.25
        mesh.points[:, :sc["dim"]] += 0.0625
    elif kind == "respace":
        with lib.quiet():
            new, n = [], sps[0].dof_shift
            for q in sc["spaces"]:
                new.append(lib.make_space(mesh, sc["dim"], q["fields"], q["tags"]))
                new[-1].dof_shift = n
                n += new[-1].n_dof
        sps = new
    else:
        for sp in sps:
            sp.dof_shift += 1
        if sps[-1].dof_shift + sps[-1].n_dof > len(alpha):
            for sp in sps:
                sp.dof_shift -= 3
    return sps, alpha


def functions(sc, c):
    dim, out = sc["dim"], {}
    for q in sc["spaces"]:
        for n, f in q["fields"].items():
            p = lib.poly(dim, f["fam"], f["comp"], 2, sc["coefs"][c])
            if lib.is_vector(dim, f["fam"]):
                out[n] = lambda x, y, z, p=p: p(x, y, z)[:, :dim]
            else:
                out[n] = p
    return lib.pullback(out, sc["aff"])


def n_data(dim, f):
    return f["comp"] * (dim if lib.is_vector(dim, f["fam"]) else 1)


def covers_all(sc, s):
    """Every cell carries the space's fields."""
    return all(len(t) == sc["mats"] for t in sc["spaces"][s]["tags"].values())


def centered(sc, o, kind):
    """Fields to write per cell; on a part of the mesh only one writer knows how."""
    if kind == "functions":
        return []
    if kind == "multi":
        return o["centered"]
    return [n for n in o["centered"] if n in sc["spaces"][o["space"]]["fields"]] \
        if covers_all(sc, o["space"]) else []


def export(sc, o, kind, name, mesh, sps, alpha, funs):
    sp, cc = sps[o["space"]], centered(sc, o, kind)
    with lib.quiet():
        if kind == "plain":
            lib.spp.write_vtk_file(name, mesh, sp, alpha, cc)
        elif kind == "exact":
            lib.spp.write_vtk_file_with_exact_solution(name, mesh, sp, funs, alpha, cc)
        elif kind == "error":
            lib.spp.write_vtk_file_pointwise_l2_error(name, mesh, sp, funs, alpha, cc)
        elif kind == "multi":
            lib.spp.write_fe_spaces_on_vtk_file_with_exact_solution(name, mesh, sps, funs, alpha, cc)
        else:
            want = {n: n_data(sc["dim"], f) for q in sc["spaces"] for n, f in q["fields"].items()}
            lib.spp.write_vtk_file_exact_solution(name, mesh, want, funs)


def fresh(sc, o, kind, edits):
    mesh, sps, alpha = build(sc, "ref.msh")
    for e in edits:
        sps, alpha = edit(sc, mesh, sps, alpha, e)
    export(sc, o, kind, "reference.vtk", mesh, sps, alpha, functions(sc, o["coef"]))
    with open("reference.vtk", "rb") as f:
        out = f.read()
    os.unlink("reference.vtk")
    return out


class Oracle:
    """Values of the discrete fields, from the definition."""

    def __init__(self, sc, mesh, sps, alpha):
        self.sc, self.mesh, self.sps, self.alpha = sc, mesh, sps, alpha
        self.dim = sc["dim"]
        self.top = [c for c in mesh.cells if c.dimension == self.dim]
        self.corners = np.vstack([np.zeros(self.dim), np.eye(self.dim)])
        self.memo = {}

    def values(self, s, name):
        """cell id -> (values at the corners, value at the centre) of one field."""
        if (s, name) in self.memo:
            return self.memo[s, name]
        f, sp = self.sc["spaces"][s]["fields"][name], self.sps[s]
        X = np.vstack([self.corners, np.full(self.dim, 1.0 / (self.dim + 1))])
        out = {}
        space = sp.discrete_spaces[name]
        for i, el in enumerate(space.elements):
            x, jac, det, inv = el.evaluate_mapping(X)
            phi = el.evaluate_basis(X, jac, det, inv)
            a = self.alpha[np.asarray(sp.destination_indexes(i, name))].reshape(phi.shape[2], f["comp"])
            if lib.is_vector(self.dim, f["fam"]):
                v = [(a.T @ phi[0, q, :, :self.dim]).ravel() for q in range(len(X))]
            else:
                v = [(a.T @ phi[0, q, :, 0]).ravel() for q in range(len(X))]
            out[el.data.cell.id] = np.array(v)
        self.memo[s, name] = out
        return out

    def at_points(self, s, name):
        tags = self.sc["spaces"][s]["tags"][name]
        v = self.values(s, name)
        acc = {}
        for c in self.top:
            if c.material_id in tags:
                for j, node in enumerate(np.ravel(c.node_tags)):
                    acc.setdefault(int(node), []).append(v[c.id][j])
        return {k: np.mean(np.array(a), axis=0) for k, a in acc.items()}

    def at_cells(self, s, name):
        tags = self.sc["spaces"][s]["tags"][name]
        v = self.values(s, name)
        return {k: v[c.id][-1] for k, c in enumerate(self.top) if c.material_id in tags}


def compare(path, what, got, want, n, scale=1.0):
    """want: row -> value; rows beyond it are not judged.  scale: magnitude of the terms summed up."""
    check(got is not None and got.shape[1] >= n, "missing-data", lambda: f"{path}: {what}: "
          f"{'absent' if got is None else got.shape}")
    for k, w in want.items():
        g = got[k]
        tol = 1e-10 * (scale + np.abs(w).max())
        ok = np.all(np.abs(g[:n] - w) <= tol) and np.all(g[n:] == 0)
        check(ok, "wrong-value", lambda: f"{path}: {what} row {k}: written {g.tolist()}, is {w.tolist()}")


def check_file(sc, o, kind, path, orc, funs):
    dim, mesh = sc["dim"], orc.mesh
    check(os.path.isfile(path), "missing-file", f"export returned without writing {path}")
    try:
        v = vtk.read(path)
    except vtk.BadVtk as e:
        raise Violation("incomplete-file", f"{path}: {e}") from e
    P = np.asarray(mesh.points, float)
    check(np.array_equal(v["points"], P), "wrong-points", f"{path}: points differ from the mesh")
    con = [tuple(int(q) for q in np.ravel(c.node_tags)) for c in orc.top]
    cells = [n for d, n in v["cells"] if d == dim]
    rows = list(range(len(con)))
    if kind == "exact" and not covers_all(sc, o["space"]):
        last = list(sc["spaces"][o["space"]]["fields"])[-1]
        rows = [k for k in rows if orc.top[k].material_id in sc["spaces"][o["space"]]["tags"][last]]
    check(len(cells) == len(v["cells"]) and sorted(cells) == sorted(con[k] for k in rows), "wrong-cells",
          lambda: f"{path}: {len(cells)} cells {cells[:4]}, mesh has {[con[k] for k in rows][:4]}")
    order = {c: k for k, c in enumerate(cells)}
    cc = centered(sc, o, kind)
    known_p, known_c = set(), set()
    every = range(len(sc["spaces"]))
    for s in (every if kind in ("multi", "functions") else [o["space"]]):
        for n, f in sc["spaces"][s]["fields"].items():
            nd, size = n_data(dim, f), np.abs(orc.alpha).max()
            where = v["cell"] if n in cc else v["point"]
            (known_c if n in cc else known_p).update(
                {"plain": [n + "_h"], "exact": [n + "_h", n + "_e"], "multi": [n + "_h", n + "_e"],
                 "error": [n + "_error"], "functions": [n + "_e"]}[kind])

            def exact(x):
                return np.ravel(funs[n](x[0], x[1], x[2]))

            if kind == "functions":
                compare(path, n + "_e", where.get(n + "_e"), {k: exact(x) for k, x in enumerate(P)}, nd)
                continue
            if n in cc:
                h = {order[con[k]]: w for k, w in orc.at_cells(s, n).items()}
                e = {order[con[k]]: exact(P[list(con[k])].mean(axis=0)) for k in orc.at_cells(s, n)}
            else:
                h = orc.at_points(s, n)
                e = {k: exact(P[k]) for k in h}
            if kind == "error":
                compare(path, n + "_error", where.get(n + "_error"),
                        {k: np.array([np.sqrt(np.sum((e[k] - h[k]) ** 2))]) for k in h}, 1, 1 + size)
            else:
                compare(path, n + "_h", where.get(n + "_h"), h, nd, size)
                if kind != "plain":
                    compare(path, n + "_e", where.get(n + "_e"), e, nd)
    check(set(v["point"]) == known_p and set(v["cell"]) == known_c, "wrong-data-set",
          lambda: f"{path}: point data {sorted(v['point'])}, cell data {sorted(v['cell'])}")


def run(sc, ctx):
    mesh, sps, alpha = must("building the spaces", build, sc, "m.msh")
    edits, refs = [], {}

    def snapshot():
        return (lib.digest(lib.describe_mesh(mesh)), [lib.describe_space(sp) for sp in sps], alpha.tobytes())

    ctx.state(lib.digest([lib.describe_mesh(mesh)] + [lib.describe_space(sp) for sp in sps]))

    def reference(o, kind):
        key = repr((kind, o["space"], o["coef"], centered(sc, o, kind), len(edits)))
        if key not in refs:
            st, out = lib.in_child(fresh, sc, o, kind, list(edits))[:2]
            check(st == "ok", "fresh-export", lambda: f"exporting ({kind}, {o}) in a fresh process: {out}")
            refs[key] = out
        return refs[key]

    last = [{"kind": k, "space": len(sc["spaces"]) - 1, "name": "last.vtk", "coef": 0, "disk": [],
             "centered": []} for k in ("plain", "error")]
    for n, o in enumerate(sc["ops"] + last):
        if o.get("edit"):
            sps, alpha = edit(sc, mesh, sps, alpha, o["edit"])
            edits.append(o["edit"])
            ctx.probes[f"between exports: {o['edit']}"] += 1
        before = snapshot()
        funs = functions(sc, o["coef"])
        calls, hit = [0], []

        def flaky(f):
            def g(x, y, z):
                calls[0] += 1
                if calls[0] == o["raise"]["call"]:
                    hit.append(1)
                    raise ERR[o["raise"]["kind"]]("injected: user function failed")
                return f(x, y, z)
            return g

        use = {k: flaky(f) for k, f in funs.items()} if o.get("raise") else funs
        name = {"nodir": f"nowhere{n}/{o['name']}", "dir": f"taken{n}.vtk"}.get(o.get("pre"), o["name"])
        if o.get("pre") == "dir":
            os.mkdir(name)
            ctx.faults["target is a directory"] += 1
        elif o.get("pre") == "nodir":
            ctx.faults["target folder missing"] += 1
        elif o.get("pre") == "junk":
            lib.in_file(name, b"0 0 0 junk\n" * 5000)
            ctx.faults["target holds other content"] += 1
        jobs = [(o["kind"], name)] + ([(o["with"], "other.vtk")] if o.get("with") else [])
        plan = []
        for f in o["disk"]:
            f = dict(f)
            if f["op"] == "full":
                f["at"] = int(f["at"] * len(reference(o, o["kind"])))
            plan.append(f)
        faults = [dict(o["async"], task=0)] if o.get("async") else []
        s = sched.Sched(o.get("plan") or {"switches": []}, faults=faults)
        with disk(plan, ctx.tmp, ctx.faults) as d:
            ts = s.run([(k, lambda k=k, nm=nm: export(sc, o, k, nm, mesh, sps, alpha, use)) for k, nm in jobs])
            opened = d.n_w
        ctx.absorb(s)
        ctx.ops += len(jobs)
        if hit:
            ctx.faults["user function fails"] += 1
        after = snapshot()
        check(after == before, "inputs-modified", lambda: f"export {n} ({o}) changed "
              f"{[w for w, a, b in zip(('mesh', 'space', 'coefficients'), before, after) if a != b]}: "
              f"{lib.first_diff(before[1], after[1])}")
        orc = Oracle(sc, mesh, sps, alpha)
        for (kind, nm), t in zip(jobs, ts):
            ctx.log(n, kind, type(t.exc).__name__, bool(hit))
            ctx.state(n, kind, type(t.exc).__name__, bool(hit), [f["op"] for f in plan])
            allowed = bool(s.fired) or bool(plan) or bool(hit) or o.get("pre") in ("dir", "nodir")
            if t.exc is not None:
                check(allowed, "unexpected-failure", lambda: f"export {n} ({o}): {type(t.exc).__name__}: {t.exc}")
                if any(f["op"] == "full" for f in plan) and opened:
                    ctx.faults["disk full"] += 1
                ctx.probes["export failed as injected"] += 1
                continue
            check(not hit, "failure-lost", f"an exact function raised in export {n} ({kind}), yet it returned")
            try:
                with judging(nm):
                    check_file(sc, o, kind, nm, orc, funs)
            except Violation as v:
                raise Violation(v.cls, f"export {n} ({kind}): {v.detail}") from None
            with open(nm, "rb") as f:
                data = f.read()
            ref = reference(o, kind)
            check(data == ref, "differs-from-fresh", lambda: f"export {n} ({kind}): {len(data)} bytes, a first "
                  f"export in a fresh process writes {len(ref)}")
            ctx.nontrivial = True
            ctx.probes["export compared"] += 1
            ctx.probes["exports at the same time"] += len(jobs) > 1
        if o.get("pre") == "dir" and os.path.isdir(name):
            os.rmdir(name)


def simplify(sc):
    one = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    if sc["aff"]["A"] != one:
        yield dict(sc, aff={"A": one, "b": [0.0, 0.0, 0.0]})
    if len(sc["spaces"]) > 1 and not any(o["space"] == 1 for o in sc["ops"]):
        yield dict(sc, spaces=sc["spaces"][:1])
    for s, q in enumerate(sc["spaces"]):
        for n in q["fields"]:
            if len(q["fields"]) > 1:
                c = {p: {k: v for k, v in q[p].items() if k != n} for p in ("fields", "tags")}
                yield dict(sc, spaces=[c if j == s else r for j, r in enumerate(sc["spaces"])])
    for k, o in enumerate(sc["ops"]):
        for drop in ("edit", "pre", "async", "with", "raise"):
            if o.get(drop):
                yield dict(sc, ops=[{q: v for q, v in p.items() if q != drop} if j == k else p
                                    for j, p in enumerate(sc["ops"])])
