"""C14 - norms and errors equal their definition, or the computation fails."""
import basix
import numpy as np

from sim import lib, sched
from sim.runner import check, judging, must

import postprocess.l2_error_post_processor as errors
import postprocess.solution_norms_post_processor as norms

ID = "C14"
TITLE = "Norms and errors equal their definition"
QUICK, THOROUGH = 500, 60000
RULE = ("distinct digest of (mesh, fields, sequence of computations, edits, failing functions, exceptions, "
        "interleavings, outcomes) among runs with at least one value compared with its definition")
REAL = ["postprocess.l2_error_post_processor (l2_error, l2_error_projected, grad_error, div_error, "
        "div_scaled_error)", "postprocess.solution_norms_post_processor (l2_norm, div_norm)", "spaces", "basis", "mesh"]
STUB = ["given functions (failing)", "allocation failures and interrupts (raised at a simulated step)",
        "thread scheduling", "clock and processor count"]
ASSUMPTIONS = ["scalar fields have at most as many components as the mesh has dimensions",
               "given functions are polynomials of the degree of the field, so that the order of the space's "
               "quadrature suffices",
               "meshes of one dimension lie on the x axis; their divergence is asked of vector families only"]
LISTS = ["ops"]
KINDS = ("l2_error", "l2_error", "projected", "grad_error", "div_error", "div_scaled_error", "l2_norm", "div_norm")
ERR = {"value": ValueError, "zero": ZeroDivisionError, "exit": SystemExit, "stop": StopIteration}


@lib.renamed
def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 2, 3])
    mats = rng.choice([1, 1, 2])
    shape = {1: (rng.randint(2, 4),), 2: (2, rng.randint(1, 2)), 3: (rng.choice([1, 1, 2]), 1, 1)}[dim]
    if rng.random() < 0.1:
        shape = {1: (rng.randint(10, 60),), 2: (rng.randint(4, 8), rng.randint(3, 6)), 3: (2, 2, 2)}[dim]
    meshes = [{"spec": lib.make_spec(rng, dim, shape, materials=mats), "aff": lib.gen_affine(rng, dim)}]
    if rng.random() < 0.3:
        meshes.append({"spec": meshes[0]["spec"] if rng.random() < 0.5 else
                       lib.make_spec(rng, dim, shape, materials=mats), "aff": lib.gen_affine(rng, dim)})
    spaces = []
    for s in range(rng.choice([1, 1, 2, 3])):
        fields = lib.gen_fields(rng, dim, nmax=3)
        if spaces and rng.random() < 0.4:
            # fields of the same names in another order, of other kinds
            fields = {n: f for n, f in zip(rng.sample(list(spaces[0]["fields"]), len(spaces[0]["fields"])),
                                           list(lib.gen_fields(rng, dim, nmax=3).values()))}
        tags, btags = lib.gen_tags(rng, dim, fields, mats)
        spaces.append({"fields": fields, "tags": tags, "btags": btags, "mesh": rng.randrange(len(meshes))})
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        o = gen_call(rng, spaces)
        r = rng.random()
        if r < 0.2:
            o["raise"] = {"call": int(2 ** rng.uniform(0, 6)), "kind": rng.choice(list(ERR))}
        elif r < 0.26:
            o["missing"] = rng.randrange(3)
        elif r < 0.42:
            o["async"] = lib.aim(rng, {"step": int(2 ** rng.uniform(0, 14)), "kind": rng.choice(["memory", "interrupt"])})
        elif r < 0.6:
            o["with"] = gen_call(rng, spaces)
            o["plan"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.001, 0.01, 0.1, 0.3])}
        if ops and rng.random() < 0.35:
            # what was asked before, again
            p = rng.choice(ops)
            o.update({k: p[k] for k in ("kind", "space", "coef", "skip", "more")})
        if rng.random() < 0.4:
            o["edit"] = [rng.choice(["alpha", "alpha", "new alpha", "shift", "move", "stretch", "respace", "rebuild"]),
                         rng.randrange(len(spaces))]
        ops.append(o)
    return {"dim": dim, "meshes": meshes, "spaces": spaces, "ops": ops, "mats": mats,
            "coefs": [lib.gen_coef(rng), lib.gen_coef(rng)], "seed": rng.randrange(1 << 30),
            "alpha": rng.choice(["any", "any", "sparse", "blocks", "large", "equal"]),
            "clock": [[rng.randint(1, 8), rng.choice([-3600.0, 1e6])]] if rng.random() < 0.2 else []}


def gen_call(rng, spaces):
    s = rng.randrange(len(spaces))
    names = list(spaces[s]["fields"])
    return {"kind": rng.choice(KINDS), "space": s, "coef": rng.randrange(2),
            "skip": [n for n in names if rng.random() < 0.3] if rng.random() < 0.4 else [],
            "more": rng.choice([0, 0, 2, 5])}


def build(sc, tag):
    with lib.quiet():
        ms = [lib.mesh_from_spec(lib.map_spec(m["spec"], m["aff"]), f"{tag}{k}.msh") for k, m in enumerate(sc["meshes"])]
        sps, n = [], 0
        for q in sc["spaces"]:
            sp = lib.make_space(ms[q["mesh"]], sc["dim"], q["fields"], q["tags"], q["btags"])
            sp.dof_shift = n
            n += sp.n_dof
            sps.append(sp)
    g = np.random.default_rng(sc["seed"])
    alpha = g.uniform(-1, 1, n + 12)
    if sc["alpha"] == "sparse":
        alpha[g.uniform(size=len(alpha)) < 0.8] = 0.0
    elif sc["alpha"] == "blocks":
        alpha[np.cumsum(g.uniform(size=len(alpha)) < 0.15) % 2 == 0] = 0.0
    elif sc["alpha"] == "large":
        alpha *= 10.0 ** g.integers(-9, 9)
    elif sc["alpha"] == "equal":
        alpha[:] = 0.5
    return ms, sps, alpha


def edit(sc, ms, sps, alpha, e):
    """What a script does between computations."""
    kind, s = e
    q, m = sc["spaces"][s], ms[sc["spaces"][s]["mesh"]]
    if kind == "alpha":
        alpha *= -0.75
        alpha += 0.125
    elif kind == "new alpha":
        alpha = np.cos(alpha) - 0.5
    elif kind == "move":
        m.points *= 1.25
        m.points[:, :sc["dim"]] += 0.0625
    elif kind == "stretch":
        m.points = m.points * np.array([0.5, 1.5, 1.25])
    elif kind == "shift":
        # room for it is left behind the last block
        sps[s].dof_shift += 1 if sps[s].dof_shift + sps[s].n_dof + 7 <= len(alpha) else -min(3, sps[s].dof_shift)
    elif kind == "respace":
        with lib.quiet():
            new = lib.make_space(m, sc["dim"], q["fields"], q["tags"], q["btags"])
        new.dof_shift = sps[s].dof_shift
        sps[s] = new
    else:  # built again, the tags in another order
        with lib.quiet():
            sps[s].build_structures({n: t[::-1] for n, t in q["tags"].items()}, q["btags"])
    return alpha


def functions(sc, s, c):
    """Functions of the fields, their gradients and divergences, and a scaling; any function will do for each."""
    dim, out, coef = sc["dim"], {}, sc["coefs"][c]
    vec = []
    for n, f in sc["spaces"][s]["fields"].items():
        deg = 0 if f["k"] == 0 else 1
        p = lib.poly(dim, f["fam"], f["comp"], deg, coef)
        if lib.is_vector(dim, f["fam"]):
            out[n] = lambda x, y, z, p=p: p(x, y, z)[:, :dim]
        else:
            out[n] = p
        if f["fam"] in ("RT", "BDM"):
            out["div_" + n] = lambda x, y, z, q=lib.poly(dim, "Lagrange", f["comp"], deg, coef[::-1]): q(x, y, z)
            vec.append(n)
        elif f["fam"] == "Lagrange":
            wide = 2 if dim == 2 else 3
            g = lib.poly(dim, "Lagrange", f["comp"] * wide, max(0, f["k"] - 1), coef[::-1])
            out["grad_" + n] = lambda x, y, z, g=g, f=f, w=wide: g(x, y, z).reshape(f["comp"], w)
    return out


def scaling(sc, c):
    a = sc["coefs"][c]
    L = 1.0 / max(abs(v) for m in sc["meshes"] for v in np.ravel(m["aff"]["A"]))
    sl = [0.3 * np.cos(a[d % len(a)]) * L for d in range(3)]
    dim = sc["dim"]
    return {"l": lambda x, y, z: 1.5 + sum(s * v for s, v in zip(sl[:dim], (x, y, z))),
            "grad_l": lambda x, y, z: np.array([s + 0.0 * x for s in sl[:dim]])}


def asks(sc, o):
    """Names of the fields whose value the call returns, in order."""
    dim, out = sc["dim"], []
    for n, f in sc["spaces"][o["space"]]["fields"].items():
        if n in skipped(sc, o):
            continue
        vec = f["fam"] in ("RT", "BDM")
        if o["kind"] in ("div_error", "div_scaled_error", "div_norm") and not vec:
            continue
        out.append(n)
    return out


def skipped(sc, o):
    skip = list(o["skip"])
    if o["kind"] == "div_error" and sc["dim"] == 1:
        # on lines a vector family is a scalar one to the library
        skip += [n for n, f in sc["spaces"][o["space"]]["fields"].items() if f["fam"] not in ("RT", "BDM")]
    return skip


def usable(sc, o):
    if sc["dim"] == 1 and o["kind"] in ("div_norm", "div_scaled_error"):
        return dict(o, kind="l2_norm")  # these two know lines of no field
    if sc["dim"] == 1 and o["kind"] == "grad_error" and \
            any(f["fam"] != "Lagrange" for f in sc["spaces"][o["space"]]["fields"].values()):
        return dict(o, kind="l2_error")  # vector families on lines have no gradient
    return o


def call(sc, o, sps, alpha, funs):
    sp, kind, dim = sps[o["space"]], o["kind"], sc["dim"]
    skip = skipped(sc, o)
    with lib.quiet():
        if kind == "projected":
            return errors.l2_error_projected(dim, sp, alpha, skip, o["more"])
        if kind == "grad_error":
            return errors.grad_error(dim, sp, funs, alpha)
        if kind in ("l2_norm", "div_norm"):
            return getattr(norms, kind)(dim, sp, funs, skip)
        if not skip:
            return getattr(errors, kind)(dim, sp, funs, alpha)
        return getattr(errors, kind)(dim, sp, funs, alpha, skip)


def all_functions(sc, o):
    return {**functions(sc, o["space"], o["coef"]), **scaling(sc, o["coef"])}


def fresh(sc, o, edits):
    ms, sps, alpha = build(sc, "ref")
    for e in edits:
        alpha = edit(sc, ms, sps, alpha, e)
    return [float(v) for v in call(sc, o, sps, alpha, all_functions(sc, o))]


def definition(sc, o, ms, sps, alpha, funs):
    """[(value, scale)] in the order of the fields, with a quadrature and derivatives of its own."""
    dim, sp, kind = sc["dim"], sps[o["space"]], o["kind"]
    q = sc["spaces"][o["space"]]
    P = np.asarray(ms[q["mesh"]].points, float)
    out = []
    kmax = max(f["k"] for f in q["fields"].values())
    X, W = basix.make_quadrature({1: basix.CellType.interval, 2: basix.CellType.triangle,
                                  3: basix.CellType.tetrahedron}[dim], 2 * kmax + 3)
    names = list(q["fields"]) if kind == "grad_error" else asks(sc, o)
    for n in names:
        f, space = q["fields"][n], sp.discrete_spaces[n]
        vec = lib.is_vector(dim, f["fam"])
        if kind == "grad_error" and vec:
            out.append((0.0, 0.0))
            continue
        total, size = 0.0, 0.0
        for i, el in enumerate(space.elements):
            V = P[np.ravel(el.data.cell.node_tags)]
            J = (V[1:] - V[0])[:, :dim].T
            x, det, Ji = V[0] + X @ (V[1:] - V[0]), abs(np.linalg.det(J)), np.linalg.inv(J)
            a = None
            if kind not in ("l2_norm", "div_norm"):
                a = alpha[np.asarray(sp.destination_indexes(i, n)) + (o["more"] if kind == "projected" else 0)]
                a = a.reshape(-1, f["comp"])

            def field(Y):
                """(points, components[, axes]) of the discrete field at points of the reference cell."""
                m, jac, d, inv = el.evaluate_mapping(Y)
                phi = el.evaluate_basis(Y, jac, d, inv)
                if vec:
                    return np.einsum("jc,qjd->qcd", a, phi[0][:, :, :dim])
                return np.einsum("jc,qj->qc", a, phi[0][:, :, 0])

            def slope(Y):
                """Derivatives of it along the axes, appended as last index; exact up to degree four."""
                h = 0.25
                steps = [k * h * np.eye(dim)[d] for d in range(dim) for k in (1, -1, 2, -2)]
                f = np.split(field(np.concatenate([Y + s for s in steps])), 4 * dim)
                parts = [(8 * (f[k] - f[k + 1]) - (f[k + 2] - f[k + 3])) / (12 * h) for k in range(0, 4 * dim, 4)]
                return np.stack(parts, axis=-1) @ Ji

            def given(name):
                return np.array([np.asarray(funs[name](*p), float) for p in x])

            if kind == "grad_error":
                h, e = slope(X), given("grad_" + n)
                if e.shape[-1] > dim:
                    h = np.concatenate([h, np.zeros(h.shape[:-1] + (e.shape[-1] - dim,))], axis=-1)
            elif kind in ("div_error", "div_scaled_error", "div_norm"):
                e = given("div_" + n)
                if kind == "div_norm":
                    h = 0 * e
                else:
                    g = slope(X)
                    h = np.einsum("qcdd->qc", g) if vec else g[:, :, 0]
                    if kind == "div_scaled_error":
                        h = np.array([funs["l"](*p) for p in x])[:, None] * h + \
                            np.einsum("qcd,qd->qc", field(X), np.array([funs["grad_l"](*p) for p in x]))
            elif kind == "l2_norm":
                e = given(n)
                h = 0 * e
            else:
                h = field(X)
                e = given(n) if kind == "l2_error" else 0 * h
            d = (e - h).reshape(len(X), -1)
            total += det * np.sum(W * np.sum(d * d, axis=1))
            size += det * np.sum(W * np.sum((e * e).reshape(len(X), -1), axis=1)) + \
                det * np.sum(W * np.sum((h * h).reshape(len(X), -1), axis=1))
        out.append((np.sqrt(total), np.sqrt(size)))
    return out


def run(sc, ctx):
    ms, sps, alpha = must("building the spaces", build, sc, "m")
    edits, refs = [], {}
    w = sched.world
    w.on, w.clock_faults = True, [tuple(c) for c in sc["clock"]]

    def snapshot():
        return ([lib.digest(lib.describe_mesh(m)) for m in ms], [lib.describe_space(sp) for sp in sps], alpha.tobytes())

    def reference(o):
        key = repr((o["kind"], o["space"], o["coef"], o["skip"], o["more"], len(edits)))
        if key not in refs:
            st, out = lib.in_child(fresh, sc, o, list(edits))[:2]
            check(st == "ok", "fresh-computation", lambda: f"computing {o} in a fresh process: {out}")
            refs[key] = out
        return refs[key]

    first = snapshot()
    ctx.state(lib.digest([first[0], first[1]]))
    last = [{"kind": k, "space": len(sps) - 1, "coef": 0, "skip": [], "more": 0} for k in ("l2_error", "l2_norm", "div_error")]
    for n, o in enumerate(sc["ops"] + last):
        o = usable(sc, o)
        if o.get("edit"):
            alpha = edit(sc, ms, sps, alpha, o["edit"])
            edits.append(o["edit"])
            ctx.probes[f"between computations: {o['edit'][0]}"] += 1
        before = snapshot()
        jobs = [o] + ([usable(sc, o["with"])] if o.get("with") else [])
        calls, hit, funs = [0], [], [all_functions(sc, j) for j in jobs]

        def flaky(f):
            def g(x, y, z):
                calls[0] += 1
                if calls[0] == o["raise"]["call"]:
                    hit.append(1)
                    raise ERR[o["raise"]["kind"]]("injected: user function failed")
                return f(x, y, z)
            return g

        use = list(funs)
        gone = None
        if o.get("raise"):
            use[0] = {k: flaky(f) for k, f in use[0].items()}
        elif "missing" in o and asks(sc, o) and o["kind"] in ("l2_error", "l2_norm", "div_error", "div_norm"):
            names = asks(sc, o)
            gone = ("div_" if o["kind"].startswith("div") else "") + names[o["missing"] % len(names)]
            use[0] = {k: f for k, f in use[0].items() if k != gone}
        faults = [dict(o["async"], task=0)] if o.get("async") else []
        s = sched.Sched(o.get("plan") or {"switches": []}, faults=faults)
        ts = s.run([(j["kind"], lambda j=j, u=u: call(sc, j, sps, alpha, u)) for j, u in zip(jobs, use)])
        ctx.absorb(s)
        ctx.ops += len(jobs)
        ctx.faults["user function fails"] += bool(hit)
        ctx.faults["function not given"] += gone is not None
        after = snapshot()
        check(after == before, "inputs-modified", lambda: f"computation {n} ({o}) changed "
              f"{[w for w, a, b in zip(('mesh', 'space', 'coefficients'), before, after) if a != b]}: "
              f"{lib.first_diff(before[1], after[1])}")
        for k, (j, t) in enumerate(zip(jobs, ts)):
            what = f"{j['kind']} of space {j['space']} (computation {n}{', together with another' if len(jobs) > 1 else ''})"
            ctx.log(n, j["kind"], type(t.exc).__name__, bool(hit), t.result if t.exc is None else None)
            ctx.state(n, j["kind"], type(t.exc).__name__, bool(hit))
            if t.exc is not None:
                check(bool(s.fired) or k == 0 and (bool(hit) or gone is not None), "unexpected-failure",
                      lambda: f"{what}: {type(t.exc).__name__}: {t.exc}")
                ctx.probes["computation failed as injected"] += 1
                continue
            check(k > 0 or not hit, "failure-lost", f"a given function raised in {what}, yet it returned")
            check(k > 0 or gone is None, "failure-lost", f"{what} returned although the function {gone} is not given")
            with judging(what):
                got = [float(v) for v in t.result]
            orc = definition(sc, j, ms, sps, alpha, funs[k])
            check(len(got) == len(orc), "wrong-length", lambda: f"{what}: {len(got)} values, {len(orc)} fields")
            for m, (g, (v, size)) in enumerate(zip(got, orc)):
                check(abs(g - v) <= 1e-9 * size or abs(g - v) < 1e-300, "wrong-value",
                      lambda: f"{what}: value {m} is {g!r}, by definition {v!r}")
            ref = reference(j)
            check(got == ref, "differs-from-fresh", lambda: f"{what}: {got}, in a fresh process {ref}")
            ctx.nontrivial = True
            ctx.probes[f"compared: {j['kind']}"] += 1
            ctx.probes["computations at the same time"] += len(jobs) > 1
    ctx.faults["clock jump"] += sum(1 for q, _ in w.clock_faults if q <= w.clock_reads)
    w.on = False


def simplify(sc):
    one = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    for k, m in enumerate(sc["meshes"]):
        if m["aff"]["A"] != one:
            yield dict(sc, meshes=[dict(q, aff={"A": one, "b": [0.0, 0.0, 0.0]}) if j == k else q
                                   for j, q in enumerate(sc["meshes"])])
    if sc["clock"]:
        yield dict(sc, clock=[])
    for k, o in enumerate(sc["ops"]):
        for drop in ("edit", "async", "with", "raise", "missing"):
            if drop in o:
                yield dict(sc, ops=[{q: v for q, v in p.items() if q != drop} if j == k else p
                                    for j, p in enumerate(sc["ops"])])
