"""C05 - L2 projection reproduces representable functions and leaves the space alone."""
import numpy as np

from sim import lib, sched
from sim.runner import check, judging, must

ID = "C05"
TITLE = "L2 projection reproduces representable functions and leaves the space alone"
QUICK, THOROUGH = 700, 60000
RULE = ("distinct digest of (mesh, fields, numbering shift, sequence of projections with the place of each "
        "fault and its outcome) among runs with a completed projection compared with the function")
REAL = ["postprocess.projectors", "postprocess.l2_error_post_processor", "weak_forms.l2_projector_weak_form",
        "spaces", "basis", "mesh", "PETSc and MUMPS"]
STUB = ["allocation failures and interrupts (raised at a simulated step)", "user functions that fail", "clock"]
ASSUMPTIONS = ["meshes have at most some tens of cells, orders up to 4 (3 in three dimensions)",
               "a polynomial of the degree the family contains counts as representable",
               "an interrupt inside PETSc itself is not simulated"]
LISTS = ["ops"]

KS = {"Lagrange": (1, 2, 3, 4), "RT": (1, 2, 3), "BDM": (1, 2, 3), "N1E": (1, 2, 3), "N2E": (1, 2)}


@lib.renamed
def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 2, 3, 3])
    mats = rng.choice([1, 1, 2])
    spec = lib.make_spec(rng, dim, materials=mats)
    aff = lib.gen_affine(rng, dim)
    fields = {}
    for n in ("u", "v", "w")[:rng.choice([1, 1, 2, 2, 3])]:
        fam = rng.choice(["Lagrange", "Lagrange", "RT", "BDM", "N1E", "N2E"])
        k = rng.choice([q for q in KS[fam] if q <= (2 if dim == 3 and (rng.random() < 0.8 or fields) else 4)])
        disc = rng.random() < 0.25
        if disc and fam == "Lagrange" and rng.random() < 0.4:
            k -= 1
        fields[n] = {"fam": fam, "k": k, "comp": rng.choice([1, 1, min(2, dim), dim]), "disc": disc}
    tags, btags = lib.gen_tags(rng, dim, fields, mats)
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        op = {"op": "ok", "sym": rng.random() < 0.6, "coef": rng.randrange(2)}
        if r < 0.35:
            op.update(op="raise", field=rng.choice(list(fields)), call=int(2 ** rng.uniform(0, 5)),
                      kind=rng.choice(["value", "value", "zero", "exit"]))
        elif r < 0.6:
            op.update(op="async", step=int(2 ** rng.uniform(0, 14)), kind=rng.choice(["memory", "interrupt"]))
            lib.aim(rng, op)
        ops.append(op)
    return {"dim": dim, "spec": spec, "aff": aff, "fields": fields, "tags": tags, "btags": btags,
            "shift": rng.choice([0, 0, 1, 7, 100]), "coefs": [lib.gen_coef(rng), lib.gen_coef(rng)],
            "pts": [[round(rng.uniform(0.05, 0.95), 4) for _ in range(3)] for _ in range(2)],
            "ops": ops, "clock": [[rng.randint(1, 8), rng.choice([-3600.0, 1e6])]] if rng.random() < 0.2 else []}


ERR = {"value": ValueError, "zero": ZeroDivisionError, "exit": SystemExit}


def functions(sc, c):
    return lib.pullback(lib.polys(sc["dim"], sc["fields"], sc["coefs"][c]), sc["aff"])


def build(sc, name):
    mesh = lib.mesh_from_spec(lib.map_spec(sc["spec"], sc["aff"]), name)
    sp = lib.make_space(mesh, sc["dim"], sc["fields"], sc["tags"], sc["btags"])
    return mesh, sp


def fresh(sc, c, sym):
    with lib.quiet():
        _, sp = build(sc, "ref.msh")
        return np.array(lib.l2_projector(sp, functions(sc, c), symmetric_solver_q=sym))


def ref_points(dim, pts):
    out = []
    for p in pts:
        p = p[:dim]
        s = sum(p)
        out.append([v / (s * 1.1) if s > 1 else v for v in p])
    return np.array(out, float)


def check_pointwise(sc, sp, mesh, funs, alpha, tol):
    """Discrete field at points inside every cell, by the affine map of its vertices."""
    dim = sc["dim"]
    X = ref_points(dim, sc["pts"])
    for i in range(len(next(iter(sp.discrete_spaces.values())).elements)):
        for n, s in sp.discrete_spaces.items():
            el = s.elements[i]
            V = np.asarray(mesh.points, float)[np.ravel(el.data.cell.node_tags)]
            J = (V[1:] - V[0]).T
            x = V[0] + X @ J.T
            m, jac, det, inv = el.evaluate_mapping(X)
            check(np.allclose(m, x, rtol=1e-12, atol=1e-12 * (1 + np.abs(V).max())), "mapping",
                  lambda: f"{n}: cell {i} maps {X.tolist()} to {np.asarray(m).tolist()}")
            phi = el.evaluate_basis(X, jac, det, inv)
            dest = sp.destination_indexes(i, n) - sp.dof_shift
            a = alpha[dest].reshape(phi.shape[2], s.n_comp)
            vec = lib.is_vector(dim, sc["fields"][n]["fam"])
            for q in range(len(X)):
                want = funs[n](*x[q])
                if vec:
                    got, want = a.T @ phi[0, q, :, :dim], np.asarray(want)[:, :dim]
                else:
                    got = a.T @ phi[0, q, :, 0]
                d = np.abs(got - want).max()
                check(d < tol, "projection",
                      lambda: f"{n} at {x[q].tolist()}: projected {got.tolist()}, function {np.asarray(want).tolist()}")


def run(sc, ctx):
    dim = sc["dim"]
    want = {}
    w = sched.world
    with lib.quiet():
        mesh, sp = must("building the space", build, sc, "m.msh")
    sp.dof_shift = sc["shift"]
    d0 = (lib.digest(lib.describe_mesh(mesh)), lib.describe_space(sp))
    ctx.state(d0[0], lib.digest(d0[1]))
    vol = abs(np.linalg.det(np.array(sc["aff"]["A"])[:dim, :dim]))
    w.on, w.clock_faults = True, [tuple(c) for c in sc["clock"]]
    failed = False
    try:
        for k, op in enumerate(sc["ops"] + [{"op": "ok", "sym": True, "coef": 0}]):
            funs = functions(sc, op["coef"])
            hit = []
            use = dict(funs)
            if op["op"] == "raise":
                n = op["field"]
                f, calls = funs[n], [0]

                def flaky(x, y, z, f=f, calls=calls, op=op):
                    calls[0] += 1
                    if calls[0] == op["call"]:
                        hit.append(op["kind"])
                        raise ERR[op["kind"]]("injected: user function failed")
                    return f(x, y, z)

                use[n] = flaky
            faults = []
            if op["op"] == "async":
                faults = [dict(op, task=0)]
            s = sched.Sched({"switches": []}, faults=faults)

            def project():
                with lib.quiet():
                    return np.array(lib.l2_projector(sp, use, symmetric_solver_q=op["sym"]))

            t = s.run([("main", project)])[0]
            ctx.absorb(s)
            ctx.ops += 1
            hit += [q for q, _ in s.fired]
            for q in hit:
                if op["op"] == "raise":
                    ctx.faults[f"user function:{q}"] += 1
            ctx.log("op", k, type(t.exc).__name__, hit)
            ctx.state(op["op"], type(t.exc).__name__, hit)
            with judging("space after a projection"):
                d1 = lib.describe_space(sp)
                check(d1 == d0[1], "space-modified",
                      lambda: f"projection {k} ({op}, {type(t.exc).__name__}): {lib.first_diff(d0[1], d1)}")
                check(lib.digest(lib.describe_mesh(mesh)) == d0[0], "mesh-modified",
                      f"projection {k} ({op}) changed the mesh")
            if t.exc is not None:
                check(hit, "unexpected-failure",
                      lambda: f"projection {k} ({op}) raised {type(t.exc).__name__}: {t.exc}")
                ctx.probes["projection failed as injected"] += 1
                failed = True
                continue
            check(op["op"] != "raise" or not hit, "failure-lost",
                  f"a user function raised in projection {k}, yet it returned")
            alpha = t.result
            key = (op["coef"], op["sym"])
            if key not in want:
                want[key] = lib.in_child(fresh, sc, *key)
            ok, ref = want[key][:2]
            check(ok == "ok", "fresh-projection", lambda: f"projecting on a fresh space fails: {ref}")
            check(alpha.shape == ref.shape and np.array_equal(alpha, ref), "differs-from-fresh",
                  lambda: f"projection {k}: coefficients differ from those on a fresh space by "
                  f"{np.abs(alpha - ref).max() if alpha.shape == ref.shape else alpha.shape}")
            pad = np.concatenate([np.full(sp.dof_shift, 1e3), alpha])
            with lib.quiet():
                e = must("l2_error", lib.l2_error, dim, sp, funs, pad)
            check(len(e) == len(sc["fields"]) and np.all(np.isfinite(e))
                  and max(np.ravel(e)) < 1e-6 * np.sqrt(vol),
                  "projection", f"projection {k}: representable functions reproduced with error {e}")
            with judging("projected coefficients"):
                check_pointwise(sc, sp, mesh, funs, alpha, 1e-6)
            ctx.nontrivial = True
            ctx.probes["projection compared"] += 1
            ctx.probes["projection after a failed one"] += failed
    finally:
        w.on = False
    ctx.faults["clock jump"] += sum(1 for n, _ in w.clock_faults if n <= w.clock_reads)
    ctx.probes["numbering shift"] += sc["shift"] > 0


def simplify(sc):
    if len(sc["fields"]) > 1:
        for n in list(sc["fields"]):
            c = dict(sc)
            for part in ("fields", "tags", "btags"):
                c[part] = {k: v for k, v in sc[part].items() if k != n}
            if not any(o.get("field") == n for o in sc["ops"]):
                yield c
    if sc["clock"]:
        yield dict(sc, clock=[])
    if sc["shift"]:
        yield dict(sc, shift=0)
    one = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    if sc["aff"]["A"] != one:
        yield dict(sc, aff={"A": one, "b": [0.0, 0.0, 0.0]})
