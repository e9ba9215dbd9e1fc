"""C17 - boundary value problems with a representable solution are solved by it, or the assembly fails."""
import basix
import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from sim import forms, lib, problems, sched
from sim.runner import check, judging, must

ID = "C17"
TITLE = "Problems with a representable solution are solved by it"
QUICK, THOROUGH = 400, 40000
RULE = ("distinct digest of (meshes, problems, sequence of assemblies, edits, failing functions, exceptions, "
        "outcomes) among runs with at least one solution compared with the given one")
REAL = ["weak_forms (Laplace primal and dual, linear elasticity primal, dual and Taylor-Hood, Cosserat primal, dual "
        "and scaled dual, degenerate and unscaled elliptic, and their boundary forms)", "assembly", "spaces", "basis",
        "mesh", "PETSc matrix"]
STUB = ["given functions (failing)", "allocation failures and interrupts (raised at a simulated step)",
        "clock and processor count", "linear solver (scipy, in the harness)"]
ASSUMPTIONS = ["solutions are polynomials of a degree the spaces contain (scalar fields of mixed forms: their "
               "projection is compared), coefficients constant or linear, so that the quadrature suffices",
               "essential values are imposed by the library's penalty (1e12), orders at most two, as its boundary forms do",
               "mixed elasticity with weak symmetry uses BDM spaces (a stable choice)",
               "the linear system is solved by the harness",
               "one assembly at a time: automatic differentiation (the package auto_diff) replaces functions of numpy "
               "for the whole process while it is on"]
LISTS = ["ops"]
ERR = {"value": ValueError, "zero": ZeroDivisionError, "exit": SystemExit, "stop": StopIteration}
STATES = ([1.0, 1.0, 1.0], [1.25, 1.25, 1.25], [0.5, 1.5, 1.25], [1.5, 0.75, 1.0])
HEAVY = ("lce_dual", "lce_scaled_dual", "lce_primal", "le_dual")


@lib.renamed
def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 2, 2, 3])
    mats = rng.choice([1, 1, 2])
    shape = {1: (rng.randint(2, 4),), 2: (2, rng.randint(1, 2)), 3: (rng.choice([1, 1, 1, 2]), 1, 1)}[dim]
    if dim == 3 and mats == 2:
        shape = (2, 1, 1)
    big = rng.random() < 0.06
    if big:
        shape = {1: (rng.randint(10, 60),), 2: (rng.randint(3, 6), rng.randint(3, 4)), 3: (2, 1, 2)}[dim]
    meshes = [{"spec": lib.make_spec(rng, dim, shape, materials=mats), "aff": lib.gen_affine(rng, dim)}]
    if rng.random() < 0.3:
        meshes.append({"spec": meshes[0]["spec"] if rng.random() < 0.6 else
                       lib.make_spec(rng, dim, shape, materials=mats), "aff": lib.gen_affine(rng, dim)})
    names = [n for n in problems.NAMES if dim in forms.FORMS[n]["dims"]]
    if big:
        names = [n for n in names if not n.startswith(HEAVY)]
    probs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        name = rng.choice(names)
        if probs and rng.random() < 0.5:  # one of the same kind, or its other implementation
            name = rng.choice([probs[0]["name"]] + [n for n in names if n.startswith(probs[0]["name"][:7])])
        fam = "BDM" if name.startswith("le_dual") else rng.choice(["RT", "BDM"])
        k = rng.choice([1, 2] if dim < 3 or not name.startswith(HEAVY) else [1, 1, 1, 1, 1, 1, 1, 2])
        if k == 2 and dim == 3 and name.startswith(HEAVY):
            if shape != (1, 1, 1):
                k = 1
            elif not name.startswith("lce_primal"):
                name, fam = name if name.endswith("_vec") else name + "_vec", "BDM" if name.startswith("le_") else "RT"
        if dim < 3 and name in ("laplace_dual", "degenerate", "unscaled") and fam == "RT" and rng.random() < 0.25:
            k = 3
        probs.append({"name": name, "fam": fam, "k": k, "mesh": rng.randrange(len(meshes)),
                      "tags": rng.sample([1, 11], 2) if mats == 2 else [1],
                      "btags": [2 + d for d in range(2 * dim)], "order": rng.sample(range(2 * dim), 2 * dim)})
    ops = []
    slow = dim == 3 and any(p["k"] == 2 and p["name"].startswith(HEAVY) for p in probs)
    for _ in range(1 if slow else rng.choice([1, 2, 2, 3, 4])):
        o = gen_solve(rng, probs, dim)
        r = rng.random()
        if r < 0.22:
            o["raise"] = {"call": int(2 ** rng.uniform(0, 8)), "kind": rng.choice(list(ERR))}
        elif r < 0.28:
            o["missing"] = rng.randrange(12)
        elif r < 0.45:
            o["async"] = lib.aim(rng, {"step": int(2 ** rng.uniform(0, 15)), "kind": rng.choice(["memory", "interrupt"])})
        if ops and rng.random() < 0.35:
            p = rng.choice(ops)
            o.update({k: p[k] for k in ("p", "coef", "kinds")})
        if rng.random() < 0.35:
            o["edit"] = [rng.choice(["move", "move", "respace", "rebuild"]), rng.randrange(len(probs)),
                         rng.randrange(len(STATES))]
        ops.append(o)
    return {"dim": dim, "meshes": meshes, "probs": probs, "ops": ops,
            "coefs": [[round(rng.uniform(-2, 2), 3) for _ in range(11)] for _ in range(2)],
            "clock": [[rng.randint(1, 8), rng.choice([-3600.0, 1e6])]] if rng.random() < 0.2 else []}


def gen_solve(rng, probs, dim):
    p = rng.randrange(len(probs))
    kinds = [rng.choice(["given", "given", "flux", "normal"]) for _ in range(2 * dim)]
    kinds[rng.randrange(2 * dim)] = "given"
    return {"p": p, "coef": rng.randrange(2), "kinds": kinds, "split": rng.choice([1, 1, 2, 3]),
            "reuse": rng.random() < 0.5, "flip": rng.random() < 0.3}


class Vectorized:
    """A form of which the caller chose the other implementation."""

    def __init__(self, form):
        self.form, self.space = form, form.space

    def evaluate_form(self, i, alpha):
        return self.form.evaluate_form_vectorized(i, alpha)


def make_space(sc, n, ms, flip=False):
    q, dim = sc["probs"][n], sc["dim"]
    fields = forms.FORMS[q["name"]]["fields"](dim, q["fam"], q["k"])
    bf = forms.boundary_fields(q["name"], fields)
    tags = {f: q["tags"][::-1] if flip else list(q["tags"]) for f in fields}
    btags = {f: [q["btags"][s] for s in q["order"]] for f in bf}
    return lib.make_space(ms[q["mesh"]], dim, fields, tags, btags), fields, bf


def frame(spec):
    P = np.array(spec["points"], float)
    return [float(v) for v in P.min(axis=0)], float((P.max(axis=0) - P.min(axis=0)).max())


def build(sc, tag):
    with lib.quiet():
        specs = [lib.map_spec(m["spec"], m["aff"]) for m in sc["meshes"]]
        ms = [lib.mesh_from_spec(s, f"{tag}{k}.msh") for k, s in enumerate(specs)]
        sps = [make_space(sc, n, ms) for n in range(len(sc["probs"]))]
    return {"ms": ms, "sps": sps, "frames": [frame(s) for s in specs], "start": [np.array(m.points) for m in ms],
            "kept": {}}


def edit(sc, w, e):
    kind, n, s = e
    k = sc["probs"][n]["mesh"]
    if kind == "move":
        b = np.array(w["frames"][k][0])
        w["ms"][k].points = b + (w["start"][k] - b) * np.array(STATES[s])
    else:
        with lib.quiet():
            w["sps"][n] = make_space(sc, n, w["ms"], flip=kind == "rebuild")
        w["kept"].pop(n, None)


def elements_of_side(sc, n, sp, bf):
    """Boundary elements by side."""
    out = [[] for _ in range(2 * sc["dim"])]
    for i, el in enumerate(sp.discrete_spaces[bf[0]].bc_elements):
        out[sc["probs"][n]["btags"].index(int(el.data.cell.material_id))].append(i)
    return out


def outward(sc, w, n, sp, bf, i):
    """Normal of a boundary element, away from the middle of the domain (which is convex)."""
    P = np.asarray(w["ms"][sc["probs"][n]["mesh"]].points, float)
    V = P[np.ravel(sp.discrete_spaces[bf[0]].bc_elements[i].data.cell.node_tags)]
    if sc["dim"] == 2:
        d = V[1] - V[0]
        nv = np.array([d[1], -d[0], 0.0])
    else:
        nv = np.cross(V[1] - V[0], V[2] - V[0])
    nv /= np.linalg.norm(nv)
    return nv if nv @ (V.mean(axis=0) - P.mean(axis=0)) > 0 else -nv


def posed(sc, w, o):
    """The problem, with what is given on each side: [(form, functions, boundary elements)]."""
    n, dim = o["p"], sc["dim"]
    q = sc["probs"][n]
    sp, fields, bf = w["sps"][n]
    pr = problems.problem(q["name"], dim, q["fam"], q["k"], sc["coefs"][o["coef"]], w["frames"][q["mesh"]])
    form, funs = pr.bcs["given"]
    L, pr.tol, pr.noise = w["frames"][q["mesh"]][1], 0.0, lambda L: 1e-15 * 1e12 * L / pr.size
    given, others = [], []
    for s, els in enumerate(elements_of_side(sc, n, sp, bf)):
        kind = o["kinds"][s] if len(pr.bcs) > 1 and els else "given"
        if kind == "given":
            given += els
            continue
        if "free" in pr.bcs:
            continue
        # planar side: one normal
        nv = outward(sc, w, n, sp, bf, els[0])

        def times(a, sign, nv=nv):
            return lambda x, y, z: np.array([sign * sum(c(x, y, z) * v for c, v in zip(r, nv)) for r in a])

        if "flux" in pr.bcs:
            pr.tol = 1e-4  # the penalty is large against the compliances
            others.append((pr.bcs["flux"][0], {"s": times(pr.stress, 1), "m": times(pr.couple, 1)}, els))
            continue
        others.append((pr.bcs["traction"][0], {"t": times(pr.stress, -1)}, els))
        # the rounding of an oblique normal, times the penalty, acts along the side: with stiff materials only
        if kind == "normal" and (pr.noise(L) < 1e-4 or np.sum(nv != 0.0) == 1):
            pr.tol += 30 * pr.noise(L) * bool(np.sum(nv != 0.0) > 1)
            others.append((pr.bcs["normal"][0], {"u": lambda x, y, z: np.array([c(x, y, z) for c in pr.exact["u"]])}, els))
    pr.sides = [(form, funs, given)] + others
    return pr


def assemble(sc, w, o, pr, wrap=None):
    """What a script does: forms, entities, the assembler; the matrix and the residual."""
    wrap = wrap or (lambda where, funs: dict(funs))
    n = o["p"]
    sp = w["sps"][n][0]
    size = sp.n_dof
    kept = w["kept"].get(n) if o["reuse"] else None
    if kept is None:
        A, r = lib.aij(size), np.zeros(size)
        kept = w["kept"][n] = (A, r, lib.SequentialAssembler(sp, A, r), {})
    A, r, asm, made = kept
    A.assemble()
    A.zeroEntries()
    r[:] = 0.0

    def form(key, name, funs):
        if key not in made:
            f = forms.make(name, sp, None)
            made[key] = (f, Vectorized(f) if name.endswith("_vec") else f)
        made[key][0].functions = funs
        return made[key][1]

    alpha = np.zeros(size)
    cells = list(range(len(next(iter(sp.discrete_spaces.values())).elements)))
    parts = [cells[j::o["split"]] for j in range(o["split"])]
    vol = form("volume", pr.form, wrap("volume", pr.volume))
    entries = [(f"cells {j}", ["form", p, vol, alpha]) for j, p in enumerate(parts)]
    for j, (name, funs, els) in enumerate(pr.sides):
        entries.append((f"sides {j}", ["bc_form", els, form((j, name), name, wrap(j, funs)), alpha]))
    if o["flip"]:
        entries.reverse()
    asm.form_to_input_list = dict(entries)
    with lib.quiet():
        asm.scatter_forms()
    A.assemble()
    ip, ix, v = A.getValuesCSR()
    return np.array(ip), np.array(ix), np.array(v), r.copy()


def fresh(sc, o, edits):
    w = build(sc, "ref")
    for e in edits:
        edit(sc, w, e)
    o = dict(o, reuse=False)
    return [q.tobytes() for q in assemble(sc, w, o, posed(sc, w, o))]


def solve(system):
    ip, ix, v, r = system
    K = scipy.sparse.csr_matrix((v, ix, ip), shape=(len(r), len(r)))
    top = np.ravel(abs(K).max(axis=1).toarray())
    check(bool(np.all(top > 0)) and bool(np.all(np.isfinite(v))) and bool(np.all(np.isfinite(r))), "singular-system",
          lambda: f"{int(np.sum(top == 0))} empty equations, {int(np.sum(~np.isfinite(v)))} entries are no numbers")
    d = scipy.sparse.diags(1 / np.sqrt(top))
    S = (d @ K @ d).tocsc()
    try:
        lu = scipy.sparse.linalg.splu(S)
    except RuntimeError as e:
        check(False, "singular-system", f"the assembled matrix: {e}")
    b = -(d @ r)
    x = lu.solve(b)
    x += lu.solve(b - S @ x)
    return d @ x


def compare(sc, w, o, pr, system, what):
    n, dim = o["p"], sc["dim"]
    q = sc["probs"][n]
    sp, fields, _ = w["sps"][n]
    mesh = w["ms"][q["mesh"]]
    P, L = np.asarray(mesh.points, float), w["frames"][q["mesh"]][1]
    x = solve(system)
    X, W = basix.make_quadrature({1: basix.CellType.interval, 2: basix.CellType.triangle,
                                  3: basix.CellType.tetrahedron}[dim], 2 * q["k"] + 3)
    cells = len(next(iter(sp.discrete_spaces.values())).elements)
    # the penalty leaves an error of (coefficient / size of a cell) / penalty
    h = L / max(1.0, cells ** (1.0 / dim))
    tol = pr.tol + (1e-6 if pr.dual else min(1e-3, 2e-6 + 3000.0 * max(pr.size, 1e-2) / (1e12 * h)))
    fields_of = [(x, f, e) for f, e in pr.exact.items()]
    if getattr(pr, "physical", None):
        K, r = np.zeros((len(x), len(x))), np.zeros(len(x))
        form = forms.make("scaled_to_physical", sp, {k: pr.volume[k] for k in ("porosity", "d_phi")})
        for i in range(cells):
            d = np.asarray(sp.destination_indexes(i))
            r_el, j_el = form.evaluate_form(i, np.zeros(len(d)), x[d])
            np.add.at(r, d, r_el)
            np.add.at(K, (d[:, None], d[None, :]), j_el)
        y = np.linalg.solve(K, -r)
        fields_of += [(y, f, e) for f, e in pr.physical.items()]
    for x, f, exact in fields_of:
        space, vec = sp.discrete_spaces[f], lib.is_vector(dim, fields[f]["fam"])
        err, size = 0.0, max(pr.scale[f], L if x is not fields_of[0][0] else 0.0)
        for i, el in enumerate(space.elements):
            V = P[np.ravel(el.data.cell.node_tags)]
            a = x[np.asarray(sp.destination_indexes(i, f))].reshape(-1, fields[f]["comp"])
            _, jac, det, inv = el.evaluate_mapping(X)
            phi = el.evaluate_basis(X, jac, det, inv)
            hh = np.einsum("jc,qjd->qcd", a, phi[0][:, :, :dim]) if vec else np.einsum("jc,qj->qc", a, phi[0][:, :, 0])
            e = problems.rows(exact, V[0] + X @ (V[1:] - V[0]))
            if not vec and e.ndim == 3:
                e = e[:, :, 0]
            d = hh - e
            if f in pr.averaged:
                d = np.einsum("q,qc,qj->cj", W, d, phi[0][:, :, 0])
            err, size = max(err, float(abs(d).max())), max(size, float(abs(e).max()))
        check(err <= tol * size, "not-the-solution",
              lambda: f"{what}: {f} is off by {err!r} (values up to {size!r}, tolerance {tol!r})")
        yield err / size / tol


def run(sc, ctx):
    w = must("building the spaces", build, sc, "m")
    edits, refs = [], {}
    sw = sched.world
    sw.on, sw.clock_faults = True, [tuple(c) for c in sc["clock"]]

    def snapshot():
        return ([lib.digest(lib.describe_mesh(m)) for m in w["ms"]], [lib.describe_space(s[0]) for s in w["sps"]])

    def reference(o):
        key = repr((o["p"], o["coef"], o["kinds"], o["split"], o["flip"], len(edits)))
        if key not in refs:
            st, out = lib.in_child(fresh, sc, o, list(edits))[:2]
            check(st == "ok", "fresh-assembly", lambda: f"assembling {o} in a fresh process: {out}")
            refs[key] = out
        return refs[key]

    first = snapshot()
    ctx.state(lib.digest([first[0], first[1]]))
    last = [{"p": n, "coef": 0, "kinds": ["given"] * 2 * sc["dim"], "split": 1, "reuse": True, "flip": False}
            for n in range(len(sc["probs"]))][-1:]
    for n, o in enumerate(sc["ops"] + last):
        if o.get("edit"):
            edit(sc, w, o["edit"])
            edits.append(o["edit"])
            ctx.probes[f"between assemblies: {o['edit'][0]}"] += 1
        before = snapshot()
        pr, q = posed(sc, w, o), sc["probs"][o["p"]]
        what = f"{q['name']} of order {q['k']} ({q['fam']}), assembly {n}"
        calls, hit, gone = [0], [], []

        def flaky(f):
            def g(*a):
                calls[0] += 1
                if calls[0] == o["raise"]["call"]:
                    hit.append(1)
                    raise ERR[o["raise"]["kind"]]("injected: user function failed")
                return f(*a)
            return g

        wrap = None
        if o.get("raise"):
            wrap = lambda where, funs: {k: flaky(f) for k, f in funs.items()}
        elif "missing" in o:
            names = [("volume", k) for k in pr.volume] + [(j, k) for j, s in enumerate(pr.sides)
                                                              for k in s[1] if s[2]]
            gone.append(names[o["missing"] % len(names)])
            wrap = lambda where, funs: {k: f for k, f in funs.items() if (where, k) != gone[0]}
        faults = [dict(o["async"], task=0)] if o.get("async") else []
        s = sched.Sched({"switches": []}, faults=faults, max_steps=20_000_000)
        t = s.run([("assemble", lambda: assemble(sc, w, o, pr, wrap))])[0]
        ctx.absorb(s)
        ctx.ops += 1
        ctx.faults["user function fails"] += bool(hit)
        ctx.faults["function not given"] += bool(gone)
        after = snapshot()
        check(after == before, "inputs-modified", lambda: f"assembly {n} ({o}) changed "
              f"{[q for q, a, b in zip(('mesh', 'space'), before, after) if a != b]}: {lib.first_diff(before[1], after[1])}")
        ctx.log(n, q["name"], type(t.exc).__name__, bool(hit),
                lib.digest([v.tobytes() for v in t.result]) if t.exc is None else None)
        ctx.state(n, q["name"], type(t.exc).__name__, bool(hit))
        if t.exc is not None:
            check(bool(s.fired) or bool(hit) or bool(gone), "unexpected-failure",
                  lambda: f"{what}: {type(t.exc).__name__}: {t.exc}")
            ctx.probes["assembly failed as injected"] += 1
            continue
        check(not hit, "failure-lost", f"a given function raised in {what}, yet it returned")
        check(not gone or gone[0][1] in pr.unread, "failure-lost",
              lambda: f"{what} returned although {gone[0]} is not given")
        with judging(what):
            worst = max(compare(sc, w, o, pr, t.result, what))
        ref = reference(o)
        check([v.tobytes() for v in t.result] == ref, "differs-from-fresh",
              lambda: f"{what}: the assembled system is not that of a fresh process")
        ctx.nontrivial = True
        ctx.probes[f"solved: {q['name']}"] += 1
        if len(pr.sides) > 1:
            ctx.probes["solved: tractions or normal displacements given"] += 1
        ctx.probes["error above a tenth of the tolerance"] += bool(worst > 0.1)
    ctx.faults["clock jump"] += sum(1 for q, _ in sw.clock_faults if q <= sw.clock_reads)
    sw.on = False


def simplify(sc):
    one = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    for k, m in enumerate(sc["meshes"]):
        if m["aff"]["A"] != one:
            yield dict(sc, meshes=[dict(q, aff={"A": one, "b": [0.0, 0.0, 0.0]}) if j == k else q
                                   for j, q in enumerate(sc["meshes"])])
    if sc["clock"]:
        yield dict(sc, clock=[])
    for k, o in enumerate(sc["ops"]):
        for drop in ("edit", "async", "raise", "missing"):
            if drop in o:
                yield dict(sc, ops=[{q: v for q, v in p.items() if q != drop} if j == k else p
                                    for j, p in enumerate(sc["ops"])])
        if any(v != "given" for v in o["kinds"]):
            yield dict(sc, ops=[dict(p, kinds=["given"] * len(p["kinds"])) if j == k else p
                                for j, p in enumerate(sc["ops"])])
