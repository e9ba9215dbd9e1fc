"""C13 - evaluating a weak form depends only on its inputs."""
import gc

import numpy as np

from sim import forms, lib, sched
from sim.runner import check, judging, must

ND = np.ndarray  # auto_diff replaces the name in numpy while it is active

ID = "C13"
TITLE = "Evaluating a weak form depends only on its inputs"
QUICK, THOROUGH = 1800, 60000
RULE = ("distinct digest of (meshes, forms, sequence of evaluations, other work and failures with their "
        "outcomes) among runs with at least two evaluations compared with a pristine process")
REAL = ["all weak forms in weak_forms", "auto_diff", "spaces", "basis", "mesh"]
STUB = ["user functions (failing, handing out one shared array)", "allocation failures inside a basis "
        "evaluation", "clock"]
ASSUMPTIONS = ["failures are raised by user functions or by a library call, not between two arbitrary lines: "
               "auto_diff restores numpy on leaving its context, where an interrupt cannot be survived",
               "forms that use auto_diff are evaluated by one thread at a time (auto_diff swaps numpy "
               "functions for the whole process)"]
LISTS = ["ops"]


def layouts(dim):
    """Form names that can share one space."""
    out = {}
    for n, f in forms.FORMS.items():
        if dim in f["dims"]:
            key = lib.digest([f["fields"](dim, "RT", 1), f["fields"](dim, "BDM", 2)])
            out.setdefault(key, []).append(n)
    return list(out.values())


def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 2, 2, 3])
    fam, k = rng.choice([("RT", 1), ("RT", 1), ("BDM", 1), ("RT", 2), ("BDM", 2)] if dim < 3 else
                        [("RT", 1), ("RT", 1), ("RT", 1), ("BDM", 1), ("RT", 2)])
    groups = layouts(dim)
    spaces, fs = [], []
    for s in range(rng.choice([1, 2, 2])):
        g = groups[rng.randrange(len(groups))]
        if s and rng.random() < 0.5:
            g = spaces[0]["group"]
        shape = {1: (rng.randint(2, 4),), 2: (rng.randint(1, 2), 1), 3: (1, 1, 1)}[dim]
        if rng.random() < 0.2:
            shape = {1: (rng.randint(8, 20),), 2: (3, 3), 3: (2, 1, 1)}[dim]
        if s and rng.random() < 0.6:  # another mesh of the same size: equal identifiers, other places
            shape = first
        first = shape
        spec = lib.make_spec(rng, dim, shape)
        aff = lib.gen_affine(rng, dim)
        sides = [2 + 2 * d + t for d in range(dim) for t in (0, 1)]
        spaces.append({"group": g, "spec": spec, "aff": aff, "layout": g[0],
                       "sides": rng.sample(sides, rng.randint(1, len(sides)))})
        for _ in range(rng.choice([1, 2, 2, 3])):
            fs.append({"form": rng.choice(g), "space": s, "funs": rng.randrange(2),
                       "shared": rng.random() < 0.3})
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        o = {"op": "eval", "f": rng.randrange(len(fs)), "e": rng.randrange(rng.choice([2, 6, 20])),
             "a": rng.choice([0, 0, 1, 2, 3])}
        if r < 0.3:
            o.update(op="fail", n=int(2 ** rng.uniform(0, 6)), where=rng.choice(["fun", "fun", "fun", "basis"]),
                     kind=rng.choice(["value", "zero", "memory", "interrupt", "stop", "exit"]))
        elif r < 0.4:
            o["op"] = rng.choice(["swap", "patch", "tick", "tick", "move"])
        elif r < 0.44:
            o["op"] = "remake"
        elif r < 0.48:
            o["op"] = "respace"
        elif r < 0.52:
            o["op"] = "norm"
        elif r < 0.6 and ops and ops[-1]["op"] == "eval":
            o = dict(ops[-1])
        if rng.random() < 0.3:
            o["scribble"] = True
        if rng.random() < 0.3:
            o["buffer"] = True
        seen = [q for q in ops if q["op"] == "eval"]
        if o["op"] in ("swap", "patch", "tick", "move") and seen and rng.random() < 0.8:
            # what was evaluated before is evaluated again after the change
            q = rng.choice(seen)
            ops += [dict(o, f=q["f"]), dict(q)]
            continue
        ops.append(o)
        if o["op"] == "fail" and rng.random() < 0.5:
            ops.append({"op": "eval", "f": o["f"], "e": rng.choice([o["e"], o["e"] + 1]), "a": o["a"]})
    if rng.random() < 0.5:  # the same evaluation before and after the rest
        ops.append(dict(next((o for o in ops if o["op"] == "eval"), {"op": "eval", "f": 0, "e": 0, "a": 0})))
    for s in spaces:
        del s["group"]
    return {"dim": dim, "fam": fam, "k": k, "spaces": spaces, "forms": fs, "ops": ops,
            "coefs": [lib.gen_coef(rng), lib.gen_coef(rng)], "alphas": rng.randrange(1 << 30)}


ERR = {"value": ValueError, "zero": ZeroDivisionError, "memory": MemoryError, "interrupt": KeyboardInterrupt,
       "stop": StopIteration, "exit": SystemExit}


def build(sc, s, name):
    q = sc["spaces"][s]
    dim = sc["dim"]
    fields = forms.FORMS[q["layout"]]["fields"](dim, sc["fam"], sc["k"])
    bf = forms.boundary_fields(q["layout"], fields)
    with lib.quiet():
        mesh = lib.mesh_from_spec(lib.map_spec(q["spec"], q["aff"]), name)
        sp = lib.make_space(mesh, dim, fields, {n: [1] for n in fields}, {n: q["sides"] for n in bf})
    return mesh, sp


def coefficients(sc, sp, a):
    if a == 3:
        return np.zeros(sp.n_dof)
    return np.random.default_rng(sc["alphas"] + a).uniform(-1, 1, sp.n_dof) * (10.0 ** -(a % 2))


def n_entities(name, sp):
    return min(len(s.bc_elements if forms.FORMS[name]["bc"] else s.elements)
               for n, s in sp.discrete_spaces.items()
               if not forms.FORMS[name]["bc"] or s.bc_elements)


def move(mesh):
    """Deformed in place, as a script does that follows a moving body."""
    mesh.points *= 1.25


def evaluate(sc, w, sp, f, e, a, buffers=None):
    e = e % n_entities(f["form"], sp)
    d = forms.dests(f["form"], sp, e)
    al = coefficients(sc, sp, a)[d]
    if buffers is not None:  # one array for all evaluations of this size
        b = buffers.setdefault(len(al), al)
        b[...] = al
        al = b
    keep = al.copy()
    extra = keep * 0.5 if f["form"] == "scaled_to_physical" else None
    r, j = forms.evaluate(f["form"], w, e, al, extra)
    return r, j, al, keep


def pristine(sc, fi, funs, e, a):
    f = sc["forms"][fi]
    mesh, sp = build(sc, f["space"], "ref.msh")
    for _ in range(sc["spaces"][f["space"]].get("moved", 0)):
        move(mesh)
    w = forms.make(f["form"], sp, forms.functions(f["form"], sc["dim"], sc["coefs"][funs]))
    with lib.quiet():
        r, j, _, _ = evaluate(sc, w, sp, f, e, a)
    return np.array(r), np.array(j)


class Watch:
    """User functions that may fail and notice being handed back changed arrays."""

    def __init__(self, choices, which, shared):
        self.left, self.err, self.calls, self.fired = None, None, 0, False
        self.given, self.pool, self.shared = [], {}, shared
        self.which = which  # state the functions read, like the time
        self.funs = {k: self._wrap(k, [c[k] for c in choices]) for k in choices[0]}
        self.plain = dict(self.funs)

    def take(self, table):
        """Enter these functions one by one into a table that is in use."""
        for k, f in self.plain.items():
            table[k] = f
        self.funs = table

    def _wrap(self, key, fs):
        def g(x, y, z):
            f = fs[self.which]
            self.calls += 1
            if self.left is not None:
                self.left -= 1
                if self.left == 0:
                    self.left, self.fired = None, True
                    raise self.err("injected: user function failed")
            out = f(x, y, z)
            if isinstance(out, ND):
                if self.shared:
                    # constant data are often handed out as one and the same array
                    k = (key, self.which, repr((np.asarray(x).tolist(), np.asarray(y).tolist(), np.asarray(z).tolist())))
                    out = self.pool.setdefault(k, out)
                if not any(o is out for o, _ in self.given):
                    self.given.append((out, out.copy()))
            return out
        return g

    def intact(self):
        return self.funs == self.plain and all(np.array_equal(a, b) for a, b in self.given)


def numpy_state():
    mods = [np, np.linalg]
    return ({(m.__name__, k): id(v) for m in mods for k, v in vars(m).items() if callable(v)},
            np.geterr(), np.get_printoptions())


def run(sc, ctx):
    dim = sc["dim"]
    world, names = [], []
    for s in range(len(sc["spaces"])):
        world.append(must("building the space", build, sc, s, f"m{s}.msh"))
    ref_np = numpy_state()
    digests = [(lib.digest(lib.describe_mesh(m)), lib.describe_space(sp)) for m, sp in world]
    ctx.state(digests[0][0], [f["form"] for f in sc["forms"]])
    live = []

    def watch(f):
        return Watch([forms.functions(f["form"], dim, c) for c in sc["coefs"]], f["funs_now"], f["shared"])

    def make(fi):
        f = sc["forms"][fi]
        wt = watch(f)
        w = forms.make(f["form"], world[f["space"]][1], wt.funs)
        return w, wt

    for fi, f in enumerate(sc["forms"]):
        f["funs_now"] = f["funs"]
        live.append(must("making a form", make, fi))
    want = {}
    compared = failures = 0

    def unchanged(what, fi):
        f = sc["forms"][fi]
        now = numpy_state()
        check(now[0] == ref_np[0] and now[1] == ref_np[1] and repr(now[2]) == repr(ref_np[2]), "numpy-modified",
              lambda: f"{what} left numpy changed: "
              f"{sorted(k for k in ref_np[0] if now[0].get(k) != ref_np[0][k])[:6]}")
        with judging("space after an evaluation"):
            m, sp = world[f["space"]]
            d = lib.describe_space(sp)
            ref = digests[f["space"]]
            check(d == ref[1], "space-modified", lambda: f"{what}: {lib.first_diff(ref[1], d)}")
            check(lib.digest(lib.describe_mesh(m)) == ref[0], "mesh-modified", what)
        w, wt = live[fi]
        check(wt.intact() and w.functions is wt.funs and w.space is world[f["space"]][1], "functions-modified",
              f"{what} changed the form's functions, space or the arrays they hand out")

    basis, buffers = [None, 0], {}
    evaluate_basis = lib.FiniteElement.evaluate_basis

    def flaky_basis(self, *a, **k):
        if basis[0] is not None:
            basis[1] -= 1
            if basis[1] == 0:
                e, basis[0] = basis[0], None
                live_watch[0].fired = True
                raise e("injected: allocation failed")
        return evaluate_basis(self, *a, **k)

    live_watch = [None]
    lib.FiniteElement.evaluate_basis = flaky_basis
    for n, o in enumerate(sc["ops"]):
        f = sc["forms"][o["f"]]
        ctx.ops += 1
        if o["op"] in ("swap", "patch", "tick"):
            w, wt = live[o["f"]]
            f["funs_now"] = 1 - f["funs_now"]
            if o["op"] == "tick":
                wt.which = f["funs_now"]
            else:
                nw = watch(f)
                if o["op"] == "patch":
                    nw.take(w.functions)
                else:
                    w.functions = nw.funs
                live[o["f"]] = (w, nw)
            ctx.log(o["op"], o["f"])
            ctx.probes["functions changed: " + o["op"]] += 1
            continue
        if o["op"] == "move":
            s = f["space"]
            move(world[s][0])
            sc["spaces"][s]["moved"] = sc["spaces"][s].get("moved", 0) + 1
            digests[s] = (lib.digest(lib.describe_mesh(world[s][0])), lib.describe_space(world[s][1]))
            for key in [k for k in want if sc["forms"][k[0]]["space"] == s]:
                del want[key]
            ctx.log("move", s)
            ctx.probes["mesh moved"] += 1
            continue
        if o["op"] == "remake":
            live[o["f"]] = None
            gc.collect()
            f["funs_now"] = 1 - f["funs_now"]
            live[o["f"]] = must("making a form", make, o["f"])
            ctx.log("remake", o["f"])
            continue
        if o["op"] == "respace":
            # a new mesh and space, perhaps where the old ones were
            s = f["space"]
            users = [k for k, g in enumerate(sc["forms"]) if g["space"] == s]
            world[s] = None
            for k in users:
                live[k] = None
            gc.collect()
            sc["spaces"][s]["aff"] = {"A": (np.array(sc["spaces"][s]["aff"]["A"]) * 2.0).tolist(),
                                      "b": sc["spaces"][s]["aff"]["b"]}
            sc["spaces"][s]["moved"] = 0
            world[s] = must("building the space", build, sc, s, f"m{s}-{n}.msh")
            digests[s] = (lib.digest(lib.describe_mesh(world[s][0])), lib.describe_space(world[s][1]))
            for k in users:
                live[k] = must("making a form", make, k)
            for key in [k for k in want if k[0] in users]:
                del want[key]
            ctx.log("respace", s)
            continue
        w, wt = live[o["f"]]
        sp = world[f["space"]][1]
        if o["op"] == "norm":
            q = sc["spaces"][f["space"]]
            fl = forms.FORMS[q["layout"]]["fields"](dim, sc["fam"], sc["k"])
            with lib.quiet():
                must("l2_error", lib.l2_error, dim, sp, lib.polys(dim, fl, sc["coefs"][0]),
                     coefficients(sc, sp, 0))
            ctx.log("norm", f["space"])
            continue
        wt.fired, live_watch[0] = False, wt
        if o["op"] == "fail":
            if o["where"] == "fun":
                wt.left, wt.err = o["n"], ERR[o["kind"]]
            else:
                basis[:] = [MemoryError, 1 + o["n"] % 6]
        out = exc = None
        what = f"evaluation {n} of {f['form']} on entity {o['e']} ({o['op']})"
        with lib.quiet():
            try:
                out = evaluate(sc, w, sp, f, o["e"], o["a"], buffers if o.get("buffer") else None)
            except BaseException as x:  # noqa: BLE001
                exc = x
        wt.left = basis[0] = None
        if wt.fired:
            ctx.faults["user function fails" if o["where"] == "fun" else "allocation fails in a basis"] += 1
            failures += 1
        ctx.log(n, o["op"], type(exc).__name__, wt.fired)
        ctx.state(n, f["form"], o["op"], type(exc).__name__, wt.fired)
        unchanged(what, o["f"])
        if exc is not None:
            check(wt.fired, "unexpected-failure", lambda: f"{what}: {type(exc).__name__}: {exc}")
            continue
        check(not wt.fired, "failure-lost", f"{what} returned although a call inside it failed")
        key = (o["f"], f["funs_now"], o["e"], o["a"])
        if key not in want:
            want[key] = lib.in_child(pristine, sc, *key)
        st, ref = want[key][:2]
        check(st == "ok", "fresh-evaluation", lambda: f"{what} in a fresh process: {ref}")
        r, j, al, keep = out
        with judging("result of an evaluation"):
            check(np.array_equal(al, keep), "coefficients-modified", what)
            for part, got, exp in (("residual", r, ref[0]), ("Jacobian", j, ref[1])):
                got = np.asarray(got)
                same = got.shape == exp.shape and got.dtype == exp.dtype and \
                    np.array_equal(got, exp, equal_nan=True)
                check(same, "depends-on-history",
                      lambda: f"{what}: {part} differs from a fresh process by "
                      f"{np.nanmax(np.abs(got - exp)) if got.shape == exp.shape else (got.shape, exp.shape)}")
        compared += 1
        ctx.probes["evaluation compared"] += 1
        ctx.probes["after a failed one"] += failures > 0
        if o.get("scribble"):
            # results and arguments belong to the caller
            for a in (r, j, al):
                if isinstance(a, ND) and a.flags.writeable:
                    a[...] = np.nan
            ctx.probes["results overwritten by the caller"] += 1
    lib.FiniteElement.evaluate_basis = evaluate_basis
    ctx.nontrivial = compared > 1


def simplify(sc):
    if len(sc["forms"]) > 1:
        used = {o["f"] for o in sc["ops"]}
        for k in range(len(sc["forms"])):
            if k not in used:
                c = dict(sc, forms=[f for j, f in enumerate(sc["forms"]) if j != k])
                c["ops"] = [dict(o, f=o["f"] - (o["f"] > k)) for o in sc["ops"]]
                yield c
    if len(sc["spaces"]) > 1 and not any(f["space"] == 1 for f in sc["forms"]):
        yield dict(sc, spaces=sc["spaces"][:1])
    for k, o in enumerate(sc["ops"]):
        if o["e"] or o["a"]:
            yield dict(sc, ops=[dict(p, e=0, a=0) if j == k else p for j, p in enumerate(sc["ops"])])
