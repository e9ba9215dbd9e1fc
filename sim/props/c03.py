"""C03 - assembly adds the contribution of every listed entity exactly once."""
import random

import numpy as np

from sim import lib, sched
from sim.runner import Violation, check, judging

ID = "C03"
TITLE = "assembly adds the contribution of every listed entity exactly once"
QUICK, THOROUGH = 1800, 150000
RULE = ("distinct digest of (space, forms with their entity sequences, calls, fault places and outcomes) among "
        "runs whose residual and matrix were compared with the dictionary model")
REAL = ["assembly.SequentialAssembler", "assembly.ScatterFormData", "spaces (index maps)", "PETSc matrix",
        "weak_forms.l2_projector_weak_form and laplace_dual_weak_form (some runs)"]
STUB = ["user weak forms with integer-valued contributions (sums are exact in any order)", "clock",
        "failures raised inside a weak form"]
ASSUMPTIONS = ["an evaluation fails by raising; an interrupt in the middle of adding one contribution is not simulated",
               "of the pair of coefficient vectors of time dependent forms the first is handed first, and alone "
               "to boundary forms, as the repository's examples rely on"]
LISTS = ["forms", "calls"]

KINDS = ("form", "bc_form", "interface_form", "bc_interface_form", "time_dependent_form",
         "time_dependent_bc_form")
ERR = {"value": ValueError, "memory": MemoryError, "interrupt": KeyboardInterrupt, "stop": StopIteration,
       "float": FloatingPointError, "exit": SystemExit, "generator": GeneratorExit}


@lib.renamed
def gen(rng, tier, i):
    dim = rng.choice([1, 2, 2, 2, 3])
    mats = rng.choice([1, 2])
    spec = lib.make_spec(rng, dim, materials=mats, interface=False)
    fields = lib.gen_fields(rng, dim, nmax=3, kcap=2)
    tags, btags = lib.gen_tags(rng, dim, fields, mats)
    sides = [2 + 2 * d + s for d in range(dim) for s in (0, 1)]
    if rng.random() < 0.8:
        for n in fields:
            btags[n] = list(sides) if n not in btags or not btags[n] or rng.random() < 0.5 else btags[n]
    forms = []
    for k in range(rng.randint(1, 5)):
        kind = rng.choice(KINDS)
        f = {"kind": kind, "seed": rng.randrange(1 << 30), "order": rng.choice(["up", "down", "shuffle", "some"]),
             "as": rng.choice(["list", "tuple", "array", "iter"]), "t": rng.choice([0.0, 0.5, 1.25, -2.0]),
             "fail": None, "real": kind == "form" and rng.random() < 0.15,
             "zero": rng.random() < 0.1}
        if rng.random() < 0.35 and not f["real"]:
            f["fail"] = {"n": int(2 ** rng.uniform(0, 4)), "kind": rng.choice(sorted(ERR))}
        forms.append(f)
    calls = [{"time": rng.random() < 0.5, "clear": rng.random() < 0.3,
              "perm": rng.randrange(1 << 20), "shift": rng.choice([None, None, None, 0, 3, 9]),
              "rebuild": rng.choice([None, None, None, 0, 1])} for _ in range(rng.choice([1, 1, 2, 3]))]
    tags2, btags2 = lib.gen_tags(rng, dim, fields, mats)
    if rng.random() < 0.5:
        btags2 = {n: list(sides) for n in fields}
    return {"dim": dim, "spec": spec, "fields": fields, "tags": tags, "btags": btags, "forms": forms,
            "calls": calls, "shift": rng.choice([0, 0, 0, 4]), "seed": rng.randrange(1 << 30),
            "start": rng.random() < 0.4, "resume": rng.choice([None, "rest", "rest", "again", "again"]),
            "tags2": tags2, "btags2": btags2, "keep": rng.random() < 0.5,
            "clock": [[rng.randint(1, 8), rng.choice([-3600.0, 1e6])] for _ in range(rng.choice([0, 0, 1, 2]))]}


class Injected(Exception):
    pass


class UserForm:
    """A user's weak form: contribution depends on entity, coefficients and time."""

    def __init__(self, space, f, k):
        self.space, self.f, self.k = space, f, k
        self.calls = 0
        self.fired = None
        self.plan = f["fail"]

    def _local(self, key, parts, t):
        a = np.concatenate([np.asarray(p, float) for p in parts[-1]]) if parts[-1] else np.zeros(0)
        n = len(a)
        rs = random.Random(f"{self.f['seed']}:{key}:{n}")
        c = np.array([rs.randint(-9, 9) for _ in range(n)], float)
        m = np.array([[rs.randint(-3, 3) for _ in range(n)] for _ in range(n)], float)
        J = m + np.diag(a)
        if self.f["zero"]:
            J[np.abs(J) < 3] = 0.0
        r = c + m @ a + 4.0 * t
        if len(parts) == 2:
            b = np.concatenate([np.asarray(p, float) for p in parts[0]])
            r = r + 3.0 * b
            J = J + np.outer(c, b)
        return r, J

    def _enter(self):
        self.calls += 1
        if self.plan and self.calls == self.plan["n"]:
            self.fired = self.plan["kind"]
            raise ERR[self.plan["kind"]]("injected: weak form failed")

    def evaluate_form(self, *a):
        self._enter()
        kind = self.f["kind"]
        if kind in ("form", "bc_form"):
            i, al = a
            return self._local(int(i), [[al]], 0.0)
        if kind == "time_dependent_form":
            i, al0, al, t = a
            return self._local(int(i), [[al0], [al]], t)
        if kind == "time_dependent_bc_form":
            i, al0, t = a
            return self._local(int(i), [[al0]], t)
        if kind == "interface_form":
            c, pair, als = a
            return self._local((int(c), int(pair[0]), int(pair[1])), [list(als)], 0.0)
        c, i, al = a
        return self._local((int(c), int(i)), [[al]], 0.0)


def pairs(sp, mesh, dim):
    """Facets with the positions of their neighbours in the space (own search)."""
    s = next(iter(sp.discrete_spaces.values()))
    own = {}
    for i, e in enumerate(s.elements):
        for q in np.ravel(e.data.cell.sub_cells_ids[dim - 1]):
            own.setdefault(int(q), []).append(i)
    inner = [(q, (v[0], v[1])) for q, v in sorted(own.items()) if len(v) == 2]
    outer = [(q, v[0]) for q, v in sorted(own.items()) if len(v) == 1]
    return inner, outer


def n_bc(sp):
    ns = [len(s.bc_elements) for s in sp.discrete_spaces.values() if len(s.bc_elements)]
    return min(ns) if ns else 0


def bc_ok(sp):
    """Boundary element i means the same facet in every field that has a boundary."""
    ids = [tuple(s.bc_element_ids) for s in sp.discrete_spaces.values() if len(s.bc_elements)]
    return len(set(ids)) == 1


def dest_of(sp, kind, ent):
    if kind in ("form", "time_dependent_form"):
        return [sp.destination_indexes(int(ent))]
    if kind in ("bc_form", "time_dependent_bc_form"):
        return [sp.bc_destination_indexes(int(ent))]
    if kind == "interface_form":
        return [sp.destination_indexes(int(q)) for q in ent[1]]
    return [sp.destination_indexes(int(ent[1]))]


def contribution(sp, form, f, ent, a0, a1):
    kind = f["kind"]
    ds = dest_of(sp, kind, ent)
    d = np.concatenate(ds)
    if f["real"]:
        r, J = form.evaluate_form(int(ent), a1[d])
        return d, r, J
    ref = UserForm(sp, dict(f, fail=None), 0)
    if kind in ("form", "bc_form"):
        out = ref.evaluate_form(ent, a1[d])
    elif kind == "time_dependent_form":
        out = ref.evaluate_form(ent, a0[d], a1[d], f["t"])
    elif kind == "time_dependent_bc_form":
        out = ref.evaluate_form(ent, a0[d], f["t"])
    elif kind == "interface_form":
        out = ref.evaluate_form(ent[0], ent[1], (a1[ds[0]], a1[ds[1]]))
    else:
        out = ref.evaluate_form(ent[0], ent[1], a1[d])
    return (d,) + tuple(out)


def run(sc, ctx):
    dim = sc["dim"]
    with lib.quiet():
        mesh = lib.mesh_from_spec(sc["spec"])
        sp = lib.make_space(mesh, dim, sc["fields"], sc["tags"], sc["btags"])
    sp.dof_shift = sc["shift"]

    def build(which):
        t, b = (sc["tags"], sc["btags"]) if which == 0 else (sc["tags2"], sc["btags2"])
        with lib.quiet():
            sp.build_structures({k: list(v) for k, v in t.items()}, {k: list(v) for k, v in b.items()})

    n = sp.n_dof
    if any(c["rebuild"] is not None for c in sc["calls"]):
        build(1)
        n = max(n, sp.n_dof)
        build(0)
    n += max([sc["shift"]] + [c["shift"] or 0 for c in sc["calls"]])
    rs = np.random.RandomState(sc["seed"] % (1 << 31))
    a0 = rs.randint(-20, 21, n).astype(float)
    a1 = rs.randint(-20, 21, n).astype(float)
    k0, k1 = a0.copy(), a1.copy()
    res, A = np.zeros(n), lib.aij(n)
    ref_r, ref_J = np.zeros(n), np.zeros((n, n))
    A.setUp()
    if sc["start"]:  # residual and matrix already hold something
        res += 7.0
        ref_r += 7.0
        for q in range(n):
            A.setValue(q, q, 5.0, addv=True)
            ref_J[q, q] += 5.0
    real_used = False
    forms = {}

    def entities():
        inner, outer = pairs(sp, mesh, dim)
        n_el = len(next(iter(sp.discrete_spaces.values())).elements)
        nb = n_bc(sp) if bc_ok(sp) else 0
        for k, f in enumerate(sc["forms"]):
            ents = {"form": list(range(n_el)), "time_dependent_form": list(range(n_el)),
                    "bc_form": list(range(nb)), "time_dependent_bc_form": list(range(nb)),
                    "interface_form": inner, "bc_interface_form": outer}[f["kind"]]
            if f["order"] == "down":
                ents = ents[::-1]
            elif f["order"] in ("shuffle", "some"):
                r = random.Random(f["seed"] + 1)
                ents = r.sample(ents, len(ents) if f["order"] == "shuffle" else (len(ents) + 1) // 2)
            forms[k][2] = ents

    for k, f in enumerate(sc["forms"]):
        if f["real"]:
            from weak_forms.l2_projector_weak_form import L2ProjectorWeakForm

            wf = L2ProjectorWeakForm(sp)
            wf.functions = lib.polys(dim, sc["fields"], [1.0, 0.5, -0.25, 2.0, 0.75, -1.0, 0.1])
            real_used = True
        else:
            wf = UserForm(sp, f, k)
        forms[k] = [f, wf, []]
    entities()
    d_sp, d_mesh = lib.digest(lib.describe_space(sp)), lib.digest(lib.describe_mesh(mesh))
    ctx.state(d_sp, sc["forms"], sc["calls"], sc["shift"])
    w = sched.world
    w.on, w.clock_faults = True, [tuple(c) for c in sc["clock"]]

    def same(r, J):
        got = lib.to_dense(A)
        if real_used:
            return np.allclose(res, r, rtol=1e-11, atol=1e-11 * (1 + np.abs(r).max(initial=0))) and \
                np.allclose(got, J, rtol=1e-11, atol=1e-11 * (1 + np.abs(J).max(initial=0)))
        return np.array_equal(res, r) and np.array_equal(got, J)

    def where(r, J):
        got = lib.to_dense(A)
        return (f"residual differs at {np.argwhere(~np.isclose(res, r)).ravel()[:5].tolist()}, matrix at "
                f"{np.argwhere(~np.isclose(got, J))[:5].tolist()}")

    def add(r, J, c):
        d, rl, Jl = c
        np.add.at(r, d, rl)
        np.add.at(J, (d[:, None], d[None, :]), Jl)

    def listed(todo):
        out = {}
        for k, ents in todo:
            f, wf, _ = forms[k]
            seq = {"list": list, "tuple": tuple, "iter": iter,
                   "array": lambda e: np.array(e) if e and not isinstance(e[0], tuple) else list(e)}[f["as"]](ents)
            out[f"form {k}"] = [f["kind"], seq, wf, (a0, a1), f["t"]] if "time" in f["kind"] else \
                [f["kind"], seq, wf, a1]
        return out

    asm = None
    try:
        for c, call in enumerate(sc["calls"]):
            if call["rebuild"] is not None:
                build(call["rebuild"])
                entities()
            if call["shift"] is not None:
                sp.dof_shift = call["shift"]
            if call["rebuild"] is not None or call["shift"] is not None:
                d_sp = lib.digest(lib.describe_space(sp))
                ctx.faults["space changed between assemblies"] += c > 0
            order = sorted(forms)
            random.Random(call["perm"]).shuffle(order)
            todo = [(k, forms[k][2]) for k in order]
            if call["clear"]:
                res[:] = 0.0
                A.assemble()
                A.zeroEntries()
                ref_r[:], ref_J[:] = 0.0, 0.0
            for attempt in range(8):
                for k in forms:
                    if not forms[k][0]["real"]:
                        forms[k][1].fired = None
                if asm is None or not sc["keep"]:
                    asm = lib.SequentialAssembler(sp, A, res)
                asm.form_to_input_list = listed(todo)
                exc = None
                try:
                    with lib.quiet():
                        asm.scatter_forms(measure_time_q=call["time"])
                except BaseException as e:  # noqa: BLE001
                    exc = e
                ctx.ops += 1
                fired = [(k, forms[k][1].fired) for k in forms
                         if not forms[k][0]["real"] and forms[k][1].fired]
                for k, q in fired:
                    ctx.faults[f"weak form:{q}"] += 1
                    forms[k][1].plan = None
                ctx.log("call", c, attempt, type(exc).__name__, fired)
                ctx.state(type(exc).__name__, fired)
                check(np.array_equal(a0, k0) and np.array_equal(a1, k1), "coefficients-modified",
                      f"call {c} changed a coefficient vector it was given")
                with judging("space after assembly"):
                    check(lib.digest(lib.describe_space(sp)) == d_sp, "space-modified", f"call {c}")
                    check(lib.digest(lib.describe_mesh(mesh)) == d_mesh, "mesh-modified", f"call {c}")
                flat = [(k, e) for k, ents in todo for e in ents]
                if exc is None:
                    check(not fired, "failure-lost", f"{fired} raised in a weak form, assembly returned normally")
                    for k, e in flat:
                        add(ref_r, ref_J, contribution(sp, forms[k][1], forms[k][0], e, k0, k1))
                    check(same(ref_r, ref_J), "wrong-sum", lambda: f"call {c} of {[f['kind'] for f in sc['forms']]}: "
                          + where(ref_r, ref_J))
                    ctx.nontrivial = ctx.nontrivial or bool(flat)
                    ctx.probes["sums compared"] += 1
                    ctx.probes["sums compared after a failure"] += attempt > 0
                    break
                check(fired, "unexpected-failure", lambda: f"call {c} raised {type(exc).__name__}: {exc}")
                # complete contributions of a leading part of the list, nothing else
                done = 0
                r, J = ref_r.copy(), ref_J.copy()
                bad_k = fired[0][0]
                while not same(r, J):
                    check(done < len(flat), "partial-contribution",
                          f"after the failure of form {bad_k} in call {c} the sums are not those of a leading "
                          f"part of the listed entities")
                    k, e = flat[done]
                    add(r, J, contribution(sp, forms[k][1], forms[k][0], e, k0, k1))
                    done += 1
                ref_r[:], ref_J[:] = r, J
                if not sc["resume"]:
                    break
                if sc["resume"] == "again":
                    # from the start, with everything cleared
                    res[:] = 0.0
                    A.assemble()
                    A.zeroEntries()
                    ref_r[:], ref_J[:] = 0.0, 0.0
                    ctx.probes["repeated after a failure"] += 1
                    continue
                # go on with the remaining entities
                left, todo2 = done, []
                for k, ents in todo:
                    todo2.append((k, ents[left:]))
                    left = max(0, left - len(ents))
                todo = todo2
                ctx.probes["resumed after a failure"] += 1
    finally:
        w.on = False
    ctx.faults["clock jump"] += sum(1 for n_, _ in w.clock_faults if n_ <= w.clock_reads)


def simplify(sc):
    for key, val in (("clock", []), ("shift", 0), ("start", False)):
        if sc[key]:
            yield dict(sc, **{key: val})
