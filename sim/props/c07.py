"""C07 - mesh generation writes a complete, correct mesh file or fails and can be retried."""
import itertools
import math
import os
import resource

import gmsh
import numpy as np

from geometry.fracture_network import FractureNetwork
from geometry.geometry_builder import GeometryBuilder
from mesh.discrete_domain import DiscreteDomain
from sim import lib
from sim.disk import disk
from sim.props.c10 import crossings, gen_lines, gen_planes
from sim.refmodel import parse_msh41
from sim.runner import Violation, check, judging
from topology.domain_market import (build_box_1D, build_box_2D, build_box_2D_with_lines, build_box_3D,
                                    build_box_3D_with_planes, create_md_box_2D)

ID = "C07"
TITLE = "Mesh generation writes a complete, correct mesh file or fails and can be retried"
QUICK, THOROUGH = 1500, 90000
RULE = ("distinct digest of (domain, mesher, sizes, faults that fired, outcomes) among runs where a fault took "
        "effect or a generated file was compared")
REAL = ["mesh.conformal_mesher", "mesh.discrete_domain", "mesh.msh_file", "topology.domain_market", "geometry",
        "gmsh kernel and writer", "real files under a real size limit"]
STUB = ["failing calls into gmsh (raised at the n-th call, before or after its effect)",
        "reads of the completeness check (errors and short reads)"]
ASSUMPTIONS = ["fractures are in general position", "point tags are judged only where the domain defines them "
               "uniquely (ends and crossings of embedded lines, ends of 1D domains)",
               "one gmsh session per process: a mesher whose session was replaced may refuse to write",
               "names end in .msh"]
LISTS = ["gens"]
SIDES = {1: 2, 2: 4, 3: 6}
EDITABLE = ("dom1", "dom2", "dom3", "b1", "b2", "b3")  # doubling the size is exact without crossings


# ------------------------------------------------------------------ geometry
def gen_frame(rng, dim):
    """Origin and edge vectors of the box."""
    s = rng.choice([1.0, 1.0, 2.0, 0.5, 10.0])
    o = [0.0, 0.0, 0.0] if rng.random() < 0.5 else [round(rng.uniform(-2, 2) * s, 2) for _ in range(3)]
    vec = []
    for k in range(dim):
        v = [0.0, 0.0, 0.0]
        v[k] = s * rng.choice([1.0, 1.0, 1.5, 0.75])
        vec.append(v)
    if dim > 1 and rng.random() < 0.3:  # skewed
        vec[1][0] = s * round(rng.uniform(-0.4, 0.4), 2)
    return {"o": o, "v": vec, "s": s}


def gen_obj(rng, kind=None):
    kind = kind or rng.choice(["dom1", "dom2", "dom2", "dom3", "lines", "lines", "planes", "md", "md", "b1", "b2", "b3",
                       "net", "net", "net"])
    dim = {"dom1": 1, "b1": 1, "dom3": 3, "b3": 3, "planes": 3}.get(kind, 2)
    o = {"kind": kind, "dim": dim, "frame": gen_frame(rng, dim), "tags": None, "fr": []}
    if kind == "b3":
        o["frame"]["v"][1][0] = 0.0
    names = {1: "line", 2: "area", 3: "volume" if kind == "b3" else "solid"}
    if rng.random() < 0.4:
        keys = [names[dim]] + [f"bc_{k}" for k in range(SIDES[dim])]
        o["tags"] = dict(zip(keys, rng.sample(range(1, 10), len(keys))))
    if kind in ("lines", "net"):
        o["fr"] = gen_lines(rng, rng.randint(1, 3))
    elif kind == "md":
        o["frame"]["v"][1][0] = 0.0
        o["fr"] = gen_lines(rng, rng.randint(1, 3))
        if rng.random() < 0.5:
            o["ftags"] = dict(zip(["line", "internal_bc", "point"], rng.sample(range(20, 400), 3)))
    elif kind == "planes":
        o["fr"] = gen_planes(rng, rng.randint(1, 2))
        o["frame"] = {"o": [0.0] * 3, "v": np.eye(3).tolist(), "s": 1.0}
    if kind == "net":
        o["shift"] = rng.choice([10, 10, 12, 30])
    return o


def gen(rng, tier, i):
    objs = [gen_obj(rng)]
    if rng.random() < 0.5:
        objs.append(gen_obj(rng, objs[0]["kind"] if rng.random() < 0.6 else None))
    gens = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        k = rng.randrange(len(objs))
        dim, kind = objs[k]["dim"], objs[k]["kind"]
        g = {"obj": k, "lc": rng.choice({1: [0.05, 0.2, 0.3, 0.5, 2.0], 2: [0.2, 0.3, 0.3, 0.5, 1.0],
                                         3: [0.5, 0.7, 1.0]}[dim]),
             "nref": rng.choice([0, 0, 0, 1, 2] if dim < 3 else [0, 0, 0, 1]),
             "disc": kind == "md" or (kind in ("dom1", "dom2") and rng.random() < 0.4),
             "again": rng.random() < 0.5, "name": rng.choice(["a.msh", "a.msh", "b.msh", "sub/c.msh"]),
             "fault": None}
        if kind == "planes":
            g["lc"], g["nref"] = rng.choice([0.5, 1.0]), 0
        if kind == "md" and rng.random() < 0.3:
            g["curves"] = {"n_points": rng.randint(3, 8), "coef": rng.choice([0.1, 0.3, 0.7])}
        r = rng.random()
        if r < 0.35:
            g["fault"] = {"op": "call", "n": int(2 ** rng.uniform(0, 6)), "when": rng.choice(["before", "after"]),
                          "exc": rng.choice(["memory", "gmsh", "interrupt"]),
                          "only": rng.choice([None, None, "write", "generate", "finalize", "embed", "Physical",
                                              "initialize", "synchronize", "refine", "add"])}
            if g["fault"]["only"]:
                g["fault"]["n"] = rng.choice([1, 1, 1, 2, 3, 4])
        elif r < 0.55:
            g["fault"] = {"op": "limit", "at": rng.choice([rng.random(), 1 - 0.02 * rng.random(), 0.0]),
                          "from": rng.choice(["start", "write"])}
        elif r < 0.65:
            g["fault"] = {"op": "path", "kind": rng.choice(["nodir", "isdir", "nofile"])}
        elif r < 0.7:
            g["fault"] = {"op": "read", "at": rng.random()}
        elif r < 0.74:
            g["fault"] = {"op": "short", "max": rng.choice([1, 7, 100])}
        elif r < 0.82:
            g["fault"] = {"op": "bad", "kind": rng.choice(["disc3", "nodomain", "duplicate", "crossed"])}
        elif r < 0.86:
            g["fault"] = {"op": "session", "kind": rng.choice(["open", "model", "options"])}
        g["retry"] = rng.choice(["none", "write", "same", "new"])
        g["reassign"] = rng.random() < 0.5
        if kind in EDITABLE and rng.random() < 0.25:
            g["edit"] = rng.choice(["scale", "retag"])
        gens.append(g)
    return {"objs": objs, "gens": gens}


def place(fr, p):
    return [fr["o"][c] + sum(p[k] * fr["v"][k][c] for k in range(len(fr["v"]))) for c in range(3)]


def corners(o):
    u = {1: [[0], [1]], 2: [[0, 0], [1, 0], [1, 1], [0, 1]],
         3: [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}[o["dim"]]
    return np.array([place(o["frame"], p) for p in u], float)


def fractures(o):
    if o["kind"] == "planes":
        return np.array(o["fr"], float).reshape(-1, 4, 3)
    return np.array([[place(o["frame"], f[0:2]), place(o["frame"], f[3:5])] for f in o["fr"]], float)


def default_tags(o):
    if o["tags"]:
        return o["tags"]
    names = {1: "line", 2: "area", 3: "volume" if o["kind"] == "b3" else "solid"}
    return dict(zip([names[o["dim"]]] + [f"bc_{k}" for k in range(SIDES[o["dim"]])],
                    range(1, 8)))


def make(o):
    """The input object users build."""
    box, kind = corners(o), o["kind"]
    with lib.quiet():
        if kind == "dom1":
            return build_box_1D(box, o["tags"])
        if kind == "dom2":
            return build_box_2D(box, o["tags"])
        if kind == "dom3":
            return build_box_3D(box, o["tags"])
        if kind == "md":
            return create_md_box_2D(box, o["tags"], fractures(o), o.get("ftags"))
        if kind in ("lines", "planes"):
            lib.in_file("fr.csv", "".join(",".join(repr(float(v)) for v in f.ravel()) + "\n"
                                          for f in fractures(o)).encode())
            return (build_box_2D_with_lines if kind == "lines" else build_box_3D_with_planes)(
                box, "fr.csv", o["tags"])
        b = GeometryBuilder(dimension=o["dim"])
        if o["tags"]:
            b.set_physical_tags(o["tags"])
        {1: b.build_box_1D, 2: b.build_box_2D, 3: b.build_box}[o["dim"]](box)
        b.build_grahp()
        if kind != "net":
            return b
        n = FractureNetwork(dimension=2, physical_tag_shift=o["shift"])
        n.intersect_1D_fractures(fractures(o))
        n.build_grahp(all_fixed_d_cells_q=True)
        return b, n


def describe_shape(s):
    return (s.dimension, s.tag, s.physical_tag, s.composite,
            np.asarray(s.point).tolist() if s.dimension == 0 else None,
            [b.tag for b in s.boundary_shapes], [b.tag for b in s.immersed_shapes])


def describe(x):
    """Everything a user sees of a domain, geometry or network."""
    if isinstance(x, tuple):
        return [describe(q) for q in x]
    if hasattr(x, "shapes"):
        return [x.dimension, [[describe_shape(s) for s in ss] for ss in x.shapes]]
    return [x.dimension, np.asarray(x.points).tolist(),
            [(c.dimension, c.id, c.point_id, c.physical_tag, [b.id for b in c.boundary_cells],
              [b.id for b in c.immersed_cells]) for c in x.cells],
            sorted(map(repr, x.graph.nodes())), sorted(map(repr, x.graph.edges()))]


def edit(o, x, kind):
    """What a user does to a domain or geometry between generations; returns the new description."""
    f = o["frame"]
    t = default_tags(o)
    if kind == "scale":
        o = dict(o, frame={"o": [2 * q for q in f["o"]], "v": [[2 * q for q in v] for v in f["v"]], "s": 2 * f["s"]})
    else:
        o = dict(o, tags={k: v + 10 for k, v in t.items()})
    if o["kind"].startswith("b"):
        if kind == "scale":
            x.points = np.array(x.points) * 2
        for c in x.cells:
            if kind == "retag" and c.physical_tag is not None:
                c.physical_tag += 10
        return o
    for ss in x.shapes:
        for q in ss:
            if kind == "scale" and q.dimension == 0:
                q.point = np.array(q.point) * 2
            elif kind == "retag" and q.physical_tag is not None:
                q.physical_tag += 10
    return o


def mesher_for(o, x, g, m=None):
    """A new mesher, or m given other work."""
    if g["disc"]:
        m = m or DiscreteDomain(dimension=o["dim"])
        m.domain = x
        return m
    m = m or lib.ConformalMesher(dimension=o["dim"])
    if o["kind"] in ("b1", "b2", "b3"):
        m.set_geometry_builder(x)
        m.set_fracture_network(None)
    elif o["kind"] == "net":
        m.set_geometry_builder(x[0])
        m.set_fracture_network(x[1])
    else:
        m.domain = x
    return m


def generate(o, m, g):
    lc = g["lc"] * o["frame"]["s"]
    with lib.quiet():
        if g["disc"]:
            args = {"lc": lc, "n_refinements": g["nref"]}
            if g.get("curves"):
                args["curves_refinement"] = ([ftags(o)["line"]], dict(g["curves"], meshType="Bump"))
            m.generate_mesh(args)
        elif o["kind"] in ("b1", "b2", "b3", "net"):
            m.set_points()
            m.generate(lc, g["nref"])
        else:
            m.generate_from_domain(lc, g["nref"])


def ftags(o):
    return o.get("ftags") or {"line": 100, "internal_bc": 200, "point": 300}


# ------------------------------------------------------------------ reference
def expected(o):
    """{(dim, tag): pieces} of the domain, and the exactly defined point tags."""
    fr, d = o["frame"], o["dim"]
    og, v = np.array(fr["o"], float), np.array(fr["v"], float)
    t = default_tags(o)
    pieces, pts = {}, {}
    add = lambda k, tag, a, vec: pieces.setdefault((k, tag), []).append((a, np.atleast_2d(vec)))  # noqa: E731
    add(d, t[{1: "line", 2: "area", 3: "volume" if o["kind"] == "b3" else "solid"}[d]], og, v)
    box = corners(o)
    if d == 1:
        for k in (0, 1):
            pts[t[f"bc_{k}"]] = [box[k]]
    elif d == 2:
        for k in range(4):
            add(1, t[f"bc_{k}"], box[k], [box[(k + 1) % 4] - box[k]])
    else:
        pass  # which tag names which side of a 3D box: see sides3d
    F = fractures(o)
    top = max(t.values())
    if o["kind"] == "lines":
        for k, f in enumerate(F):
            add(1, top + 1 + k, f[0], [f[1] - f[0]])
    elif o["kind"] == "planes":
        for k, f in enumerate(F):
            add(2, top + 1 + k, f[0], [f[1] - f[0], f[3] - f[0]])
    elif o["kind"] == "md":
        q = ftags(o)
        for f in F:
            add(1, q["line"], f[0], [f[1] - f[0]])
        pts[q["internal_bc"]] = [p for f in F for p in f]
        x = [place(fr, p) for p in crossings(o["fr"])]
        if x:
            pts[q["point"]] = x
    elif o["kind"] == "net":
        for k, f in enumerate(F):
            add(1, o["shift"] + k, f[0], [f[1] - f[0]])
            pts[o["shift"] + k] = [f[0], f[1]]
        for j, a in enumerate(o["fr"]):
            for k in range(j):
                x = crossings([a, o["fr"][k]])
                if x:
                    m, n = o["shift"] + k, o["shift"] + j  # Szudzik pairing of n > m
                    pts[n * n + m] = [place(fr, x[0])]
    return pieces, pts


def measure(M):
    M = np.atleast_2d(M)
    return math.sqrt(max(0.0, np.linalg.det(M @ M.T))) / 1.0


def sides3d(o):
    og, v = np.array(o["frame"]["o"], float), np.array(o["frame"]["v"], float)
    out = []
    for k in range(3):
        rest = [v[q] for q in range(3) if q != k]
        out += [(og, np.array(rest)), (og + v[k], np.array(rest))]
    return out


def inside(P, piece, tol):
    a, M = piece
    c, *_ = np.linalg.lstsq(M.T, (P - a).T, rcond=None)
    return (np.abs(a + (M.T @ c).T - P).max(axis=1) <= tol) & (c.min(axis=0) > -1e-7) & (c.max(axis=0) < 1 + 1e-7)


def check_file(o, g, data, base):
    """The generated file is a conforming mesh of the requested domain."""
    got = parse_msh41(data.decode("ascii"))
    check(got is not None, "incomplete-file", lambda: f"{len(data)} bytes are no complete MSH 4.1 file")
    pts, simp = got
    P, d, s = np.array(pts, float), o["dim"], o["frame"]["s"]
    tol = 1e-7 * s * (1 + np.abs(P).max() / s)
    pieces, tagged_points = expected(o)
    t = default_tags(o)
    group = {}
    for n, tag in simp:
        group.setdefault((len(n) - 1, tag), []).append(n)
    if d == 3:
        # every side carries one of the side tags, and each tag one side
        left = sides3d(o)
        for k in range(6):
            key = (2, t[f"bc_{k}"])
            check(key in group, "missing-side", lambda: f"no face carries tag {key[1]} (bc_{k})")
            Q = P[np.unique(group[key])]
            fit = [q for q in left if inside(Q, q, tol).all()]
            check(len(fit) == 1, "wrong-side", lambda: f"faces with tag {key[1]} fill no single free side of the box")
            left = [q for q in left if q is not fit[0]]
            pieces[key] = [fit[0]]
    want = set(pieces)
    check({k for k in group if k[0] > 0} == want, "wrong-tags",
          lambda: f"(dimension, tag) in the file {sorted(k for k in group if k[0] > 0)}, domain {sorted(want)}")
    for key, pc in pieces.items():
        el = np.array(group[key])
        check(len({frozenset(e) for e in el.tolist()}) == len(el), "duplicate-cells", lambda: f"{key}: {len(el)}")
        tot, n = 0.0, key[0]
        for e in el:
            m = measure(P[e[1:]] - P[e[0]]) / math.factorial(n)
            check(m > 1e-14 * s ** n, "degenerate-cell", lambda: f"{key}: {e.tolist()} has measure {m}")
            tot += m
        ref = sum(measure(q[1]) for q in pc)
        check(abs(tot - ref) < 1e-8 * ref, "wrong-measure", lambda: f"(dimension, tag) {key}: {tot}, domain {ref}")
        mid = P[el].mean(axis=1)
        for X in (P[np.unique(el)], mid):
            ok = np.zeros(len(X), bool)
            for q in pc:
                ok |= inside(X, q, tol)
            check(ok.all(), "wrong-place", lambda: f"{key}: points {X[~ok][:2].tolist()} are not on the domain's shape")
    for tag, where in tagged_points.items():
        el = [n for n in group.get((0, tag), [])]
        X = P[[n[0] for n in el]].reshape(-1, 3)
        W = np.array(where, float)
        check(len(X) == len(W) and all(np.abs(X - w).max(axis=1).min() <= tol for w in W), "wrong-point-tags",
              lambda: f"points with tag {tag}: {X.tolist()}, domain {W.tolist()}")
    # conformity: inner facets are shared by two cells, the others are exactly the tagged sides
    cells = group[[k for k in group if k[0] == d][0]]
    count = {}
    for c in cells:
        for f in itertools.combinations(c, d):
            f = frozenset(f)
            count[f] = count.get(f, 0) + 1
    check(max(count.values()) <= 2, "not-conforming", "a facet is shared by more than two cells")
    outer = {f for f, n in count.items() if n == 1}
    if d == 1:
        side = {frozenset(n) for k in (0, 1) for n in group.get((0, t[f"bc_{k}"]), [])}
    else:
        side = {frozenset(n) for k in range(SIDES[d]) for n in group[(d - 1, t[f"bc_{k}"])]}
    check(outer == side, "side-left-out", lambda: f"{len(outer - side)} outer facets without a side tag, "
          f"{len(side - outer)} tagged sides inside")
    for key in pieces:
        if key[0] == d - 1:
            check(all(frozenset(n) in count for n in group[key]), "not-conforming",
                  lambda: f"{key}: elements that are no facet of a cell")
    used = {q for c in cells for q in c}
    check(len(used) == len(P), "stray-points", lambda: f"{len(P) - len(used)} points belong to no cell")
    if base:
        check(len(cells) == base * 2 ** (d * g["nref"]), "wrong-refinement",
              lambda: f"{len(cells)} cells after {g['nref']} refinements of {base}")
    if not o["fr"] and (d < 3 or not g["nref"]):  # the refinement of a tetrahedron has a longer diagonal
        lc = g["lc"] * s
        E = np.array([np.linalg.norm(P[a] - P[b]) for c in cells for a, b in itertools.combinations(c, 2)])
        E = E * 2 ** g["nref"]
        check(E.max() < 3 * lc, "too-coarse", lambda: f"longest edge {E.max()} for a mesh size {lc}")
        ext = max(np.linalg.norm(q) for q in o["frame"]["v"])
        check(E.mean() > 0.3 * min(lc, ext), "too-fine", lambda: f"mean edge {E.mean()} for a mesh size {lc}")


def fresh(o, g):
    """File of this generation as the first work of a process, judged."""
    x = make(o)
    base = None
    if g["nref"]:
        g0 = dict(g, nref=0)
        m = mesher_for(o, x, g0)
        generate(o, m, g0)
        m.write_mesh("ref0.msh")
        with open("ref0.msh") as f:
            base = sum(1 for n, _ in parse_msh41(f.read())[1] if len(n) - 1 == o["dim"])
        os.unlink("ref0.msh")
        x = make(o)
    m = mesher_for(o, x, g)
    generate(o, m, g)
    refused = None
    try:
        m.write_mesh("ref.msh")
    except ValueError as e:  # gmsh may lose an embedded shape: then there is nothing to write
        refused = e
        gmsh.write("ref.msh")
    with open("ref.msh", "rb") as f:
        data = f.read()
    os.unlink("ref.msh")
    if refused is not None:
        try:
            check_file(o, g, data, base)
        except Violation:
            return None, None
        return None, ("refused-good-mesh", f"{refused}")
    try:
        with judging("generated mesh"):
            check_file(o, g, data, base)
    except Violation as v:
        return data, (v.cls, v.detail)
    return data, None


# ------------------------------------------------------------------ faults
class FailingCalls:
    """The n-th call into gmsh fails, before or after it took effect."""

    def __init__(self, fault, counter):
        self.f, self.fired, self.calls, self.saved = fault, counter, 0, []
        self.hit = False

    def wrap(self, owner, name):
        fn = getattr(owner, name)

        def call(*a, **k):
            f = self.f
            if f["only"] is None or f["only"] in name:
                self.calls += 1
                if self.calls == f["n"]:
                    if f["when"] == "after":
                        fn(*a, **k)
                    self.hit = True
                    self.fired["gmsh call fails: " + f["exc"]] += 1
                    raise {"memory": MemoryError, "gmsh": Exception, "interrupt": KeyboardInterrupt}[f["exc"]](
                        f"injected at {name}")
            return fn(*a, **k)

        self.saved.append((owner, name, owner.__dict__[name]))
        setattr(owner, name, staticmethod(call) if isinstance(owner, type) else call)

    def __enter__(self):
        for owner in (gmsh, gmsh.option, gmsh.model, gmsh.model.geo, gmsh.model.geo.mesh, gmsh.model.occ,
                      gmsh.model.occ.mesh, gmsh.model.mesh):
            for name, v in list(vars(owner).items()):
                if name.startswith("_") or isinstance(v, type) or not (isinstance(v, staticmethod) or
                                                                       (owner is gmsh and callable(v))):
                    continue
                if owner is gmsh and name not in ("initialize", "finalize", "write", "isInitialized", "clear"):
                    continue
                if name in ("isInitialized",):
                    continue
                self.wrap(owner, name)
        return self

    def __exit__(self, *exc):
        for owner, name, v in reversed(self.saved):
            setattr(owner, name, v)
        return False


class NoDescriptors:
    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_NOFILE)
        top = max(int(q) for q in os.listdir("/proc/self/fd"))
        self.fill = []
        resource.setrlimit(resource.RLIMIT_NOFILE, (top + 1, self.old[1]))
        try:
            while True:
                self.fill.append(os.open(os.devnull, os.O_RDONLY))
        except OSError:
            pass

    def __exit__(self, *exc):
        for fd in self.fill:
            os.close(fd)
        resource.setrlimit(resource.RLIMIT_NOFILE, self.old)
        return False


class Nothing:
    hit = False

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


def bad_work(kind, o, x):
    """Work that cannot succeed."""
    if kind == "nodomain":
        m = lib.ConformalMesher(dimension=2)
        m.generate_from_domain(0.5)
    elif kind == "disc3":
        m = DiscreteDomain(dimension=3)
        m.domain = build_box_3D(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1],
                                          [1, 1, 1], [0, 1, 1]], float))
        m.generate_mesh({"lc": 1.0})
    elif kind == "duplicate":
        b = GeometryBuilder(dimension=2)
        b.set_physical_tags({"area": 1, "bc_0": 2, "bc_1": 2, "bc_2": 4, "bc_3": 5})
        b.build_box_2D(np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], float))
        m = lib.ConformalMesher(dimension=2)
        m.set_geometry_builder(b)
        m.set_points()
        m.generate(0.5)
    else:  # a second generation replaces the session of the first
        m = lib.ConformalMesher(dimension=1)
        m.domain = build_box_1D(np.array([[0, 0, 0], [1, 0, 0]], float))
        m.generate_from_domain(0.5)
        q = lib.ConformalMesher(dimension=1)
        q.domain = build_box_1D(np.array([[0, 0, 0], [3, 0, 0]], float))
        q.generate_from_domain(0.5)
        m.write_mesh("first.msh")


def user_session(kind):
    if gmsh.isInitialized():
        gmsh.finalize()
    gmsh.initialize()
    if kind == "model":
        gmsh.model.add("mine")
        gmsh.model.geo.addPoint(0, 0, 0, 0.1, 1)
        gmsh.model.geo.addPoint(1, 0, 0, 0.1, 2)
        gmsh.model.geo.addLine(1, 2, 1)
        gmsh.model.geo.synchronize()
        gmsh.model.addPhysicalGroup(1, [1], 7)
    elif kind == "options":
        gmsh.option.setNumber("Mesh.MeshSizeFactor", 0.5)
        gmsh.option.setNumber("Mesh.ElementOrder", 2)
        gmsh.option.setNumber("Mesh.MshFileVersion", 2.2)
        gmsh.option.setNumber("Mesh.Algorithm", 5)


# ------------------------------------------------------------------ run
def run(sc, ctx):
    os.mkdir("sub")
    specs = list(sc["objs"])
    objs = [make(o) for o in specs]
    before = [lib.digest(describe(x)) for x in objs]
    refs, meshers = {}, {}

    def reference(g):
        o = specs[g["obj"]]
        key = lib.digest((o, g["lc"], g["nref"], g["disc"], g.get("curves")))
        if key not in refs:
            out = lib.in_child(fresh, o, g)
            check(out[0] == "ok", "fresh-generation", lambda: f"{o['kind']} in a fresh process: {out[1:]}")
            data, bad = out[1]
            if bad:
                raise Violation(bad[0], f"{o['kind']}, mesher {'discrete' if g['disc'] else 'conformal'}, "
                                f"lc {g['lc']}: {bad[1]}")
            refs[key] = data
            ctx.probes["file judged: " + o["kind"] if data else "no conforming mesh from gmsh"] += 1
        return refs[key]

    def attempt(g, fault, m=None, write_only=False):
        """One generate and write; returns (exception or None, mesher, phase)."""
        o, x = specs[g["obj"]], objs[g["obj"]]
        name, phase = g["name"], "generate"
        ref = reference(g)
        fault = fault if ref is not None else None
        calls = FailingCalls(fault, ctx.faults) if fault and fault["op"] == "call" else Nothing()
        plan, n0 = [], sum(ctx.faults.values())
        fds = Nothing()
        if fault and fault["op"] == "path":
            if fault["kind"] == "nodir":
                name = "nowhere/" + os.path.basename(name)
            elif fault["kind"] == "isdir":
                name = "dir.msh"
                os.makedirs(name, exist_ok=True)
            else:
                fds = NoDescriptors()
        elif fault and fault["op"] == "read":
            plan = [{"op": "read", "n": 1, "at": int(fault["at"] * len(ref))}]
        elif fault and fault["op"] == "short":
            plan = [{"op": "short", "n": 1, "max": fault["max"]}]
        lim = int(fault["at"] * len(ref)) if fault and fault["op"] == "limit" else None
        from sim.disk import limit

        try:
            with disk(plan, ctx.tmp, ctx.faults), calls:
                if lim is not None and fault["from"] == "start":
                    limit(lim)
                if m is None:
                    m = mesher_for(o, x, g)
                if not write_only:
                    generate(o, m, g)
                phase = "write"
                if lim is not None:
                    limit(lim)
                with lib.quiet(), fds:
                    m.write_mesh(name)
                phase = "done"
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            exc = e
        else:
            exc = None
        finally:
            limit(None)
        if lim is not None and exc is not None:
            ctx.faults["disk full"] += 1
        if fault and fault["op"] == "path" and exc is not None:
            ctx.faults["path: " + fault["kind"]] += 1
        fired = sum(ctx.faults.values()) > n0
        ctx.ops += 1
        ctx.nontrivial = True
        ctx.log("gen", o["kind"], phase, type(exc).__name__, fired)
        ctx.state(o["kind"], g["disc"], g["lc"], g["nref"], phase, type(exc).__name__, fired, fault, write_only)
        if ref is None:
            check(exc is not None, "wrong-file", lambda: f"{o['kind']}: write_mesh returned, a fresh process refuses")
        elif exc is None:
            check(os.path.isfile(name), "missing-file", lambda: f"write_mesh returned without writing {name}")
            with open(name, "rb") as f:
                data = f.read()
            # a disk that filled up on the final line feed took nothing from the content
            check(data == ref or (lim is not None and data + b"\n" == ref), "wrong-file", lambda: f"{o['kind']} ({fault or 'no fault'}): write_mesh returned, "
                  f"{len(data)} bytes differ from the {len(ref)} a fresh process writes")
            ctx.probes["file compared"] += 1
        else:
            hard = fired and not (fault["op"] == "short")
            check(hard or write_only, "unexpected-failure", lambda: f"{o['kind']} {phase} ({fault or 'no fault'}): "
                  f"{type(exc).__name__}: {exc}")
            ctx.probes["refused"] += 1
        for k, q in enumerate(objs):
            check(lib.digest(describe(q)) == before[k], "input-changed",
                  lambda: f"{specs[k]['kind']} changed by {phase} of {o['kind']} ({fault})")
        return exc, m, phase

    last = [{**g, "fault": None, "retry": "none", "again": False, "edit": None, "name": "last.msh"} for g in sc["gens"][-2:]]
    for g in sc["gens"] + last:
        key = (g["obj"], g["disc"])
        fault = g["fault"]
        if fault and fault["op"] == "bad":
            try:
                with lib.quiet():
                    bad_work(fault["kind"], None, None)
            except (Exception, SystemExit) as e:
                ctx.faults["work that cannot succeed"] += 1
                ctx.state("bad", fault["kind"], type(e).__name__)
            else:
                check(fault["kind"] != "crossed", "wrong-file",
                      "write_mesh of a mesher returned after another mesher had generated its mesh")
            fault = None
        if fault and fault["op"] == "session":
            with lib.quiet():
                user_session(fault["kind"])
            ctx.faults["open user session"] += 1
            fault = None
        if g.get("edit"):
            specs[g["obj"]] = edit(specs[g["obj"]], objs[g["obj"]], g["edit"])
            before[g["obj"]] = lib.digest(describe(objs[g["obj"]]))
            ctx.probes["edited between generations: " + g["edit"]] += 1
        m = meshers.get(key) if g["again"] else None
        if m is None and g.get("reassign"):
            # one mesher, several domains of one dimension
            o = specs[g["obj"]]
            for (k, disc), q in meshers.items():
                if q is not None and disc == g["disc"] and specs[k]["dim"] == o["dim"] and k != g["obj"]:
                    m = mesher_for(o, objs[g["obj"]], g, q)
                    meshers = {a: b for a, b in meshers.items() if b is not q}
                    ctx.probes["mesher given another domain"] += 1
                    break
        exc, m, phase = attempt(g, fault, m)
        meshers[key] = m
        if exc is not None and g["retry"] != "none":
            if g["retry"] == "write" and phase == "write":
                exc = attempt(g, None, m, write_only=True)[0]
            if g["retry"] == "same" or exc is not None:
                attempt(g, None, m)
            else:
                attempt(g, None)
