"""C16 - domains and fracture networks are exact, conforming descriptions of what they were built from."""
import math

import numpy as np

from sim import lib, sched
from sim.props import c07
from sim.runner import check, judging, must

from topology.domain_market import build_box_1D, build_box_2D, build_box_3D, create_md_box_2D
from topology.edge import Edge
from topology.operations.domain_operations import create_domain, domain_difference, domain_intersection, domain_union
from topology.vertex import Vertex
from geometry.fracture_network import FractureNetwork
from geometry.geometry_builder import GeometryBuilder

ID = "C16"
TITLE = "Domains and fracture networks describe exactly what they were built from"
QUICK, THOROUGH = 1500, 120000
RULE = ("distinct digest of (boxes, lines, sequence of builds, operations, exceptions, interleavings, outcomes) among runs "
        "with at least one description compared with the partition model")
REAL = ["topology.domain_market", "topology.domain", "topology.operations", "topology shapes", "geometry.fracture_network",
        "geometry.geometry_builder", "geometry.operations"]
STUB = ["allocation failures and interrupts (raised at a simulated step)", "thread scheduling"]
ASSUMPTIONS = ["lines are in general position: no three meet in a point, ends lie on no other line or side, "
               "crossings and ends are at least 0.4 percent of the box apart",
               "every line has a part inside the box"]
LISTS = ["ops"]
TOL = 1e-7


# ------------------------------------------------------------------ scenarios
def cross(a, b):
    """Parameters of the crossing of two segments in the plane, or None."""
    (p, q), (r, s) = a, b
    d1, d2 = (q[0] - p[0], q[1] - p[1]), (s[0] - r[0], s[1] - r[1])
    det = d1[0] * d2[1] - d1[1] * d2[0]
    if abs(det) < 1e-9:
        return None
    w = (r[0] - p[0], r[1] - p[1])
    t, u = (w[0] * d2[1] - w[1] * d2[0]) / det, (w[0] * d1[1] - w[1] * d1[0]) / det
    return t, u


def dist(p, seg):
    (a, b) = seg
    d = (b[0] - a[0], b[1] - a[1])
    t = max(0.0, min(1.0, ((p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]) / (d[0] ** 2 + d[1] ** 2)))
    return math.hypot(p[0] - a[0] - t * d[0], p[1] - a[1] - t * d[1])


SQUARE = [((0, 0), (1, 0)), ((1, 0), (1, 1)), ((1, 1), (0, 1)), ((0, 1), (0, 0))]


def gen_lines(rng, n, outside, box=True):
    out = []
    gap = rng.choice([0.02, 0.004])
    for _ in range(200):
        if len(out) == n:
            break
        lo, hi = (-0.25, 1.25) if outside else (0.05, 0.95)
        L = tuple((round(rng.uniform(lo, hi), 3), round(rng.uniform(lo, hi), 3)) for _ in range(2))
        if out and gap < 0.01 and rng.random() < 0.5:  # ends just before another line or side
            a, b = rng.choice(out + (SQUARE if box else []))
            t = rng.uniform(0.1, 0.9)
            q = a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])
            t = gap * 1.3 / max(0.1, math.hypot(L[0][0] - q[0], L[0][1] - q[1]))
            L = (L[0], (round(q[0] + t * (L[0][0] - q[0]), 4), round(q[1] + t * (L[0][1] - q[1]), 4)))
        if math.hypot(L[0][0] - L[1][0], L[0][1] - L[1][1]) < 0.15:
            continue
        if rng.random() < 0.2:  # along an axis
            L = (L[0], (L[1][0], L[0][1])) if rng.random() < 0.5 else (L[0], (L[0][0], L[1][1]))
            if abs(L[0][0] - L[1][0]) + abs(L[0][1] - L[1][1]) < 0.15:
                continue
        all_ = out + [L]
        segs = all_ + (SQUARE if box else [])
        pts = []
        ok = True
        for i, a in enumerate(all_):
            for p in a:
                ok = ok and all(dist(p, b) > gap for b in segs if b is not a)
                pts.append(p)
            for j, b in enumerate(segs):
                if j <= i:
                    continue
                tu = cross(a, b)
                if tu and -gap < tu[0] < 1 + gap and -gap < tu[1] < 1 + gap:
                    pts.append((a[0][0] + tu[0] * (a[1][0] - a[0][0]), a[0][1] + tu[0] * (a[1][1] - a[0][1])))
        if box:
            pts += [s[0] for s in SQUARE]
            mids = [(a[0][0] + t * (a[1][0] - a[0][0]), a[0][1] + t * (a[1][1] - a[0][1])) for a in [L]
                    for t in [k / 40 for k in range(41)]]
            ok = ok and any(0.03 < p[0] < 0.97 and 0.03 < p[1] < 0.97 for p in mids)
        ok = ok and all(math.hypot(p[0] - q[0], p[1] - q[1]) > gap for k, p in enumerate(pts) for q in pts[:k])
        if ok:
            out.append(L)
    return [[list(p) for p in L] for L in out]


def gen_obj(rng, kind=None):
    kind = kind or rng.choice(["dom1", "dom2", "dom3", "md", "md", "md", "b1", "b2", "b3", "net", "net", "parts", "parts"])
    if kind in ("dom1", "dom2", "dom3", "b1", "b2", "b3"):
        return c07.gen_obj(rng, kind)
    o = {"kind": kind, "dim": 2, "tags": None}
    s = rng.choice([1.0, 1.0, 0.5, 4.0])
    o["frame"] = {"o": [round(rng.uniform(-1, 1), 2) * s if rng.random() < 0.5 else 0.0 for _ in range(2)] + [0.0],
                  "v": [[s * rng.choice([1, 1.5]), 0.0, 0.0], [0.0, s * rng.choice([1, 0.75]), 0.0]], "s": s}
    if kind == "net" and rng.random() < 0.3:
        o["frame"]["v"][1][0] = round(rng.uniform(-0.4, 0.4), 2) * s
    o["fr"] = gen_lines(rng, rng.choice([1, 2, 3, 3, 4, 5]), kind == "md" and rng.random() < 0.5, box=kind == "md")
    if kind == "md":
        if rng.random() < 0.4:
            o["tags"] = dict(zip(["area", "bc_0", "bc_1", "bc_2", "bc_3"], rng.sample(range(1, 19), 5)))
        if rng.random() < 0.5:
            o["ftags"] = dict(zip(["line", "internal_bc", "point"], rng.sample(range(20, 400), 3)))
    elif kind == "net":
        o["shift"] = rng.choice([1, 10, 30])
    else:
        o["first"] = rng.choice([0, 1, 10])
    return o


def gen(rng, tier, i):
    objs = [gen_obj(rng)]
    for _ in range(rng.choice([0, 1, 2])):
        objs.append(gen_obj(rng, objs[0]["kind"] if rng.random() < 0.6 else None))
        if objs[-1]["kind"] == objs[0]["kind"] and rng.random() < 0.4:  # same box and numbers
            for k in ("frame", "tags", "ftags", "shift"):
                if k in objs[0]:
                    objs[-1][k] = objs[0][k]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 7])):
        o = {"kind": rng.choice(["build", "build", "build", "graph", "refresh", "retag", "move"]),
             "obj": rng.randrange(len(objs))}
        r = rng.random()
        if r < 0.3:
            o["async"] = lib.aim(rng, {"step": int(2 ** rng.uniform(0, 13)), "kind": rng.choice(["memory", "interrupt"])})
        elif r < 0.55:
            o["with"] = {"kind": "build", "obj": rng.randrange(len(objs))}
            o["plan"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.001, 0.01, 0.1, 0.3])}
        ops.append(o)
    return {"objs": objs, "ops": ops, "share": rng.random() < 0.5}


# ------------------------------------------------------------------ work on the library
def lines_of(o):
    return np.array([[c07.place(o["frame"], p) for p in L] for L in o["fr"]], float)


def inputs_of(o):
    return {"box": c07.corners(o), "lines": lines_of(o) if o.get("fr") else None, "tags": o["tags"] and dict(o["tags"]),
            "ftags": o.get("ftags") and dict(o["ftags"])}


def build(o, I):
    k = o["kind"]
    with lib.quiet():
        if k.startswith("dom"):
            return [{1: build_box_1D, 2: build_box_2D, 3: build_box_3D}[o["dim"]](I["box"], I["tags"])]
        if k == "md":
            return [create_md_box_2D(I["box"], I["tags"], I["lines"], I["ftags"])]
        if k == "net":
            n = FractureNetwork(dimension=2, physical_tag_shift=o["shift"])
            n.intersect_1D_fractures(list(I["lines"]))
            n.build_grahp(all_fixed_d_cells_q=True)
            return [n]
        if k == "parts":  # lines, split at their crossings by the domain operations
            t, verts, edges = o["first"], [], []
            for a, b in I["lines"]:
                va, vb = Vertex(t, a), Vertex(t + 1, b)
                e = Edge(t + 2, np.array([va, vb]))
                e.physical_tag = 7 + len(edges)
                verts += [va, vb]
                edges.append(e)
                t += 3
            d0 = create_domain(dimension=1, shapes=np.array(verts + edges))
            cuts = []
            for i, a in enumerate(I["lines"]):
                for b in I["lines"][i + 1:]:
                    tu = cross(a[:, :2].tolist(), b[:, :2].tolist())
                    if tu and 0 < tu[0] < 1 and 0 < tu[1] < 1:
                        v = Vertex(t, a[0] + tu[0] * (a[1] - a[0]))
                        v.physical_tag = 99
                        cuts.append(v)
                        t += 1
            if not cuts:
                return [d0]
            d1 = create_domain(dimension=1, shapes=np.array(cuts))
            diff = domain_difference(d0, d1, t)
            return [domain_union(diff, d1), diff, d0, d1]
        b = GeometryBuilder(dimension=o["dim"])
        if I["tags"]:
            b.set_physical_tags(I["tags"])
        {1: b.build_box_1D, 2: b.build_box_2D, 3: b.build_box}[o["dim"]](I["box"])
        b.build_grahp()
        return [b]


def change(o, x, kind):
    with lib.quiet():
        for d in x:
            dom = hasattr(d, "shapes")
            if kind == "graph":
                if dom:
                    for k in range(1, d.dimension + 1):
                        d.build_grahp(k)
                    d.build_grahp()
                elif o["kind"] == "net":
                    d.build_grahp(all_fixed_d_cells_q=True)
                else:
                    d.build_grahp()
            elif kind == "refresh" and dom:
                d.refresh_wires()
            elif kind == "retag" and dom:
                d.retag_shapes()
            elif kind == "move":
                if dom:
                    for v in d.shapes[0]:
                        v.point = np.array(v.point) + np.array([0.5, 0.0, 0.0])
                else:
                    d.points = np.array(d.points) + np.array([0.5, 0.0, 0.0])


def describe(x):
    out = []
    for d in x:
        q = c07.describe(d)
        if hasattr(d, "shapes") and d.graph is not None:
            q += [sorted(map(plain, d.graph.nodes())), sorted(map(plain, d.graph.edges()))]
        out.append(lib.plain(q))
    return out


def plain(e):
    return repr(e).replace("np.int64(", "").replace(")", "").replace("(", "")


def again(o, done):
    I = inputs_of(o)
    x = build(o, I)
    for k in done:
        change(o, x, k)
    return describe(x)


# ------------------------------------------------------------------ the model
def parts_of(o, I):
    """[(end, end, tag)] and [(point, tag)] the description has to consist of."""
    L = [l[:, :].tolist() for l in I["lines"]]
    box = [(I["box"][k].tolist(), I["box"][(k + 1) % 4].tolist()) for k in range(4)]
    sides = [o["tags"][f"bc_{k}"] if o["tags"] else 2 + k for k in range(4)]
    f = o.get("ftags") or {"line": 100, "internal_bc": 200, "point": 300}
    segs = [(a, b, f["line"] if o["kind"] == "md" else (o["shift"] + k if o["kind"] == "net" else 7 + k))
            for k, (a, b) in enumerate(L)]
    if o["kind"] == "md":
        segs += [(a, b, t) for (a, b), t in zip(box, sides)]
    edges, points = [], []
    for i, (a, b, t) in enumerate(segs):
        cut = [0.0, 1.0]
        for j, (p, q, _) in enumerate(segs):
            if j != i and not (i >= len(L) and j >= len(L)):
                tu = cross((a, b), (p, q))
                if tu and 0 < tu[0] < 1 and 0 < tu[1] < 1:
                    cut.append(tu[0])
                    if i < j:
                        at = [a[c] + tu[0] * (b[c] - a[c]) for c in range(3)]
                        if o["kind"] != "md" or inside(I["box"], np.array(at)):
                            points.append((at, "side" if j >= len(L) else "cross"))
        cut.sort()
        at = lambda s: np.array([a[c] + s * (b[c] - a[c]) for c in range(3)])
        for s, e in zip(cut, cut[1:]):
            m = at((s + e) / 2)
            if o["kind"] != "md" or i >= len(L) or inside(I["box"], m):
                edges.append((at(s), at(e), t))
        for s in (0.0, 1.0):
            if i < len(L) and (o["kind"] != "md" or inside(I["box"], at(s))):
                points.append((at(s), "tip" if o["kind"] == "md" else t if o["kind"] == "net" else None))
            elif i >= len(L) and s == 0.0:
                points.append((at(s), "corner"))
    return edges, points


def inside(box, p):
    lo, hi = box.min(0) - 1e-9, box.max(0) + 1e-9
    return bool(np.all(p >= lo) and np.all(p <= hi))


def same(p, q, s):
    return float(np.max(np.abs(np.asarray(p, float) - np.asarray(q, float)))) <= TOL * s


def partition(o, I, x):
    s = o["frame"]["s"]
    want_e, want_p = parts_of(o, I)
    d = x[0]
    if o["kind"] == "net":
        ends = [c for c in d.cells if c.dimension == 1 and len(c.immersed_cells) == 0]
        got_e = [(d.points[c.boundary_cells[0].point_id], d.points[c.boundary_cells[1].point_id], c.physical_tag) for c in ends]
        got_p = [(d.points[c.point_id], c.physical_tag) for c in d.cells if c.dimension == 0]
        used = {b.id for c in ends for b in c.boundary_cells}
        check(used == {c.id for c in d.cells if c.dimension == 0}, "wrong-parts", "points no edge ends at")
    else:
        es = [e for e in d.shapes[1] if not e.composite]
        got_e = [(e.boundary_shapes[0].point, e.boundary_shapes[1].point, e.physical_tag) for e in es]
        got_p = [(v.point, v.physical_tag) for v in d.shapes[0]]
        tags = [e.tag for e in d.shapes[1]]
        check(len(set(map(int, tags))) == len(tags), "wrong-tags", lambda: f"edge tags {tags}")
        tags = [v.tag for v in d.shapes[0]]
        check(len(set(map(int, tags))) == len(tags), "wrong-tags", lambda: f"vertex tags {tags}")
        for e in es:  # conforming: edges end at the vertices of the domain
            for b in e.boundary_shapes:
                check(sum(v.tag == b.tag and same(v.point, b.point, s) for v in d.shapes[0]) == 1, "not-conforming",
                      lambda: f"edge {e.tag} ends at vertex {b.tag} {b.point}, not one of the domain")
    check(len(got_p) == len(want_p), "wrong-parts", lambda: f"{len(got_p)} points instead of {len(want_p)}: {got_p}")
    check(len(got_e) == len(want_e), "wrong-parts", lambda: f"{len(got_e)} edges instead of {len(want_e)}")
    for p, q, t in want_e:
        hit = [g for g in got_e if (same(g[0], p, s) and same(g[1], q, s)) or (same(g[0], q, s) and same(g[1], p, s))]
        check(len(hit) == 1 and hit[0][2] == t, "wrong-parts", lambda: f"edge {p} {q} tagged {t}: found {hit}")
    f = o.get("ftags") or {"line": 100, "internal_bc": 200, "point": 300}
    for p, t in want_p:
        hit = [g for g in got_p if same(g[0], p, s)]
        check(len(hit) == 1, "wrong-parts", lambda: f"point {p} ({t}): found {hit}")
        if o["kind"] == "md":
            sides = [o["tags"][f"bc_{k}"] if o["tags"] else 2 + k for k in range(4)]
            want = {"tip": [f["internal_bc"]], "cross": [f["point"]], "corner": [None], "side": sides}[t]
            check(hit[0][1] in want, "wrong-tags", lambda: f"point {p} ({t}) is tagged {hit[0][1]}")
        elif t not in ("cross", None):
            check(hit[0][1] == t, "wrong-tags", lambda: f"point {p} is tagged {hit[0][1]}, not {t}")
        elif o["kind"] == "parts" and t == "cross":
            check(hit[0][1] == 99, "wrong-tags", lambda: f"crossing {p} is tagged {hit[0][1]}")
    if o["kind"] == "net":
        for c in d.cells:
            if c.dimension == 1 and len(c.immersed_cells):
                run = [(e.boundary_cells[0].id, e.boundary_cells[1].id) for e in c.immersed_cells]
                check(run[0][0] == c.boundary_cells[0].id and run[-1][1] == c.boundary_cells[1].id and
                      all(a[1] == b[0] for a, b in zip(run, run[1:])), "wrong-parts", lambda: f"fracture {c.id} is made of {run}")
    if o["kind"] == "md":
        face, = d.shapes[2]
        check(face.physical_tag == (o["tags"]["area"] if o["tags"] else 1), "wrong-tags", "tag of the area")
        wire, = face.boundary_shapes
        loop = list(wire.immersed_shapes)
        check({int(e.tag) for e in loop} == {int(e.tag) for e in es if any(
            e.physical_tag == t and on_side(I["box"], k, e) for k, t in enumerate(sides_of(o)))},
            "wrong-parts", "the wire of the area is not made of the sides")
        for a, b in zip(loop, loop[1:] + loop[:1]):
            check({int(v.tag) for v in a.boundary_shapes} & {int(v.tag) for v in b.boundary_shapes}, "wrong-parts",
                  "the edges of the wire do not follow each other")
        check({int(e.tag) for e in face.immersed_shapes} >= {int(e.tag) for e in es if e.physical_tag == f["line"]},
              "wrong-parts", "a line is not immersed in the area")


def sides_of(o):
    return [o["tags"][f"bc_{k}"] if o["tags"] else 2 + k for k in range(4)]


def on_side(box, k, e):
    a, b = box[k], box[(k + 1) % 4]
    n = np.array([-(b - a)[1], (b - a)[0], 0.0])
    return all(abs(np.dot(v.point - a, n)) < 1e-7 * np.dot(n, n) for v in e.boundary_shapes)


def boxed(o, I, x):
    """Boxes: corners, sides and their tags."""
    d, dim, s = x[0], o["dim"], o["frame"]["s"]
    geo = not hasattr(d, "shapes")
    names = {1: "line", 2: "area", 3: "volume" if o["kind"] == "b3" else "solid"}
    tags = o["tags"] or dict(zip([names[dim]] + [f"bc_{k}" for k in range(c07.SIDES[dim])], range(1, 9)))
    items = [[c for c in d.cells if c.dimension == k] for k in range(dim + 1)] if geo else d.shapes

    def pts(c):
        if c.dimension == 0:
            return [d.points[c.point_id] if geo else c.point]
        out = []
        for b in list(c.boundary_cells if geo else c.boundary_shapes) + ([] if geo or not c.composite else list(c.immersed_shapes)):
            out += pts(b)
        return out

    def corners_of(c):
        P = pts(c)
        return sorted({k for p in P for k in range(len(I["box"])) if same(p, I["box"][k], s)})

    check(sorted(corners_of(c)[0] for c in items[0]) == list(range(2 ** dim)), "wrong-parts", "corners")
    whole = [c for c in items[dim]]
    check(len(whole) == 1 and whole[0].physical_tag == tags[names[dim]], "wrong-tags", lambda: "the box itself")
    sides = [c for c in items[dim - 1] if c.physical_tag is not None]
    check(len(sides) == c07.SIDES[dim], "wrong-parts", lambda: f"{len(sides)} tagged sides")
    check(sorted(c.physical_tag for c in sides) == sorted(tags[f"bc_{k}"] for k in range(c07.SIDES[dim])), "wrong-tags", "sides")
    sets = {tuple(corners_of(c)) for c in sides}
    B = I["box"]
    check(len(sets) == len(sides) and all(len(q) == 2 ** (dim - 1) for q in sets), "wrong-parts", lambda: f"sides {sets}")
    for q in sets:
        if dim == 3:
            v = B[list(q)] - B[q[0]]
            check(abs(np.linalg.det(v[1:4])) < 1e-9 * s ** 3, "wrong-parts", lambda: f"side {q} is not flat")
        if dim == 2:
            check((q[1] - q[0]) % 4 in (1, 3), "wrong-parts", lambda: f"side {q}")


def run(sc, ctx):
    objs = sc["objs"]
    I = [inputs_of(o) for o in objs]
    if sc["share"]:  # the same arrays and dictionaries given to every build
        for k, o in enumerate(objs[1:], 1):
            for name in ("box", "tags", "ftags"):
                if I[k][name] is not None and I[0][name] is not None and lib.plain(I[k][name]) == lib.plain(I[0][name]):
                    I[k][name] = I[0][name]
    given = lib.plain(I)
    held, done, refs = [None] * len(objs), [[] for _ in objs], {}
    ctx.state(lib.digest(given))
    sched.world.on = True

    def reference(k, todo):
        key = (k, tuple(todo))
        if key not in refs:
            st, out = lib.in_child(again, objs[k], list(todo))[:2]
            check(st == "ok", "fresh-computation", lambda: f"building {objs[k]} in a fresh process: {out}")
            refs[key] = out
        return refs[key]

    last = [{"kind": "build", "obj": k} for k in range(len(objs))]
    for n, op in enumerate(sc["ops"] + last):
        jobs = [op] + ([op["with"]] if op.get("with") else [])
        if op["kind"] != "build" and held[op["obj"]] is None:
            jobs[0] = {"kind": "build", "obj": op["obj"]}
        if jobs[0]["kind"] != "build":
            jobs = [jobs[0]] + [j for j in jobs[1:] if j["obj"] != op["obj"]]
        before = [None if x is None else describe(x) for x in held]

        def work(j):
            if j["kind"] == "build":
                return build(objs[j["obj"]], I[j["obj"]])
            change(objs[j["obj"]], held[j["obj"]], j["kind"])
            return held[j["obj"]]

        faults = [dict(op["async"], task=0)] if op.get("async") else []
        s = sched.Sched(op.get("plan") or {"switches": []}, faults=faults)
        ts = s.run([(j["kind"], lambda j=j: work(j)) for j in jobs])
        ctx.absorb(s)
        ctx.ops += len(jobs)
        check(lib.plain(I) == given, "inputs-modified", lambda: f"operation {n} ({jobs}) changed what it was given: "
              f"{lib.first_diff(given, lib.plain(I))}")
        lost = []
        for j, t in zip(jobs, ts):
            k = j["obj"]
            what = f"{j['kind']} of {objs[k]['kind']} {k} (operation {n}{', two at a time' if len(jobs) > 1 else ''})"
            ctx.log(n, j["kind"], k, type(t.exc).__name__)
            ctx.state(n, j["kind"], k, type(t.exc).__name__)
            if t.exc is not None:
                check(bool(s.fired), getattr(t.exc, "cls", "unexpected-failure"), lambda: f"{what}: {type(t.exc).__name__}: {t.exc}")
                ctx.probes["ended as injected"] += 1
                if j["kind"] != "build":
                    lost.append(k)
                continue
            todo = [] if j["kind"] == "build" else done[k] + [j["kind"]]
            with judging(what):
                if j["kind"] == "build":
                    if objs[k].get("fr") is not None and objs[k]["kind"] in ("md", "net", "parts"):
                        partition(objs[k], I[k], t.result)
                    else:
                        boxed(objs[k], I[k], t.result)
                    ctx.nontrivial = True
                    ctx.probes[f"compared: {objs[k]['kind']}"] += 1
                now = describe(t.result)
            ref = reference(k, todo)
            check(now == ref, "differs-from-fresh", lambda: f"{what}: {lib.first_diff(now, ref)}")
        for k, x in enumerate(held):
            touched = {j["obj"] for j in jobs if j["kind"] != "build"}
            check(x is None or k in touched or describe(x) == before[k], "others-modified",
                  lambda: f"operation {n} ({jobs}) changed the {objs[k]['kind']} {k} built before: {lib.first_diff(before[k], describe(x))}")
        for j, t in zip(jobs, ts):
            if t.exc is None:
                if j["kind"] == "build":
                    held[j["obj"]], done[j["obj"]] = t.result, []
                else:
                    done[j["obj"]].append(j["kind"])
        for k in lost:
            held[k], done[k] = None, []
    sched.world.on = False


def simplify(sc):
    for k, o in enumerate(sc["ops"]):
        for drop in ("async", "with"):
            if drop in o:
                yield dict(sc, ops=[{q: v for q, v in p.items() if q != drop} if j == k else p
                                    for j, p in enumerate(sc["ops"])])
    for k, o in enumerate(sc["objs"]):
        if len(o.get("fr") or []) > 1:
            for j in range(len(o["fr"])):
                yield dict(sc, objs=[dict(p, fr=p["fr"][:j] + p["fr"][j + 1:]) if q == k else p
                                     for q, p in enumerate(sc["objs"])])
