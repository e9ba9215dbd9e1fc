"""C15 - cutting a mesh separates it exactly along its fractures."""
import copy
import types

import numpy as np

from sim import lib, sched
from sim.meshes import make_spec
from sim.runner import check, judging, must

import geometry.fracture_network as fn
from mesh.mesh_operations import cut_conformity_along_c1_line, cut_conformity_along_c1_lines
from mesh.mesh_topology import MeshTopology
from mesh.topological_queries import find_higher_dimension_neighs

ID = "C15"
TITLE = "Cutting a mesh separates it exactly along its fractures"
QUICK, THOROUGH = 700, 60000
RULE = ("distinct digest of (meshes, fractures, sequence of loads, cuts, queries, exceptions, interleavings, outcomes) "
        "among runs with at least one completed cut compared with the separation model")
REAL = ["mesh.mesh", "mesh.mesh_operations", "mesh.mesh_topology", "mesh.topological_queries",
        "geometry.fracture_network", "spaces on cut meshes"]
STUB = ["allocation failures and interrupts (raised at a simulated step)", "thread scheduling",
        "the mesher object a mesh keeps (holds the fracture network only)"]
ASSUMPTIONS = ["meshes are two-dimensional; fractures are straight, meet only by crossing inside both, end on the "
               "boundary or at tips tagged as such, and have two edges at least if they end at two tips",
               "a mesh whose cut failed half way is given up and loaded again"]
LISTS = ["ops"]
TAGS = {"line": 60, "internal_bc": 70, "point": 80, "line_clones": 90, "point_clones": 95}


STAGES = {
    "cut": ["cut_conformity_along_c1_line", "cut_conformity_along_c1_lines", "cut_conformity_on_fractures_mds_ec",
            "compute_fracture_normals", "update_entity_with_dimension", "update_entity_on_dimension", "update_nodes_ids",
            "duplicate_vertice", "duplicate_entity", "circulate_internal_bc", "harvest_duplicates_from_vertex",
            "circulate_internal_bc_from_domain", "__duplicate_cells", "duplicate_mesh_points_from_0d_cells",
            "replace_node_in_grahp", "replace_nodes_in_grahp", "update_cells_with_cell_pairs", "append_cells", "append_points",
            "build_graph", "build_graph_from_cell_ids", "next_d_m_1", "build_data", "max_cell_id"],
    "query": ["build_data", "_build_entity_maps", "_build_entity_ids", "build_graph", "gather_graph_edges",
              "find_higher_dimension_neighs", "find_neighbors"],
    "space": ["_build_dof_map", "build_structures", "build_entity_maps", "_build_elements", "build_data", "build_graph"],
    "load": ["build_conformal_mesh"],
}


def gen_mesh(rng, like=None):
    """like: a mesh with the same triangulation, and some of the same fractures."""
    n = rng.randint(2, 5), rng.randint(2, 5)
    if rng.random() < 0.05:
        n = rng.randint(8, 14), rng.randint(6, 12)
    mats = rng.choice([1, 1, 2])
    spec = make_spec(rng, 2, n, materials=mats, perturb=False, permute=rng.random() < 0.9)
    if like:
        n, mats, spec = like["n"], like["mats"], copy.deepcopy(like["plain"])
        if rng.random() < 0.3:
            rng.shuffle(spec["cells"])
    plain = copy.deepcopy(spec)
    at = {(round(p[0] * n[0]), round(p[1] * n[1])): k for k, p in enumerate(spec["points"])}
    edges = set()
    for c, _ in spec["cells"]:
        edges |= {frozenset((c[a], c[b])) for a, b in ((0, 1), (0, 2), (1, 2))}
    inside = {k for (i, j), k in at.items() if 0 < i < n[0] and 0 < j < n[1]}
    runs = []
    for (i, j) in at:
        for d in ((1, 0), (0, 1), (1, 1), (1, -1)):
            run, q = [at[(i, j)]], (i, j)
            while True:
                q = (q[0] + d[0], q[1] + d[1])
                if q not in at or frozenset((run[-1], at[q])) not in edges:
                    break
                run.append(at[q])
                tips = [v for v in (run[0], run[-1]) if v in inside]
                if all(v in inside for v in run[1:-1]) and len(run) > (2 if len(tips) == 2 or len(run) == 2 and not tips
                                                                      else 1):
                    mid = frozenset(run[:2])
                    # not along the boundary
                    if sum(set(mid) <= set(c) for c, _ in spec["cells"]) == 2:
                        runs.append(list(run))
                if at[q] not in inside:
                    break
    runs.sort(key=lambda r: (rng.random() < 0.5, rng.random() ** len(r)))
    chosen, want = [], rng.choice([1, 1, 2, 2, 3, 4])
    if like:
        old = like["runs"]
        runs = rng.sample(old, rng.randint(1, len(old))) + runs
        want = rng.choice([len(old), len(old), want])
    for r in runs:
        ok = True
        for c in chosen:
            both = set(r) & set(c)
            crossing = len(both) == 1 and next(iter(both)) in r[1:-1] and next(iter(both)) in c[1:-1]
            ok = ok and (not both or crossing)
        if ok:
            chosen.append(r if rng.random() < 0.5 else r[::-1])
        if len(chosen) == want:
            break
    taken = {v for r in chosen for v in r}
    if not like and rng.random() < 0.6:
        for (i, j), k in at.items():
            if k in inside and k not in taken:
                spec["points"][k] = [spec["points"][k][0] + rng.uniform(-0.15, 0.15) / n[0],
                                     spec["points"][k][1] + rng.uniform(-0.15, 0.15) / n[1], 0.0]
    way = like["way"] if like else rng.choice(["lines", "lines", "network"])
    verts = []
    for k, r in enumerate(chosen):
        tag = TAGS["line"] if way == "lines" else 60 + k
        for a, b in zip(r, r[1:]):
            e = [a, b] if rng.random() < 0.5 else [b, a]
            spec["facets"].append([e, tag])
        for v in (r[0], r[-1]):
            if v in inside:
                verts.append([[v], TAGS["internal_bc"] if way == "lines" else tag])
    crossings = sorted({v for r in chosen for s in chosen if r is not s for v in set(r) & set(s)})
    if rng.random() < 0.7:
        verts += [[[v], TAGS["point"]] for v in crossings]
    if rng.random() < 0.4:  # ends on the sides, tagged as the side is
        ends = sorted({v for r in chosen for v in (r[0], r[-1]) if v not in inside})
        verts += [[[v], rng.choice([2, 3, 4, 5])] for v in ends]
    rng.shuffle(spec["facets"])
    rng.shuffle(verts)
    spec["vertices"] = verts
    A = np.eye(3)
    if rng.random() < 0.6:
        A[0, 0], A[1, 1], A[1, 0] = rng.choice([1, 2, 0.5]), rng.choice([1, 3, 0.5]), rng.choice([0, 0.25, -0.5])
    t = rng.choice([0.0, 0.0, 0.5, 1.2])
    R = np.array([[np.cos(t), -np.sin(t), 0], [np.sin(t), np.cos(t), 0], [0, 0, 1]])
    if like:
        return {"spec": spec, "runs": chosen, "way": way, "mats": mats, "plain": plain, "n": n, "aff": like["aff"]}
    return {"spec": spec, "runs": chosen, "way": way, "mats": mats, "plain": plain, "n": n,
            "aff": {"A": (R @ A).tolist(), "b": [rng.choice([0.0, 0.0, 1.5]), rng.choice([0.0, -2.0]), 0.0]}}


def gen_op(rng, meshes):
    m = rng.randrange(len(meshes))
    k = rng.choice(["cut", "cut", "cut", "query", "query", "space", "load"])
    o = {"kind": k, "mesh": m, "n": rng.choice([1, 1, 2, 9]), "visual": rng.random() < 0.1, "each": rng.random() < 0.5,
         "order": rng.randrange(1 << 20), "fam": rng.choice(["Lagrange", "Lagrange", "RT", "BDM"]), "k": 1,
         "comp": rng.choice([1, 2])}
    return o


def gen(rng, tier, i):
    meshes = [gen_mesh(rng)]
    if rng.random() < 0.5:
        meshes.append(gen_mesh(rng, meshes[0] if rng.random() < 0.6 else None))
        if rng.random() < 0.4:
            meshes.append(gen_mesh(rng, meshes[0] if rng.random() < 0.6 else None))
    for m in meshes:
        del m["plain"], m["n"]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        o = gen_op(rng, meshes)
        r = rng.random()
        if r < 0.3:
            o["async"] = lib.aim(rng, {"step": int(2 ** rng.uniform(0, 13)), "kind": rng.choice(["memory", "interrupt"])},
                                 STAGES[o["kind"]] if rng.random() < 0.5 else None, 0.7)
        elif r < 0.55 and len(meshes) > 1:
            w = gen_op(rng, meshes)
            w["mesh"] = (o["mesh"] + rng.randrange(1, len(meshes))) % len(meshes)
            o["with"] = w
            o["plan"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.001, 0.01, 0.1, 0.3])}
        ops.append(o)
    return {"meshes": meshes, "ops": ops}


# --------------------------------------------------------------- work on the library
class Held:
    """A mesh of the run: what was done to it, to do the same elsewhere."""

    def __init__(self, sc, k, name):
        self.m = sc["meshes"][k]
        with lib.quiet():
            self.mesh = lib.mesh_from_spec(lib.map_spec(self.m["spec"], self.m["aff"]), name)
        self.done, self.left, self.pairs, self.topo = [], list(range(len(self.m["runs"]))), [], []
        self.visual = False
        self.points0 = np.array(self.mesh.points)


def lines_of(h, which):
    P = np.array(lib.map_spec(h.m["spec"], h.m["aff"])["points"], float)
    return np.array([[P[h.m["runs"][k][0]], P[h.m["runs"][k][-1]]] for k in which])


def cut(h, which, each, visual):
    """Cuts these fractures; [(fracture, original edges, positive, negative, vertices...)] by id."""
    if h.m["way"] == "network":
        net = fn.FractureNetwork(dimension=2, physical_tag_shift=60)
        with lib.quiet():
            net.intersect_1D_fractures(list(lines_of(h, range(len(h.m["runs"])))))
            net.build_grahp(all_fixed_d_cells_q=True)
            h.mesh.set_conformal_mesher(types.SimpleNamespace(fracture_network=net, domain=None))
            out = h.mesh.cut_conformity_on_fractures_mds_ec()
        return [[int(k), int(p), int(n)] for k, (p, n) in out.items()]
    L, tags = lines_of(h, which), dict(TAGS)
    keep = L.copy()
    with lib.quiet():
        if each:
            out = [cut_conformity_along_c1_line(ln, tags, h.mesh, visual) for ln in L]
        else:
            out = cut_conformity_along_c1_lines(L, tags, h.mesh, visual)
    check(np.array_equal(L, keep) and tags == TAGS, "inputs-modified", "the cut changed the lines or tags given to it")
    return [[[int(c.id) for c in part] for part in q[f]] for q in out for f in ("c1", "c2")]


def query(h):
    """Graphs and topologies of the mesh as it is."""
    out = {}
    with lib.quiet():
        for d in (1, 2):
            t = MeshTopology(h.mesh, d)
            t.build_data()
            h.topo.append(t)
            for co in range(1, d + 1):
                out[f"graph {d} {co}"] = sorted(map(repr, h.mesh.build_graph(d, co).edges()))
            out[f"topology {d}"] = topology(t)
        for c in h.mesh.cells:
            if c.dimension == 1 and h.topo[-1].entity_map_by_dimension(1).has_node((1, c.id)):
                out[f"up {c.id}"] = sorted(int(q[1]) for q in find_higher_dimension_neighs(c, h.topo[-1]))
    return out


def topology(t):
    return [sorted(map(repr, g.edges())) for g in t.entity_maps], {d: sorted(map(int, v)) for d, v in t.entity_ids.items()}


def space(h, o):
    tags = [1, 11] if h.m["mats"] == 2 else [1]
    sp = lib.make_space(h.mesh, 2, {"u": {"fam": o["fam"], "k": o["k"], "comp": o["comp"], "disc": False}},
                        {"u": tags}, {"u": [2, 3, 4, 5]})
    return sp


def perform(h, o, which):
    if o["kind"] == "cut":
        return cut(h, which, o["each"], o["visual"])
    if o["kind"] == "query":
        return query(h)
    return lib.describe_space(space(h, o))


def again(sc, k, done, o, which):
    """The same done to a mesh of its own by a fresh process."""
    h = Held(sc, k, "ref.msh")
    for d in done:
        perform(h, *d)
    out = perform(h, o, which)
    return lib.plain(out), lib.describe_mesh(h.mesh)


# --------------------------------------------------------------- the model
def separated(h, first, now, visual):
    """`now` is `first` cut along the fractures done so far, and nothing else."""
    A, B = first["cells"], now["cells"]
    P, Q = h.points0, np.asarray(h.mesh.points)
    cutting = [k for d, w in h.done if d["kind"] == "cut" for k in w]
    edge_of, frac = {}, {}
    for c in A:
        if c[0] == 1:
            edge_of[frozenset(c[2])] = c[1]
    for k in cutting:
        r = h.m["runs"][k]
        for a, b in zip(r, r[1:]):
            frac[edge_of[frozenset((a, b))]] = k
    for i, c in enumerate(B):
        check(c is not None and c[1] == i, "wrong-ids", lambda: f"cell at {i} is {c}")
    check(np.array_equal(Q[:len(P)], P) or visual, "moved", "the cut moved points of the mesh")
    node = {c[1]: c[2][0] for c in B if c[0] == 0}
    # what is kept
    for c in A:
        d = B[c[1]]
        check(c[0] == d[0] and c[3] == d[3], "changed", lambda: f"cell {c} is now {d}")
        check(len(c[2]) == len(d[2]) and (visual or np.array_equal(P[c[2]], Q[d[2]])), "changed",
              lambda: f"cell {c} has become {d}: other points")
    check(len([c for c in A if c[0] == 2]) == len([c for c in B if c[0] == 2]), "changed", "number of cells")
    # every cell is made of its entities
    for c in B:
        for dim in range(c[0]):
            for s in c[4][dim]:
                check(B[s][0] == dim and set(B[s][2]) <= set(c[2]), "torn",
                      lambda: f"cell {c} has {B[s]} among its entities of dimension {dim}")
            check(len(set(c[4][dim])) == len(c[4][dim]), "torn", lambda: f"cell {c} has an entity twice")
        if c[0] > 0:
            check(sorted(node[s] for s in c[4][0]) == sorted(c[2]), "torn", lambda: f"cell {c}: nodes and vertices differ")
    faces = [c for c in A if c[0] == 2]
    owners, around = {}, {}
    for c in faces:
        for s in c[4][1]:
            owners.setdefault(s, []).append(c[1])
        for v in c[4][0]:
            around.setdefault(v, []).append(c[1])

    def sub(d, dim, key):
        """Entity of a cell now where it had `key`."""
        k = list(A[d][4][dim]).index(key)
        return B[d][4][dim][k]

    clones = {}
    for e, own in owners.items():
        new = [sub(c, 1, e) for c in own]
        if e not in frac:
            check(all(n == e for n in new), "too-much", lambda: f"edge {A[e]}, on no fracture, is now {new}")
            continue
        check(len(own) == 2 and e not in new and new[0] != new[1], "not-separated",
              lambda: f"edge {A[e]} of fracture {frac[e]} is {new} in the cells {own}")
        for n, c in zip(new, own):
            want = TAGS["line_clones"] if h.m["way"] == "lines" else None
            check(B[n][3] == want if want else B[n][3] in (10 * A[e][3] + 1, 10 * A[e][3] - 1), "wrong-tag",
                  lambda: f"copy {B[n]} of the edge {A[e]}")
            check(n not in clones, "not-separated", f"edge {n} belongs to two fractures")
            clones[n] = e
        check(h.m["way"] == "lines" or B[new[0]][3] != B[new[1]][3], "wrong-tag", lambda: f"copies of {A[e]}: {new}")
    for c in B[len(A):]:
        if c[0] == 1:
            check(c[1] in clones, "too-much", lambda: f"new edge {c} belongs to no cell")
    # vertices: one for every fan of cells between fractures
    tips = {v for k in cutting for v in (h.m["runs"][k][0], h.m["runs"][k][-1])}
    kept = {s for e in frac for s in A[e][4][0]}
    for v, cs in around.items():
        comp = {c: c for c in cs}

        def root(c):
            while comp[c] != c:
                c = comp[c]
            return c

        for c in cs:
            for e in A[c][4][1]:
                if v in A[e][4][0] and e not in frac:
                    for o in owners[e]:
                        comp[root(o)] = root(c)
        fans = {}
        for c in cs:
            fans.setdefault(root(c), set()).add(sub(c, 0, v))
        check(all(len(s) == 1 for s in fans.values()), "too-much",
              lambda: f"vertex {A[v]}: the cells {cs} use {[sub(c, 0, v) for c in cs]}, fans {[root(c) for c in cs]}")
        ids = [next(iter(s)) for s in fans.values()]
        check(len(set(ids)) == len(ids), "not-separated",
              lambda: f"vertex {A[v]}: the cells {cs} use {[sub(c, 0, v) for c in cs]}, fans {[root(c) for c in cs]}")
        if len(fans) == 1:
            check(ids == [v], "too-much", lambda: f"vertex {A[v]} is now {ids}")
        else:
            check(v not in ids, "not-separated", lambda: f"vertex {A[v]} of a fracture is used by the cells {cs}")
        for n in ids:
            check(visual or np.array_equal(Q[node[n]], P[A[v][2][0]]), "moved", lambda: f"vertex {v} -> {n}")
    check(len({tuple(c[2]) for c in B if c[0] == 0}) == len([c for c in B if c[0] == 0]), "torn", "two vertices, one node")
    return frac, clones, {c: [B[c][4][d] for d in (0, 1)] for c in [f[1] for f in faces]}


def sides(h, first, now, which, got, frac):
    """The copies are told to the caller with the side they are on."""
    A, B = first["cells"], now["cells"]
    Q, P = np.asarray(h.mesh.points), h.points0
    of = {}
    for c in B:
        if c[0] == 2:
            for s in c[4][1]:
                of[s] = c
    if h.m["way"] == "network":
        rows = [(frac.get(e), e, p, n) for e, p, n in got]
        check(sorted(r[1] for r in rows) == sorted(frac), "wrong-interface", "edges of the map are not those of the fractures")
    else:
        rows = []
        for j, k in enumerate(which):
            e, p, n = got[2 * j]
            check(len(e) == len(p) == len(n) and sorted(e) == sorted(q for q, f in frac.items() if f == k),
                  "wrong-interface", lambda: f"edges told for fracture {k}: {e}")
            rows += [(k, a, b, c) for a, b, c in zip(e, p, n)]
            v = got[2 * j + 1]
            for a, b, c in zip(*v):
                check(len({tuple(Q[B[x][2][0]]) for x in (a, b, c)}) == 1, "wrong-interface",
                      lambda: f"vertices told for fracture {k}: {a} {b} {c}")
    for k, e, p, n in rows:
        a, b = lines_of(h, [k])[0]
        side = np.array([-(b - a)[1], (b - a)[0], 0.0])
        for s, x in ((1, p), (-1, n)):
            check(x in of, "wrong-interface", lambda: f"copy {x} of edge {e} belongs to no cell")
            check({tuple(q) for q in Q[B[x][2]]} == {tuple(q) for q in P[A[e][2]]}, "wrong-interface",
                  lambda: f"copy {x} is told for edge {e}, which lies elsewhere")
            xc = Q[of[x][2]].mean(0)
            check(s * np.dot(xc - (a + b) / 2, side) > 0, "wrong-side", lambda: f"copy {x} of edge {e}")


def asked(now, got):
    """Graphs and topologies as the mesh says."""
    B = now["cells"]
    for d in (1, 2):
        maps = {}
        for low in range(d):
            e = sorted({repr(((d, c[1]), (low, int(s)))) for c in B if c[0] == d for s in c[4][low]})
            maps[low] = e
            check(sorted(map(plain_edge, got[f"graph {d} {d - low}"])) == sorted(map(plain_edge, e)), "wrong-graph",
                  lambda: f"graph of dimension {d}, codimension {d - low}: "
                          f"{lib.first_diff(got[f'graph {d} {d - low}'], e)}")
        edges, ids = got[f"topology {d}"]
        for low in range(d):
            check(sorted(map(plain_edge, edges[low])) == sorted(map(plain_edge, maps[low])), "wrong-graph", f"topology {d}: {low}")
            used = sorted({int(s) for c in B if c[0] == d for s in c[4][low]})
            check(ids[low] == used, "wrong-graph", lambda: f"topology {d}: entities of dimension {low}")
    up = {}
    for c in B:
        if c[0] == 2:
            for q in c[4][1]:
                up.setdefault(f"up {q}", []).append(c[1])
    check(up == {k: v for k, v in got.items() if k.startswith("up ")}, "wrong-graph", "cells of an edge")


def plain_edge(s):
    return s.replace("np.int64(", "").replace(")", "").replace("(", "")


def size_of(now, fam, comp):
    """Degrees of freedom of the lowest order on a mesh: one per vertex, or one or two per edge, that a cell has."""
    low = 0 if fam == "Lagrange" else 1
    n = len({int(q) for c in now["cells"] if c[0] == 2 for q in c[4][low]})
    return comp * n * (2 if fam == "BDM" else 1)


def run(sc, ctx):
    held = [must("loading", Held, sc, k, f"m{k}.msh") for k in range(len(sc["meshes"]))]
    first = [lib.describe_mesh(h.mesh) for h in held]
    ctx.state(lib.digest(first))
    sched.world.on = True
    last = [{"kind": k, "mesh": m, "n": 9, "visual": False, "each": False, "order": 0, "fam": "Lagrange", "k": 1, "comp": 1}
            for m in range(len(held)) for k in ("cut", "query", "space")]
    for n, o in enumerate(sc["ops"] + last):
        jobs = []
        for j in [o] + ([o["with"]] if o.get("with") else []):
            h = held[j["mesh"]]
            which = []
            if j["kind"] == "cut":
                which = sorted(h.left, key=lambda k: (j["order"] * (k + 7)) % 101)[:j["n"]]
                if h.m["way"] == "network":
                    which = list(h.left)
                if not which:
                    j = dict(j, kind="query")
                elif j["visual"] and len(which) == len(h.m["runs"]) == 1 and h.m["way"] == "lines" and not h.visual:
                    h.visual = True
                else:
                    j = dict(j, visual=False)
            jobs.append((j, which))
        if o["kind"] == "load":
            h = held[o["mesh"]] = must("loading", Held, sc, o["mesh"], f"m{o['mesh']}.msh")
            check(lib.describe_mesh(h.mesh) == first[o["mesh"]], "wrong-mesh",
                  lambda: lib.first_diff(first[o["mesh"]], lib.describe_mesh(h.mesh)))
            jobs = jobs[1:]
        if not jobs:
            continue
        befores = [lib.describe_mesh(h.mesh) for h in held]
        topos = [[(t, topology(t)) for t in h.topo] for h in held]
        offset = len([o] + ([o["with"]] if o.get("with") else [])) - len(jobs)
        faults = [dict(o["async"], task=0)] if o.get("async") and not offset else []
        s = sched.Sched(o.get("plan") or {"switches": []}, faults=faults)
        ts = s.run([(j["kind"], lambda j=j, w=w: perform(held[j["mesh"]], j, w)) for j, w in jobs])
        ctx.absorb(s)
        ctx.ops += len(jobs)
        dead = []
        for (j, which), t in zip(jobs, ts):
            h, k = held[j["mesh"]], j["mesh"]
            what = f"{j['kind']} {which or ''} of mesh {k} (operation {n})"
            ctx.log(n, j["kind"], k, which, type(t.exc).__name__)
            ctx.state(n, j["kind"], k, which, type(t.exc).__name__)
            if t.exc is not None:
                if not s.fired:
                    check(False, getattr(t.exc, "cls", "unexpected-failure"), lambda: f"{what}: {type(t.exc).__name__}: {t.exc}")
                ctx.probes["ended as injected: " + j["kind"]] += 1
                if j["kind"] == "cut":
                    dead.append(k)
                else:
                    check(lib.describe_mesh(h.mesh) == befores[k], "inputs-modified", f"{what} failed and changed the mesh")
                continue
            now = lib.describe_mesh(h.mesh)
            h.tried = which
            st, ref = lib.in_child(again, sc, k, list(h.done), j, which)[:2]
            check(st == "ok", "fresh-computation", lambda: f"{what} in a fresh process: {ref}")
            with judging(what):
                if j["kind"] == "cut":
                    h.done.append((j, which))
                    h.left = [q for q in h.left if q not in which]
                    frac = separated(h, first[k], now, h.visual)[0]
                    if not h.visual:
                        sides(h, first[k], now, which, t.result, frac)
                    ctx.nontrivial = True
                    ctx.probes["cuts compared"] += 1
                    ctx.probes[f"cut by {h.m['way']}"] += 1
                    ctx.probes["crossings"] += len(h.m["runs"]) > 1 and len({v for r in h.m["runs"] for v in r}) < sum(
                        len(r) for r in h.m["runs"])
                else:
                    check(now == befores[k], "inputs-modified", lambda: f"{what} changed the mesh: "
                          f"{lib.first_diff(befores[k], now)}")
                    if j["kind"] == "query":
                        asked(now, t.result)
                        ctx.probes["graphs compared"] += 1
                    else:
                        check(t.result["n_dof"] == size_of(now, j["fam"], j["comp"]), "wrong-size",
                              lambda: f"{what}: {t.result['n_dof']} degrees of freedom, {size_of(now, j['fam'], j['comp'])}")
                        ctx.probes["spaces compared"] += 1
            check(lib.plain(t.result) == ref[0], "differs-from-fresh",
                  lambda: f"{what}: {lib.first_diff(lib.plain(t.result), ref[0])}")
            check(now == ref[1], "differs-from-fresh", lambda: f"{what}: mesh {lib.first_diff(now, ref[1])}")
        busy = {j["mesh"] for j, _ in jobs}
        for k, h in enumerate(held):
            check(k in busy or lib.describe_mesh(h.mesh) == befores[k], "others-modified",
                  lambda: f"operation {n} changed mesh {k}, which it was not given")
            for t, was in topos[k]:
                check(topology(t) == was, "others-modified", lambda: f"operation {n} changed a topology of mesh {k} built before")
        for k in dead:
            held[k] = must("loading after a failed cut", Held, sc, k, f"m{k}.msh")
            check(lib.describe_mesh(held[k].mesh) == first[k], "wrong-mesh", f"mesh {k} loaded again after a failed cut")
    sched.world.on = False


def simplify(sc):
    for k, o in enumerate(sc["ops"]):
        for drop in ("async", "with"):
            if drop in o:
                yield dict(sc, ops=[{q: v for q, v in p.items() if q != drop} if j == k else p
                                    for j, p in enumerate(sc["ops"])])
