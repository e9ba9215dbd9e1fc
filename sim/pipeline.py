"""Whole analyses as users script them, reported stage by stage.

Kinds: 'spec' (a given mesh file), 'gen' (a mesh generated by gmsh and written by
the library), 'md' (mixed-dimensional domain, generated, cut along the lines).
`analysis` yields (stage name, plain exact description of the result).
"""
import os

import numpy as np

from sim import forms, lib
from sim.props import c07

from mesh.mesh_metrics import mesh_size
from mesh.mesh_operations import cut_conformity_along_c1_lines
from topology.domain_market import create_md_box_2D

PROBLEMS = {1: ["degenerate", "unscaled", "l2"],
            2: ["laplace_primal", "laplace_primal", "laplace_dual", "le_primal", "lce_primal", "le_dual_vec", "l2",
                "le_taylor_hood", "unscaled", "degenerate"],
            3: ["laplace_primal", "le_primal", "laplace_dual", "l2"]}
LINES = [[[[0.0, 0.5], [1.0, 0.5]]], [[[0.5, 0.0], [0.5, 1.0]]], [[[0.2, 0.5], [0.8, 0.5]]],
         [[[0.2, 0.3], [0.7, 0.8]]], [[[0.0, 0.5], [1.0, 0.5]], [[0.5, 0.0], [0.5, 1.0]]],
         [[[0.2, 0.5], [0.8, 0.5]], [[0.5, 0.2], [0.5, 0.8]]]]


def gen_analysis(rng, kinds=("spec", "gen", "gen", "md"), small=False):
    kind = rng.choice(kinds)
    a = {"kind": kind, "coef": lib.gen_coef(rng), "seed": rng.randrange(1 << 30),
         "fam": rng.choice(["RT", "BDM"]), "k": rng.choice([1, 1, 1, 2])}
    if kind == "spec":
        a["dim"] = rng.choice([1, 2, 2, 3])
        a["spec"] = lib.make_spec(rng, a["dim"], {1: (rng.randint(2, 4),), 2: (2, rng.randint(1, 2)),
                                                  3: (1, 1, 1)}[a["dim"]])
        a["aff"] = lib.gen_affine(rng, a["dim"])
    elif kind == "gen":
        while True:
            o = c07.gen_obj(rng)
            if o["kind"] in ("dom1", "dom2", "b1", "b2", "net", "lines", "dom3", "b3") and \
                    (o["dim"] < 3 or (not small and rng.random() < 0.4)):
                if o["kind"] not in ("net", "lines") or rng.random() < 0.5:
                    break
        o["fr"] = o["fr"][:1]
        a["obj"], a["dim"] = o, o["dim"]
        fine = {1: [0.2, 0.5], 2: [0.5, 1.0], 3: [1.0]}[o["dim"]]
        a["g"] = {"lc": rng.choice(fine), "nref": 0, "disc": o["kind"] in ("dom1", "dom2") and rng.random() < 0.4}
        if o["kind"] in ("net", "lines"):
            a["k"] = 1
    else:
        a["dim"] = 2
        a["lines"] = rng.choice(LINES)
        a["lc"] = rng.choice([0.5, 1.0])
        a["visual"] = rng.random() < 0.3
        a["k"] = 1
    if a["dim"] == 3:
        a["k"], a["fam"] = 1, "RT"
    a["form"] = rng.choice(PROBLEMS[a["dim"]])
    if kind == "gen" and a["obj"]["kind"] in ("net", "lines"):
        a["form"] = rng.choice(["laplace_primal", "l2"])
    a["exports"] = rng.sample(["vtk", "data", "solution", "exact"], rng.randint(1, 3 if kind != "md" else 2))
    a["project"] = rng.random() < 0.5
    a["fill"] = rng.random() < 0.3
    # options of the post-processing
    a["skip"], a["partial"] = rng.random() < 0.3, rng.random() < 0.3
    a["centred"] = rng.choice([None, None, "first", "all"])
    a["colour"] = rng.random() < 0.2
    return a


def content(name):
    with open(name, "rb") as f:
        return lib.plain(np.frombuffer(f.read(), np.uint8))


def tags_of(a):
    """(cell tags, side tags) of the analysed mesh."""
    if a["kind"] == "spec":
        return [1], [2 + 2 * d + s for d in range(a["dim"]) for s in (0, 1)]
    if a["kind"] == "md":
        return [1], [2, 3, 4, 5]
    t = c07.default_tags(a["obj"])
    return [v for k, v in t.items() if not k.startswith("bc_")], [v for k, v in t.items() if k.startswith("bc_")]


def md_lines(a):
    return np.array([[p + [0.0] for p in ln] for ln in a["lines"]], float)


BOX = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], float)


def write_source(a, name, prefix=""):
    """The mesh file, written the way its users write it."""
    if a["kind"] == "spec":
        lib.write_spec(lib.map_spec(a["spec"], a["aff"]), name)
        return None
    with lib.quiet():
        if a["kind"] == "md":
            dom = create_md_box_2D(BOX, None, md_lines(a), {"line": 10, "internal_bc": 20, "point": 30})
            m = lib.DiscreteDomain(dimension=2)
            m.domain = dom
            m.generate_mesh({"lc": a["lc"], "curves_refinement": ([10], {"n_points": 4, "coef": 1.0})})
            m.write_mesh(name)
            return c07.describe(dom)
        x = c07.make(a["obj"])
        m = c07.mesher_for(a["obj"], x, a["g"])
        c07.generate(a["obj"], m, a["g"])
        m.write_mesh(name)
        return c07.describe(x)


def assemble(a, sp, name, shift=0):
    n = sp.n_dof + shift
    alpha = np.random.default_rng(a["seed"]).uniform(-1, 1, n)
    res, A = np.zeros(n), lib.aij(n)
    A.setUp()
    todo = {}
    for f in (name, name.replace("_vec", "") + "_bc"):
        if f not in forms.FORMS or a["dim"] not in forms.FORMS[f]["dims"]:
            continue
        w = forms.make(f, sp, forms.functions(f, a["dim"], a["coef"]))
        spaces = list(sp.discrete_spaces.values())
        if forms.FORMS[f]["bc"]:
            ids = range(min([len(s.bc_elements) for s in spaces if s.bc_elements] or [0]))
        else:
            ids = range(len(spaces[0].elements))
        todo[f] = ["bc_form" if forms.FORMS[f]["bc"] else "form", ids, w, alpha]
    asm = lib.SequentialAssembler(sp, A, res)
    asm.form_to_input_list = todo
    asm.scatter_forms(measure_time_q=True)
    A.assemble()
    return A, res


def exact(a, fields):
    out = {}
    for n, f in fields.items():
        p = lib.poly(a["dim"], f["fam"], f["comp"], 1, a["coef"])
        if lib.is_vector(a["dim"], f["fam"]):
            out[n] = lambda x, y, z, p=p: p(x, y, z)[:, :a["dim"]]
        else:
            out[n] = p
    return out


def analysis(a, mode="rewrite", ack=lambda *names: None, objects=None):
    """Yields (stage, result). Files: m.msh, then the exports.

    mode 'reuse' loads an existing mesh file and generates one only when there is
    none or it is refused; `ack` hears of files whose writer returned, and "=loaded"
    when an existing mesh file was accepted; `objects` collects the live objects of the analysis.
    """
    dim, name = a["dim"], "m.msh"
    keep = objects if objects is not None else []
    mesh = None

    def load():
        with lib.quiet():
            m = lib.Mesh(dimension=dim, file_name=name)
            m.build_conformal_mesh()
        return m

    if mode == "reuse" and os.path.exists(name):
        try:
            mesh = load()
            ack("=loaded")
        except (Exception, SystemExit):
            mesh = None
    if mesh is None:
        dom = write_source(a, name)
        ack(name)
        if dom is not None and mode == "rewrite":
            yield "domain", lib.plain(dom)
        mesh = load()
    yield "file", content(name)
    yield "mesh", lib.describe_mesh(mesh)
    keep.append(("mesh", mesh, lib.describe_mesh))
    cells, sides = tags_of(a)
    with lib.quiet():
        yield "size", lib.plain(mesh_size(mesh, dim, cells[0]))
        for co in range(1, dim + 1):
            g = mesh.build_graph(dim, co)
            yield "graph", [list(map(repr, g.nodes())), list(map(repr, g.edges()))]
        if a["kind"] == "md":
            pt = {"line": 10, "internal_bc": 20, "point": 30, "line_clones": 50, "point_clones": 100}
            out = cut_conformity_along_c1_lines(md_lines(a), pt, mesh, a["visual"])
            yield "cut", [[[int(c.id) for c in part] for part in q["c1"]] for q in out]
            yield "cut mesh", lib.describe_mesh(mesh)
        name_f = a["form"]
        fields = forms.FORMS[name_f]["fields"](dim, a["fam"], a["k"])
        bf = forms.boundary_fields(name_f, fields)
        bt = sides + ([50] if a["kind"] == "md" else [])
        sp = lib.make_space(mesh, dim, fields, {n: cells for n in fields}, {n: bt for n in bf})
        keep.append(("space", sp, lib.describe_space))
        yield "space", lib.describe_space(sp)
        if a["kind"] == "md":
            low = {"v": {"fam": "RT", "k": 1, "comp": 1, "disc": False}, "q": {"fam": "Lagrange", "k": 0, "comp": 1, "disc": True}}
            sp1 = lib.make_space(mesh, 1, low, {n: [10] for n in low}, {"v": [2, 3, 4, 5]})
            sp1.dof_shift = sp.n_dof
            keep.append(("line space", sp1, lib.describe_space))
            yield "line space", lib.describe_space(sp1)
        A, res = assemble(a, sp, name_f)
        D = lib.to_dense(A)
        yield "system", lib.plain([res, D])
        alpha = np.linalg.solve(D + np.eye(len(D)) * (1.0 + abs(D).max()), -res)
        yield "solution", lib.plain(alpha)
        funs = exact(a, fields)
        if a["project"]:
            alpha = np.array(lib.l2_projector(sp, funs))
            yield "projection", lib.plain(alpha)
        first = sp.names[0]
        if a.get("partial"):
            # a function of a field is missing
            try:
                out = lib.plain(lib.l2_error(dim, sp, {n: f for n, f in funs.items() if n != first}, alpha))
            except Exception as e:  # noqa: BLE001
                out = type(e).__name__
            yield "error without a function", out
        if a.get("skip"):
            yield "error of some fields", lib.plain(lib.l2_error(dim, sp, funs, alpha, skip_fields=[first]))
        yield "error", lib.plain(lib.l2_error(dim, sp, funs, alpha))
        yield "norm", lib.plain(lib.norms.l2_norm(dim, sp, funs))
        for e in a["exports"]:
            if e == "vtk":
                mesh.write_vtk("g", **({"coloring_mesh_q": True} if a.get("colour") else {}))
                names = [f"g_{d}d.vtk" for d in sorted({c.dimension for c in mesh.cells if c.material_id is not None})]
            elif e == "data":
                mesh.write_data("g.txt")
                names = ["g.txt"]
            else:
                ok = all(f["comp"] <= dim for f in fields.values())
                if not ok:
                    continue
                names = [e + ".vtk"]
                opt = {"first": [[first]], "all": [list(sp.names)]}.get(a.get("centred"), [])
                if e == "solution":
                    lib.spp.write_vtk_file(names[0], mesh, sp, alpha, *opt)
                else:
                    lib.spp.write_vtk_file_with_exact_solution(names[0], mesh, sp, funs, alpha, *opt)
            ack(*names)
            for n in names:
                yield n, content(n)
