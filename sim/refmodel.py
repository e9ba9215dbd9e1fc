"""Independent reference models: mesh topology, MSH reader, dof layout."""
import itertools

import numpy as np

from sim.runner import Violation, check, judging

# local sub-entities of the reference simplices, in the order the library's
# elements (basix) number them
LOCAL = {
    0: {0: [(0,)]},
    1: {0: [(0,), (1,)], 1: [(0, 1)]},
    2: {0: [(0,), (1,), (2,)], 1: [(1, 2), (0, 2), (0, 1)], 2: [(0, 1, 2)]},
    3: {0: [(0,), (1,), (2,), (3,)],
        1: [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
        2: [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)], 3: [(0, 1, 2, 3)]},
}
NPE = {15: 1, 1: 2, 2: 3, 4: 4}


def simplices_of(spec):
    return [(tuple(f), t) for f, t in spec["facets"]] + [(tuple(c), t) for c, t in spec["cells"]]


def parse_msh41(text):
    """points, [(nodes, physical tag)] of a complete ASCII MSH 4.1 file, or None."""
    lines = text.split("\n")
    sec, i = {}, 0
    while i < len(lines):
        s = lines[i].strip()
        if s.startswith("$") and not s.startswith("$End"):
            name, j = s[1:], i + 1
            while j < len(lines) and lines[j].strip() != "$End" + name:
                j += 1
            if j == len(lines):
                return None
            sec[name] = lines[i + 1:j]
            i = j
        elif s:
            return None
        i += 1
    if not {"MeshFormat", "Entities", "Nodes", "Elements"} <= set(sec):
        return None
    if sec["MeshFormat"][0].split()[:2] != ["4.1", "0"]:
        return None
    ent = sec["Entities"]
    counts = [int(v) for v in ent[0].split()]
    phys, p = {}, 1
    for d in range(4):
        for _ in range(counts[d]):
            v = ent[p].split()
            p += 1
            k = 4 if d == 0 else 7
            n = int(v[k])
            phys[(d, int(v[0]))] = [int(q) for q in v[k + 1:k + 1 + n]]
    nl = sec["Nodes"]
    nb = int(nl[0].split()[0])
    p, index, pts = 1, {}, []
    for _ in range(nb):
        cnt = int(nl[p].split()[3])
        p += 1
        tags = [int(nl[p + q]) for q in range(cnt)]
        p += cnt
        for t in tags:
            index[t] = len(pts)
            pts.append([float(v) for v in nl[p].split()[:3]])
            p += 1
    el = sec["Elements"]
    nb = int(el[0].split()[0])
    p, simp = 1, []
    for _ in range(nb):
        d, tag, typ, cnt = (int(v) for v in el[p].split())
        p += 1
        for _ in range(cnt):
            v = [int(q) for q in el[p].split()]
            p += 1
            simp.append((tuple(index[q] for q in v[1:1 + NPE[typ]]), phys[(d, tag)][0]
                         if phys[(d, tag)] else None))
    return pts, simp


class RefMesh:
    def __init__(self, dim, points, simplices):
        self.dim, self.points = dim, points
        self.ents = {d: {} for d in range(4)}  # frozenset -> material
        for i in range(len(points)):
            self.ents[0][frozenset((i,))] = None
        # node order of the entities that the file lists before any simplex they bound: the others exist by then
        self.order = {}
        for nodes, tag in simplices:
            d = len(nodes) - 1
            if frozenset(nodes) not in self.ents[d] or d == 0:
                self.order[frozenset(nodes)] = tuple(nodes)
            for k in range(1, d + 1):
                for loc in itertools.combinations(nodes, k + 1):
                    self.ents[k].setdefault(frozenset(loc), None)
            if tag is not None:
                self.ents[d][frozenset(nodes)] = tag
            else:
                self.ents[d].setdefault(frozenset(nodes), None)

    @classmethod
    def of_spec(cls, spec):
        return cls(spec["dim"], spec["points"], simplices_of(spec))

    def cells(self, d, tags):
        return [e for e, t in self.ents[d].items() if t in tags]


def check_mesh(m, ref, exact_order=True):
    """The library's mesh is exactly the reference mesh, with complete topology."""
    with judging("mesh"):
        pts = np.asarray(m.points, float)
        check(pts.shape == (len(ref.points), 3), "mesh-points",
              f"{pts.shape[0]} points instead of {len(ref.points)}")
        check(np.array_equal(pts, np.array(ref.points, float)), "mesh-points",
              "coordinates differ from the file")
        seen = {d: {} for d in range(4)}
        check(len(m.cells) == sum(len(v) for v in ref.ents.values()), "mesh-cells",
              lambda: f"{len(m.cells)} cells instead of {sum(len(v) for v in ref.ents.values())}")
        for i, c in enumerate(m.cells):
            check(c is not None, "mesh-cells", f"hole at cell {i}")
            check(int(c.id) == i, "mesh-cells", f"cell at {i} has id {c.id}")
            d = int(c.dimension)
            nodes = tuple(int(v) for v in np.ravel(c.node_tags))
            key = frozenset(nodes)
            check(len(nodes) == d + 1 and len(key) == d + 1, "mesh-cells",
                  f"cell {i} of dimension {d} has nodes {nodes}")
            check(key in ref.ents[d], "mesh-cells", f"cell {i} {nodes} is not in the file")
            check(key not in seen[d], "mesh-cells", f"entity {nodes} appears twice")
            seen[d][key] = i
            if exact_order and key in ref.order:
                check(ref.order[key] == nodes, "mesh-cells",
                      f"cell {i}: node order {nodes}, file says {ref.order[key]}")
            want = ref.ents[d][key]
            got = None if c.material_id is None else int(c.material_id)
            check(got == want, "mesh-tags", f"cell {i} {nodes} has physical tag {got}, file says {want}")
        for i, c in enumerate(m.cells):
            d = int(c.dimension)
            nodes = [int(v) for v in np.ravel(c.node_tags)]
            for sd in range(d + 1):
                want = [seen[sd][frozenset(nodes[q] for q in loc)] for loc in LOCAL[d][sd]]
                got = [int(v) for v in np.ravel(c.sub_cells_ids[sd])]
                check(got == want, "mesh-topology",
                      f"cell {i} of dimension {d}: sub-entities of dimension {sd} are {got}, expected {want}")


# ----------------------------------------------------------------------- dofs
def ref_element(dim, fam, k, disc):
    import basix

    families = {"Lagrange": basix.ElementFamily.P, "RT": basix.ElementFamily.RT,
                "BDM": basix.ElementFamily.BDM, "N1E": basix.ElementFamily.N1E,
                "N2E": basix.ElementFamily.N1E}  # this library's N2E is N1E
    ct = {0: basix.CellType.point, 1: basix.CellType.interval,
          2: basix.CellType.triangle, 3: basix.CellType.tetrahedron}[dim]
    if dim == 1 and fam != "Lagrange":
        fam = "Lagrange"
    return basix.create_element(family=families[fam], celltype=ct, degree=k,
                                lagrange_variant=basix.LagrangeVariant.gll_centroid,
                                discontinuous=disc)


def check_space(sp, mesh, ref, dim, fields, tags, btags):
    """Numbering conforms to the topology: entity blocks, gluing, totals, boundary."""
    with judging("space"):
        check(list(sp.discrete_spaces.keys()) == list(fields), "space-fields",
              f"{list(sp.discrete_spaces)} != {list(fields)}")
        stride = 0
        by_key = {}
        for c in mesh.cells:
            by_key[(int(c.dimension), frozenset(int(v) for v in np.ravel(c.node_tags)))] = c
        for name, f in fields.items():
            s = sp.discrete_spaces[name]
            re = ref_element(dim, f["fam"], f["k"], f["disc"])
            want = {frozenset(e) for e in ref.cells(dim, tags.get(name, []))}
            got = [frozenset(int(v) for v in np.ravel(e.data.cell.node_tags)) for e in s.elements]
            check(len(got) == len(set(got)) and set(got) == want, "space-elements",
                  f"{name}: {len(got)} elements ({len(set(got))} distinct) for {len(want)} tagged cells")
            check([int(e.data.cell.id) for e in s.elements] == [int(i) for i in s.element_ids],
                  "space-elements", f"{name}: elements are not in the order of their ids")
            check({int(k): int(v) for k, v in s.id_to_element.items()}
                  == {int(e.data.cell.id): i for i, e in enumerate(s.elements)},
                  "space-elements", f"{name}: id lookup table is wrong")
            nd = [[int(q) for q in row] for row in re.num_entity_dofs]
            per = [row[0] if row else 0 for row in nd]
            ents = {d: set() for d in range(dim + 1)}
            for e in want:
                for d in range(dim + 1):
                    for sub in itertools.combinations(sorted(e), d + 1):
                        ents[d].add(frozenset(sub))
            total = sum(len(ents[d]) * per[d] for d in range(dim + 1)) * f["comp"]
            check(int(s.n_dof) == total, "space-dof-count", f"{name}: {s.n_dof} dofs, expected {total}")
            blocks = {}
            for i, e in enumerate(s.elements):
                check(str(e.basis_generator.family) == str(re.family)
                      and int(e.basis_generator.degree) == int(re.degree)
                      and bool(e.basis_generator.discontinuous) == bool(re.discontinuous)
                      and int(e.basis_generator.dim) == int(re.dim),
                      "space-elements", f"{name}: element {i} is not {f}")
                check(int(e.data.dof.n_dof) == int(re.dim), "space-elements",
                      f"{name}: element {i} claims {e.data.dof.n_dof} functions, has {re.dim}")
                dest = [int(v) for v in sp.destination_indexes(i, name)]
                check(len(dest) == int(re.dim) * f["comp"], "space-dof-layout",
                      f"{name}: element {i} addresses {len(dest)} dofs, needs {int(re.dim) * f['comp']}")
                nodes = [int(v) for v in np.ravel(e.data.cell.node_tags)]
                p = 0
                for d in range(dim + 1):
                    for loc in LOCAL[dim][d]:
                        key = frozenset(nodes[q] for q in loc)
                        blk = tuple(dest[p:p + per[d] * f["comp"]])
                        p += per[d] * f["comp"]
                        if not blk:
                            continue
                        old = blocks.setdefault(key, blk)
                        check(old == blk, "space-gluing",
                              f"{name}: entity {sorted(key)} has dofs {old} and {blk}")
                bce = [mesh.cells[int(q)].material_id is not None
                       for q in np.ravel(e.data.cell.sub_cells_ids[dim - 1])]
                check([bool(v) for v in np.ravel(e.data.bc_entities)] == bce, "space-elements",
                      f"{name}: element {i} boundary flags")
            flat = [v for b in blocks.values() for v in b]
            off = stride + int(sp.dof_shift)
            check(sorted(flat) == list(range(off, off + total)), "space-dof-layout",
                  f"{name}: global dofs are not exactly {off}..{off + total - 1}, each once")
            # boundary elements
            bt = list(btags.get(name, []))
            wantb = {e for e in ref.cells(dim - 1, bt) if any(e <= c for c in want)} if bt else set()
            gotb = [frozenset(int(v) for v in np.ravel(e.data.cell.node_tags)) for e in s.bc_elements]
            check(len(gotb) == len(set(gotb)) and set(gotb) == wantb, "space-boundary",
                  f"{name}: {len(gotb)} boundary elements for {len(wantb)} tagged facets")
            check([int(e.data.cell.id) for e in s.bc_elements] == [int(i) for i in s.bc_element_ids],
                  "space-boundary", f"{name}: boundary elements are not in the order of their ids")
            check({int(k): int(v) for k, v in s.id_to_bc_element.items()}
                  == {int(e.data.cell.id): i for i, e in enumerate(s.bc_elements)},
                  "space-boundary", f"{name}: boundary id lookup table is wrong")
            for i, e in enumerate(s.bc_elements):
                nodes = [int(v) for v in np.ravel(e.data.cell.node_tags)]
                exp = []
                for d in range(dim):
                    for loc in LOCAL[dim - 1][d]:
                        exp += list(blocks.get(frozenset(nodes[q] for q in loc), ()))
                if exp or any(per[:dim]):
                    got_d = [int(v) for v in sp.bc_destination_indexes(i, name)]
                    check(got_d == exp, "space-boundary",
                          f"{name}: boundary element {i} addresses {got_d}, its facet carries {exp}")
            stride += total
        check(int(sp.n_dof) == stride, "space-dof-count", f"product space has {sp.n_dof} dofs, expected {stride}")
