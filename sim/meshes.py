"""Small random simplicial meshes written by the harness itself (no gmsh).

A *mesh spec* is plain JSON data: points, simplices by dimension with their
physical tag.  It is the ground truth every mesh related oracle compares with.
Nodes are renumbered at random, simplices keep a positive orientation (that is
what gmsh delivers and what the Piola maps of the library rely on) but start at
a random local vertex.
"""
import itertools
import random

import numpy as np


def _signed(p, c):
    p = np.asarray(p, float)
    d = len(c) - 1
    if d == 1:
        return p[c[1]][0] - p[c[0]][0]
    if d == 2:
        a, b = p[c[1]] - p[c[0]], p[c[2]] - p[c[0]]
        return a[0] * b[1] - a[1] * b[0]
    return float(np.linalg.det(np.array([p[c[i]] - p[c[0]] for i in (1, 2, 3)])))


EVEN = {
    2: [(0, 1)],
    3: [(0, 1, 2), (1, 2, 0), (2, 0, 1)],
    4: [
        q
        for q in itertools.permutations(range(4))
        if sum(q[i] > q[j] for i in range(4) for j in range(i + 1, 4)) % 2 == 0
    ],
}


def make_spec(rng: random.Random, dim, shape=None, materials=1, permute=True,
              perturb=None, interface=False):
    """Structured simplicial grid of the unit box with random numbering.

    materials=2 splits the box at x=1/2 (cell tags 1 and 11); boundary facets are
    tagged 2.. as the library's own boxes do; interface=True also tags the facets
    between the two materials with tag 50.
    """
    if perturb is None:  # every fourth mesh is uniform: congruent cells
        perturb = rng.random() < 0.75
    if shape is None:
        shape = {1: (rng.randint(2, 6),),
                 2: (rng.randint(1, 3), rng.randint(1, 3)),
                 3: (rng.randint(1, 2), 1, rng.randint(1, 2))}[dim]
        if rng.random() < 0.04:  # many cells
            shape = {1: (int(2 ** rng.uniform(3, 8.2)),),
                     2: (rng.randint(3, 8), rng.randint(3, 8)),
                     3: (rng.randint(1, 3), rng.randint(1, 2), rng.randint(2, 3))}[dim]
    n = list(shape) + [0] * (3 - dim)
    idx, pts = {}, []
    for k in range(n[2] + 1):
        for j in range(n[1] + 1):
            for i in range(n[0] + 1):
                idx[(i, j, k)] = len(pts)
                p = [i / n[0], j / n[1] if n[1] else 0.0, k / n[2] if n[2] else 0.0]
                if perturb:
                    for d, (q, m) in enumerate(zip((i, j, k), n)):
                        if m and 0 < q < m and not (d == 0 and 2 * q == m):
                            p[d] += rng.uniform(-0.18, 0.18) / m
                pts.append(p)
    cells = []
    if dim == 1:
        for i in range(n[0]):
            cells.append([idx[(i, 0, 0)], idx[(i + 1, 0, 0)]])
    elif dim == 2:
        for j in range(n[1]):
            for i in range(n[0]):
                a, b = idx[(i, j, 0)], idx[(i + 1, j, 0)]
                c, d = idx[(i + 1, j + 1, 0)], idx[(i, j + 1, 0)]
                if rng.random() < 0.5:
                    cells += [[a, b, c], [a, c, d]]
                else:
                    cells += [[a, b, d], [b, c, d]]
    else:
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    for perm in itertools.permutations(range(3)):
                        q = [i, j, k]
                        t = [idx[tuple(q)]]
                        for ax in perm:
                            q[ax] += 1
                            t.append(idx[tuple(q)])
                        cells.append(t)
    P = np.array(pts, float)
    for c in cells:
        if dim > 1 and _signed(P, c) < 0:
            c[0], c[1] = c[1], c[0]
    mats = []
    for c in cells:
        xc = float(np.mean(P[c], axis=0)[0])
        mats.append(1 if (materials == 1 or xc < 0.5) else 11)
    # facets
    count = {}
    for e, c in enumerate(cells):
        for f in itertools.combinations(sorted(c), dim):
            count.setdefault(f, []).append(e)
    facets = []
    for f, owners in count.items():
        if len(owners) == 1:
            xc = np.mean(P[list(f)], axis=0)
            tag = None
            for d in range(dim):
                for side in (0.0, 1.0):
                    if abs(xc[d] - side) < 1e-12:
                        tag = 2 + 2 * d + int(side)
            facets.append((list(f), tag))
        elif interface and mats[owners[0]] != mats[owners[1]]:
            facets.append((list(f), 50))
    # numbering
    perm = list(range(len(pts)))
    if permute:
        rng.shuffle(perm)
    newpts = [None] * len(pts)
    for i, p in enumerate(pts):
        newpts[perm[i]] = p
    cells2 = []
    for c in cells:
        c = [perm[v] for v in c]
        q = rng.choice(EVEN[len(c)])
        cells2.append([c[i] for i in q])
    facets2 = []
    for f, t in facets:
        f = [perm[v] for v in f]
        rng.shuffle(f)
        facets2.append((f, t))
    if permute:
        order = list(range(len(cells2)))
        rng.shuffle(order)
        cells2 = [cells2[i] for i in order]
        mats = [mats[i] for i in order]
        rng.shuffle(facets2)
    return {
        "dim": dim,
        "points": newpts,
        "cells": [[c, m] for c, m in zip(cells2, mats)],
        "facets": [[f, t] for f, t in facets2],
    }


GMSH_TYPE = {0: 15, 1: 1, 2: 2, 3: 4}


def to_msh41(spec):
    """MSH 4.1 ASCII text of a spec, laid out as gmsh lays it out."""
    dim = spec["dim"]
    blocks = []  # (dim, tag, simplices)
    for d, items in ((0, spec.get("vertices", [])), (dim - 1, spec["facets"]), (dim, spec["cells"])):
        for tag in sorted({t for _, t in items}):
            blocks.append((d, tag, [c for c, t in items if t == tag]))
    ent = {}
    for d, tag, _ in blocks:
        ent.setdefault(d, []).append(tag)
    out = ["$MeshFormat", "4.1 0 8", "$EndMeshFormat", "$Entities"]
    out.append(" ".join(str(len(ent.get(d, []))) for d in range(4)))
    for d in range(4):
        for tag in ent.get(d, []):
            if d == 0:
                out.append(f"{tag} 0 0 0 1 {tag} ")
            else:
                out.append(f"{tag} 0 0 0 1 1 1 1 {tag} 0 ")
    out.append("$EndEntities")
    pts = spec["points"]
    cell_tag = spec["cells"][0][1]
    out += ["$Nodes", f"1 {len(pts)} 1 {len(pts)}", f"{dim} {cell_tag} 0 {len(pts)}"]
    out += [str(i + 1) for i in range(len(pts))]
    out += [" ".join(repr(float(v)) for v in p) for p in pts]
    out.append("$EndNodes")
    n_el = sum(len(b[2]) for b in blocks)
    out += ["$Elements", f"{len(blocks)} {n_el} 1 {n_el}"]
    eid = 1
    for d, tag, simp in blocks:
        out.append(f"{d} {tag} {GMSH_TYPE[d]} {len(simp)}")
        for c in simp:
            out.append(f"{eid} " + " ".join(str(v + 1) for v in c) + " ")
            eid += 1
    out.append("$EndElements")
    return "\n".join(out) + "\n"
