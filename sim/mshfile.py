"""Mesh files in the layouts a user may bring: MSH 4.1 and 2.2, any order of blocks, any node tags."""
import random

import numpy as np

from sim.meshes import GMSH_TYPE, make_spec


def resolve(spec):
    """Large meshes are kept as the seed that makes them."""
    if "make" not in spec:
        return spec
    mk = spec["make"]
    return make_spec(random.Random(mk["seed"]), mk["dim"], shape=tuple(mk["shape"]), materials=mk["mats"])


def variant(spec, v):
    """Another mesh whose file has the same length: tags exchanged, two points exchanged, a cell turned."""
    r = random.Random(v["seed"])
    out = {"dim": spec["dim"], "points": [list(p) for p in spec["points"]],
           "cells": [[list(s), t] for s, t in spec["cells"]], "facets": [[list(s), t] for s, t in spec["facets"]]}
    if v["kind"] == "retag":
        tags = sorted({t for _, t in out["facets"]})
        new = {}
        for n in sorted({len(str(t)) for t in tags}):
            group = [t for t in tags if len(str(t)) == n]
            new.update(zip(group, group[1:] + group[:1]))
        out["facets"] = [[s, new[t]] for s, t in out["facets"]]
    elif v["kind"] == "points":
        a, b = r.sample(range(len(out["points"])), 2)
        out["points"][a], out["points"][b] = out["points"][b], out["points"][a]
    else:
        c = r.choice(out["cells"])[0]
        c[0], c[1] = c[1], c[0]
    return out


def blocks_of(spec, lay):
    """[dim, physical tag or None, simplices] in the order the file lists them."""
    r = random.Random(lay["seed"])
    dim, out = spec["dim"], []
    for d, items in ((dim - 1, spec["facets"]), (dim, spec["cells"])):
        for tag in sorted({t for _, t in items}):
            simp = [list(c) for c, t in items if t == tag]
            cut = r.randint(1, len(simp) - 1) if lay["split"] and len(simp) > 1 else len(simp)
            out += [[d, tag, s] for s in (simp[:cut], simp[cut:]) if s]
    used = {tag for _, tag, _ in out}
    if lay["extra"]:  # tagged entities of lower dimension: corners, wells, embedded lines
        known = {frozenset(s) for _, _, simp in out for s in simp}
        for d in lay["extra"]:
            if d >= dim:
                continue
            pick = {}
            for _ in range(3):
                c = r.choice(spec["cells"])[0]
                s = r.sample(c, d + 1)
                if frozenset(s) not in known:
                    pick[frozenset(s)] = s
            if pick:
                tag = max(used) + r.randint(1, 40)
                used.add(tag)
                out.insert(0 if d == 0 else r.randint(0, len(out)), [d, tag, list(pick.values())])
    if lay["shuffle"]:
        r.shuffle(out)
    else:
        out.sort(key=lambda b: b[0])
    if lay["untag"]:
        for b in out:
            if lay["untag"] == "all" or r.random() < 0.4:
                b[1] = None
    return out


def simplices(blocks):
    return [(tuple(s), tag) for _, tag, simp in blocks for s in simp]


def alien_block(spec, kind):
    c = spec["cells"][0][0]
    n = len(spec["points"])
    if kind == "quad":
        return (2, 3, [(list(c) + [v for v in range(n) if v not in c])[:4]])
    if kind == "line3":
        return (1, 8, [(list(c) + [v for v in range(n) if v not in c])[:3]])
    return (2, 9, [[v % n for v in range(6)]])


def node_tags(n, lay):
    r = random.Random(lay["seed"] + 1)
    if lay["tags"] == "plain" or lay["fmt"] == "22b":  # the reader takes binary files with plain tags only
        return list(range(1, n + 1))
    t = r.sample(range(1, 3 * n + 5), n)
    return t if lay["tags"] == "mixed" else sorted(t)


def text41(spec, lay, alien=None):
    r = random.Random(lay["seed"] + 2)
    blocks = blocks_of(spec, lay)
    pts = spec["points"]
    tags = node_tags(len(pts), lay)
    ents, rows = {d: [] for d in range(4)}, []
    for d, tag, simp in blocks:
        e = len(ents[d]) + 1
        ents[d].append((e, tag))
        rows.append((d, e, GMSH_TYPE[d], simp))
    if alien:
        d, typ, simp = alien
        e = len(ents[d]) + 1
        ents[d].append((e, 7777))
        rows.append((d, e, typ, simp))
    out = ["$MeshFormat", "4.1 0 8", "$EndMeshFormat"]
    if lay["names"]:
        named = sorted({(d, t) for d, t, _ in blocks if t is not None})
        out += ["$PhysicalNames", str(len(named))] + [f'{d} {t} "part {t}"' for d, t in named] + ["$EndPhysicalNames"]
    out += ["$Entities", " ".join(str(len(ents[d])) for d in range(4))]
    for d in range(4):
        for e, tag in ents[d]:
            ph = "0" if tag is None else f"1 {tag}"
            out.append(f"{e} 0.25 0 -1e-07 {ph} " if d == 0 else f"{e} 0 0 0 1 1 1e-07 {ph} 0 ")
    out.append("$EndEntities")
    cuts = [0, len(pts)]
    if lay["split"]:
        cuts = sorted({0, r.randint(0, len(pts)), r.randint(0, len(pts)), len(pts)})
    some = next((d, e) for d, e, _, _ in rows)
    out += ["$Nodes", f"{len(cuts) - 1} {len(pts)} {min(tags)} {max(tags)}"]
    for a, b in zip(cuts[:-1], cuts[1:]):
        out.append(f"{some[0]} {some[1]} 0 {b - a}")
        out += [str(t) for t in tags[a:b]]
        out += [" ".join(repr(float(v)) for v in p) for p in pts[a:b]]
    out.append("$EndNodes")
    n_el = sum(len(s) for *_, s in rows)
    out += ["$Elements", f"{len(rows)} {n_el} 1 {n_el}"]
    k = 1
    for d, e, typ, simp in rows:
        out.append(f"{d} {e} {typ} {len(simp)}")
        for s in simp:
            out.append(f"{k} " + " ".join(str(tags[v]) for v in s) + " ")
            k += 1
    out.append("$EndElements")
    return "\n".join(out) + "\n"


def text22(spec, lay, alien=None):
    blocks = blocks_of(spec, lay)
    pts = spec["points"]
    tags = node_tags(len(pts), lay)
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
    if lay["names"]:
        named = sorted({(d, t) for d, t, _ in blocks if t is not None})
        out += ["$PhysicalNames", str(len(named))] + [f'{d} {t} "part {t}"' for d, t in named] + ["$EndPhysicalNames"]
    out += ["$Nodes", str(len(pts))]
    out += [f"{t} " + " ".join(repr(float(v)) for v in p) for t, p in zip(tags, pts)]
    out += ["$EndNodes", "$Elements"]
    rows = [(GMSH_TYPE[d], tag, s) for d, tag, simp in blocks for s in simp]
    if alien:
        rows += [(alien[1], 7777, s) for s in alien[2]]
    out.append(str(len(rows)))
    out += [f"{k + 1} {typ} 2 {tag} {tag} " + " ".join(str(tags[v]) for v in s) for k, (typ, tag, s) in enumerate(rows)]
    out.append("$EndElements")
    return "\n".join(out) + "\n"


def bytes22(spec, lay):
    """MSH 2.2, binary."""
    blocks = blocks_of(spec, lay)
    pts = spec["points"]
    tags = node_tags(len(pts), lay)
    out = b"$MeshFormat\n2.2 1 8\n" + np.array([1], "<i4").tobytes() + b"\n$EndMeshFormat\n"
    rec = np.zeros(len(pts), dtype=[("i", "<i4"), ("x", "<f8", 3)])
    rec["i"], rec["x"] = tags, pts
    out += b"$Nodes\n" + f"{len(pts)}\n".encode() + rec.tobytes() + b"\n$EndNodes\n"
    n_el = sum(len(s) for *_, s in blocks)
    out += b"$Elements\n" + f"{n_el}\n".encode()
    k = 1
    for d, tag, simp in blocks:
        out += np.array([GMSH_TYPE[d], len(simp), 2], "<i4").tobytes()
        for s in simp:
            out += np.array([k, tag, tag] + [tags[v] for v in s], "<i4").tobytes()
            k += 1
    return out + b"\n$EndElements\n"


def content(spec, lay, alien=None):
    if lay["fmt"] == "22b":
        return bytes22(spec, lay)
    t = text22(spec, lay, alien) if lay["fmt"] == "22" else text41(spec, lay, alien)
    return t.encode()
