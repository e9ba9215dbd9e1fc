"""Seams first, then the library under test, then helpers shared by the checks."""
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import socket
import sys
import traceback

from sim import sched

sched.install()
if not os.path.isdir(sched.SRC):
    raise SystemExit(f"no library sources at {sched.SRC}")
sys.path.insert(0, sched.SRC.rstrip(os.sep))

import numpy as np  # noqa: E402

import auto_diff.true_np as _ad  # noqa: E402

# auto_diff (a dependency) still uses a name numpy 2 dropped
if not hasattr(_ad, "product"):
    _ad.product = np.prod

with contextlib.redirect_stdout(io.StringIO()):
    import basix  # noqa: E402
    import gmsh  # noqa: E402,F401
    import meshio  # noqa: E402,F401
    from petsc4py import PETSc  # noqa: E402

    from assembly.SequentialAssembler import SequentialAssembler  # noqa: E402
    from basis.element_family import basis_variant, family_by_name  # noqa: E402
    from basis.element_type import type_by_dimension  # noqa: E402
    from basis.finite_element import FiniteElement  # noqa: E402
    from geometry.geometry_builder import GeometryBuilder  # noqa: E402,F401
    from mesh.conformal_mesher import ConformalMesher  # noqa: E402
    from mesh.discrete_domain import DiscreteDomain  # noqa: E402
    from mesh.mesh import Mesh  # noqa: E402
    from postprocess.l2_error_post_processor import l2_error  # noqa: E402
    from postprocess.projectors import l2_projector  # noqa: E402
    from postprocess import solution_norms_post_processor as norms  # noqa: E402
    from postprocess import solution_post_processor as spp  # noqa: E402
    from spaces.product_space import ProductSpace  # noqa: E402
    from topology import domain_market  # noqa: E402
    import weak_forms.l2_projector_weak_form  # noqa: E402,F401
    from weak_forms.laplace_dual_weak_form import (  # noqa: E402
        LaplaceDualWeakForm, LaplaceDualWeakFormBCDirichlet)

from sim.meshes import make_spec, to_msh41  # noqa: E402

SRC = sched.SRC


# ------------------------------------------------------------------- meshes
def write_spec(spec, name):
    with open(name, "w") as f:
        f.write(to_msh41(spec))


def mesh_from_spec(spec, name="h.msh"):
    write_spec(spec, name)
    m = Mesh(dimension=spec["dim"], file_name=name)
    m.build_conformal_mesh()
    return m


# ------------------------------------------------------------------- spaces
FAMS = {  # family -> (orders, polynomial degree reproduced)
    "Lagrange": ((1, 2, 3), lambda k: k),
    "RT": ((1, 2), lambda k: k - 1),
    "BDM": ((1, 2), lambda k: k),
    "N1E": ((1, 2), lambda k: k - 1),
    "N2E": ((1, 2), lambda k: k - 1),  # an alias of N1E in this library
}
VECTOR = ("RT", "BDM", "N1E", "N2E")


def is_vector(dim, fam):
    return fam in VECTOR and dim > 1


def gen_fields(rng, dim, nmax=2, comps=True, kcap=None):
    out = {}
    for n in ("u", "v", "w")[:rng.randint(1, nmax)]:
        fam = rng.choice(["Lagrange", "Lagrange", "RT", "BDM", "N1E"])
        ks = [k for k in FAMS[fam][0] if kcap is None or k <= kcap]
        k = rng.choice(ks if dim < 3 else [q for q in ks if q <= 2])
        if kcap is None and not out and rng.random() < 0.06:  # a high order now and then
            k = rng.choice([3, 4] if fam == "Lagrange" and dim < 3 else [3])
        c = rng.choice([1, 1, min(2, dim), dim]) if comps else 1
        disc = fam == "Lagrange" and rng.random() < 0.3
        if disc and rng.random() < 0.4:
            k = max(0, k - 1)
        out[n] = {"fam": fam, "k": k, "comp": c, "disc": disc}
    return out


def gen_tags(rng, dim, fields, materials):
    """Cell and boundary tags per field: one tag set (all fields of a product
    space are indexed by a common element number), in any order; any field may
    have no boundary."""
    pool = rng.choice([[1], [1, 11], [11]]) if materials == 2 else [1]
    sides = [2 + 2 * d + s for d in range(dim) for s in (0, 1)]
    bpool = rng.sample(sides, rng.randint(1, len(sides)))
    tags, btags = {}, {}
    for n in fields:
        tags[n] = rng.sample(pool, len(pool))
        r = rng.random()
        if r < 0.65:
            btags[n] = rng.sample(bpool, len(bpool))
        elif r < 0.85:
            btags[n] = []
    return tags, btags


def make_space(mesh, dim, fields, tags, btags=None, build=True):
    sp = ProductSpace({n: (dim, f["comp"], f["fam"], f["k"], mesh) for n, f in fields.items()})
    disc = {n: True for n, f in fields.items() if f["disc"]}
    if disc:
        sp.make_subspaces_discontinuous(disc)
    if build:
        sp.build_structures({n: list(t) for n, t in tags.items()},
                            {n: list(t) for n, t in (btags or {}).items()})
    return sp


def poly(dim, fam, comp, deg, coef):
    """Field of polynomials of total degree <= deg with given coefficients."""

    def p(x, y, z, s):
        r = coef[s % len(coef)] + 0.0 * x
        for e in range(1, deg + 1):
            r = r + coef[(s + e) % len(coef)] * x**e
            if dim > 1:
                r = r + coef[(s + 2 * e + 1) % len(coef)] * y**e
            if dim > 2:
                r = r + coef[(s + 3 * e + 2) % len(coef)] * z**e
            if e > 1 and dim > 1:
                r = r + coef[(s + e + 3) % len(coef)] * x ** (e - 1) * y
        return r

    if not is_vector(dim, fam):
        return lambda x, y, z: np.array([p(x, y, z, c) for c in range(comp)])
    return lambda x, y, z: np.array(
        [[p(x, y, z, 3 * c + d) for d in range(3)] for c in range(comp)])


def polys(dim, fields, coef, degree=None):
    out = {}
    for n, f in fields.items():
        d = FAMS[f["fam"]][1](f["k"])
        if f["fam"] in VECTOR and dim == 1:
            d = f["k"] if f["fam"] == "BDM" else f["k"] - 1
        if degree is not None:
            d = degree
        out[n] = poly(dim, f["fam"], f["comp"], max(0, d), coef)
    return out


def gen_affine(rng, dim):
    """Orientation preserving affine map of the plane / space, any length scale."""
    A = np.eye(3)
    if rng.random() < 0.6:
        for i in range(dim):
            A[i, i] = rng.choice([1.0, 1.0, 0.5, 3.0])
            for j in range(i):
                A[i, j] = round(rng.uniform(-0.6, 0.6), 3)
    A *= rng.choice([1.0, 1.0, 1.0, 1e-4, 1e-2, 250.0])
    b = [0.0, 0.0, 0.0]
    if rng.random() < 0.4:
        for i in range(dim):
            b[i] = round(rng.uniform(-2, 2), 2) * A[i, i]
    return {"A": A.tolist(), "b": b}


def map_spec(spec, aff):
    A, b = np.array(aff["A"]), np.array(aff["b"])
    out = dict(spec)
    out["points"] = [[float(v) for v in A @ np.array(p, float) + b] for p in spec["points"]]
    for q in out["points"]:
        for d in range(spec["dim"], 3):
            q[d] = 0.0
    return out


def pullback(funs, aff):
    """Same polynomials in the coordinates before the affine map."""
    Ai, b = np.linalg.inv(np.array(aff["A"])), np.array(aff["b"])

    def wrap(f):
        def g(x, y, z):
            X = [x - b[0], y - b[1], z - b[2]]
            X = [sum(Ai[i, j] * X[j] for j in range(3)) for i in range(3)]
            return f(*X)
        return g

    return {n: wrap(f) for n, f in funs.items()}


def gen_coef(rng):
    return [round(rng.uniform(-2, 2), 3) for _ in range(7)]


# set in processes that have no output of their own: the library then prints to sys.stdout as it finds it
loud = False


@contextlib.contextmanager
def quiet():
    if loud:
        yield
        return
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


# --------------------------------------------------------------- descriptions
def plain(x):
    """Nested plain data of numpy / enum / set values, exact (floats by repr)."""
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()] if x.dtype == object else \
            ["nd", str(x.dtype), list(x.shape), hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return repr(float(x))
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return str(x)


def digest(x):
    return hashlib.sha256(json.dumps(plain(x)).encode()).hexdigest()


def describe_mesh(m):
    return {
        "dim": int(m.dimension),
        "points": plain(np.asarray(m.points)),
        "cells": [
            None if c is None else
            [int(c.dimension), int(c.id), [int(v) for v in np.ravel(c.node_tags)],
             None if c.material_id is None else int(c.material_id),
             [None if s is None else [int(v) for v in np.ravel(s)] for s in c.sub_cells_ids]]
            for c in m.cells],
    }


def describe_element(e):
    return {
        "cell": int(e.data.cell.id),
        "dim": int(e.data.cell.dimension),
        "family": str(e.family),
        "generator": str(e.generator_family),
        "k": int(e.k_order),
        "disc": bool(e.discontinuous),
        "order": int(e.integration_order),
        "n_dof": int(e.data.dof.n_dof),
        "entity_dofs": plain(e.data.dof.entity_dofs),
        "num_entity_dofs": plain(e.data.dof.num_entity_dofs),
        "identity": bool(e.data.dof.transformations_are_identity),
        "transformations": plain({k: np.asarray(v) for k, v in e.data.dof.transformations.items()}),
        "bc": plain(np.asarray(e.data.bc_entities)),
        "basis": [str(e.basis_generator.family), int(e.basis_generator.degree),
                  str(e.basis_generator.cell_type), bool(e.basis_generator.discontinuous),
                  int(e.basis_generator.dim)],
    }


def describe_space(sp):
    out = {"names": list(sp.discrete_spaces.keys()), "n_dof": int(sp.n_dof),
           "shift": int(sp.dof_shift), "order": int(sp.integration_order),
           "tags": plain(sp.fields_physical_tags),
           "quadrature": plain([None if q is None else [np.asarray(q[0]), np.asarray(q[1])]
                                for q in sp.quadrature]),
           "fields": {}}
    n_el = None
    for n, s in sp.discrete_spaces.items():
        n_el = len(s.elements) if n_el is None else min(n_el, len(s.elements))
        out["fields"][n] = {
            "n_dof": int(s.n_dof),
            "ids": [int(i) for i in s.element_ids],
            "index": sorted([int(a), int(b)] for a, b in s.id_to_element.items()),
            "elements": [describe_element(e) for e in s.elements],
            "bc_ids": [int(i) for i in s.bc_element_ids],
            "bc_index": sorted([int(a), int(b)] for a, b in s.id_to_bc_element.items()),
            "bc_elements": [describe_element(e) for e in s.bc_elements],
        }
    out["dest"] = [[int(v) for v in sp.destination_indexes(i)] for i in range(n_el or 0)]
    nb = min([len(s.bc_elements) for s in sp.discrete_spaces.values() if len(s.bc_elements)] or [0])
    out["bc_dest"] = [[int(v) for v in sp.bc_destination_indexes(i)] for i in range(nb)]
    return out


def first_diff(a, b, path=""):
    """Where two plain descriptions differ, for reports."""
    if type(a) is not type(b):
        return f"{path}: {str(a)[:80]} != {str(b)[:80]}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k} missing"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        extra = set(b) - set(a)
        return f"{path}: extra {extra}" if extra else None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {str(a)[:80]} != {str(b)[:80]}"


class Pristine:
    """A copy of this process taken before the run did anything; it forks itself once per request."""

    def __init__(self, close=()):
        self.end, far = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                self.end.close()
                for fd in close:
                    os.close(fd)
                self._serve(far)
            finally:
                os._exit(0)
        far.close()

    @staticmethod
    def _serve(far):
        f = far.makefile("rb")
        while True:
            head = f.read(8)
            if len(head) < 8:
                return
            req = f.read(int.from_bytes(head, "big"))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    far.close()
                    f.close()
                    module, name, where, args = pickle.loads(req)
                    os.chdir(where)
                    try:
                        out = ("ok", getattr(importlib.import_module(module), name)(*args))
                    except BaseException as e:  # noqa: BLE001
                        out = ("exc", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:])
                    data = pickle.dumps(out)
                    with os.fdopen(w, "wb") as g:
                        g.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as g:
                data = g.read()
            os.waitpid(pid, 0)
            data = data or pickle.dumps(("exc", "child died", ""))
            far.sendall(len(data).to_bytes(8, "big") + data)

    def call(self, fn, args):
        req = pickle.dumps((fn.__module__, fn.__name__, os.getcwd(), args))
        self.end.sendall(len(req).to_bytes(8, "big") + req)

        def exactly(n):
            out = b""
            while len(out) < n:
                d = self.end.recv(min(1 << 20, n - len(out)))
                if not d:
                    raise RuntimeError("the pristine process ended")
                out += d
            return out

        return pickle.loads(exactly(int.from_bytes(exactly(8), "big")))


pristine = None


def start_pristine(close=()):
    global pristine
    pristine = Pristine(close)


def in_child(fn, *a):
    """Run fn in a process that has done nothing yet; returns its outcome.

    Used to compute reference results: nothing the run did before, cached or left behind reaches it, and
    nothing it does comes back but its value.  The process is a copy taken before the run began, not of the
    present one: caches of the library filled by the run are not in it.
    """
    return pristine.call(fn, a)


def in_file(name, data, mode="wb"):
    with open(name, mode) as f:
        f.write(data)


def aij(n, dense=None):
    A = PETSc.Mat()
    A.createAIJ([n, n], comm=PETSc.COMM_SELF)
    A.setOption(PETSc.Mat.Option.NEW_NONZERO_ALLOCATION_ERR, False)
    return A


def to_dense(A):
    A.assemble()
    n, m = A.getSize()
    indptr, idx, val = A.getValuesCSR()
    D = np.zeros((n, m))
    for i in range(n):
        for k in range(indptr[i], indptr[i + 1]):
            D[i, idx[k]] += val[k]
    return D


def aim(rng, fault, names=None, p=0.5, functions=40):
    """Lets some of the faults strike inside a function drawn first, whatever share of the steps it has."""
    if rng.random() < p:
        fault["in"] = [rng.choice(names) if names else rng.randrange(functions), int(6 * rng.random() ** 3),
                       int(2 ** rng.uniform(0, 5)) - 1]
    return fault


def rename_tags(rng, sc, p=0.3):
    """Gives materials and sides other numbers, small, large or close together, throughout a scenario."""
    if rng.random() >= p:
        return sc
    kind = rng.choice(["small", "large", "close", "mixed"])
    pool = {"small": range(1, 40), "large": range(200, 70000), "close": range(250, 275),
            "mixed": [1, 2, 3, 255, 256, 257, 300, 1000, 1001, 32767, 32768, 65535, 65536, 70000]}[kind]
    old = [1, 11, 2, 3, 4, 5, 6, 7, 50]
    new = dict(zip(old, rng.sample(pool, len(old))))

    def walk(x, named):
        # anew: parts of a scenario may be shared
        if isinstance(x, dict):
            return {k: [[c, new.get(t, t)] for c, t in v] if k in ("cells", "facets") and isinstance(v, list) else
                    walk(v, named or k in ("tags", "btags", "tags2", "btags2")) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [walk(v, named) for v in x]
        return new.get(x, x) if named and isinstance(x, int) else x

    return walk(sc, False)


def renamed(gen):
    """A generator of scenarios, with the tags renamed in some of them."""
    return lambda rng, tier, i: rename_tags(rng, gen(rng, tier, i))
