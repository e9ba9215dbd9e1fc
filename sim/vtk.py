"""Independent reader of legacy VTK files (unstructured grids); raises on anything incomplete."""
import numpy as np

NODES = {1: 1, 3: 2, 5: 3, 10: 4}
DIM = {1: 0, 3: 1, 5: 2, 10: 3}
TYPES = {"double": ">f8", "float": ">f4", "int": ">i4", "vtktypeint64": ">i8", "long": ">i8",
         "vtktypeint32": ">i4", "unsigned_char": ">u1", "vtkidtype": ">i8", "vtktypeint16": ">i2",
         "vtktypeint8": ">i1", "vtktypeuint8": ">u1", "vtktypeuint16": ">u2", "vtktypeuint32": ">u4",
         "vtktypeuint64": ">u8", "char": ">i1", "short": ">i2", "unsigned_short": ">u2", "unsigned_int": ">u4",
         "unsigned_long": ">u8"}


class BadVtk(Exception):
    pass


class _Reader:
    def __init__(self, data):
        self.d, self.i, self.ascii = data, 0, False

    def line(self):
        """Next non-empty line, None at the end."""
        while self.i < len(self.d):
            j = self.d.find(b"\n", self.i)
            if j < 0:
                j = len(self.d)
            s = self.d[self.i:j]
            self.i = j + 1
            if s.strip():
                return s.decode("ascii")
        return None

    def array(self, kind, n):
        if kind not in TYPES:
            raise BadVtk(f"data type {kind}")
        dt = np.dtype(TYPES[kind])
        if self.ascii:
            out = []
            while len(out) < n:
                s = self.line()
                if s is None:
                    raise BadVtk("ends inside an array")
                out += s.split()
            if len(out) != n:
                raise BadVtk("array of another length")
            return np.array([float(v) for v in out]).astype(dt.newbyteorder("="))
        k = n * dt.itemsize
        if self.i + k > len(self.d):
            raise BadVtk("ends inside an array")
        a = np.frombuffer(self.d[self.i:self.i + k], dt).astype(dt.newbyteorder("="))
        self.i += k
        return a


def read(path):
    """{"points", "cells": [(dim, nodes)], "point": {name: array}, "cell": {name: array}}."""
    with open(path, "rb") as f:
        r = _Reader(f.read())
    if not (r.line() or "").startswith("# vtk DataFile"):
        raise BadVtk("no header")
    r.line()
    mode = (r.line() or "").strip()
    if mode not in ("BINARY", "ASCII"):
        raise BadVtk(f"mode {mode!r}")
    r.ascii = mode == "ASCII"
    out = {"points": None, "cells": None, "point": {}, "cell": {}}
    where = n_where = None
    offsets = conn = types = flat = None
    while (s := r.line()) is not None:
        w = s.split()
        k = w[0].upper()
        if k in ("DATASET", "METADATA"):
            continue
        if k == "POINTS":
            out["points"] = r.array(w[2].lower(), 3 * int(w[1])).reshape(-1, 3)
        elif k == "CELLS":
            a, b = int(w[1]), int(w[2])
            pos = r.i
            nxt = r.line()
            if nxt and nxt.split()[0].upper() == "OFFSETS":
                offsets = r.array(nxt.split()[1].lower(), a)
                nxt = r.line()
                if not nxt or nxt.split()[0].upper() != "CONNECTIVITY":
                    raise BadVtk("no connectivity")
                conn = r.array(nxt.split()[1].lower(), b)
            else:
                r.i = pos
                flat = r.array("int", b)
        elif k == "CELL_TYPES":
            types = r.array("int", int(w[1]))
        elif k in ("POINT_DATA", "CELL_DATA"):
            where, n_where = ("point" if k == "POINT_DATA" else "cell"), int(w[1])
        elif k == "FIELD":
            for _ in range(int(w[2])):
                h = (r.line() or "").split()
                if len(h) < 4:
                    raise BadVtk("field header missing")
                name, nc, nt, kind = h[-4], int(h[-3]), int(h[-2]), h[-1]
                if nt != n_where:
                    raise BadVtk("field of another length")
                out[where][name] = r.array(kind.lower(), nc * nt).reshape(nt, nc)
        elif k == "SCALARS":
            nc = int(w[3]) if len(w) > 3 else 1
            r.line()
            out[where][w[1]] = r.array(w[2].lower(), nc * n_where).reshape(-1, nc)
        elif k == "VECTORS":
            out[where][w[1]] = r.array(w[2].lower(), 3 * n_where).reshape(-1, 3)
        else:
            raise BadVtk(f"section {k}")
    if out["points"] is None or types is None:
        raise BadVtk("no points or no cells")
    cells = []
    if flat is not None:
        i = 0
        for t in types:
            n = int(flat[i])
            cells.append((DIM.get(int(t)), tuple(int(v) for v in flat[i + 1:i + 1 + n])))
            i += n + 1
        if i != len(flat):
            raise BadVtk("connectivity of another length")
    else:
        if offsets is None or len(offsets) != len(types) + 1 or offsets[-1] != len(conn):
            raise BadVtk("offsets of another length")
        for a, b, t in zip(offsets, offsets[1:], types):
            cells.append((DIM.get(int(t)), tuple(int(v) for v in conn[a:b])))
    for (d, nodes), t in zip(cells, types):
        if d is None or len(nodes) != NODES[int(t)]:
            raise BadVtk(f"cell type {t} with {len(nodes)} nodes")
        if any(not 0 <= v < len(out["points"]) for v in nodes):
            raise BadVtk("node out of range")
    out["cells"] = cells
    for part, n in (("point", len(out["points"])), ("cell", len(cells))):
        for name, a in out[part].items():
            if len(a) != n:
                raise BadVtk(f"{part} data {name} of another length")
    return out
