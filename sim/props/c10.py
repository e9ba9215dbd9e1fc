"""C10 - fracture input files are read record by record, exactly, or refused."""
import errno
import os
import re

import numpy as np

from sim import lib, sched
from sim.disk import disk, tear
from sim.runner import check, judging, must
from topology.domain_market import build_box_2D_with_lines, build_box_3D_with_planes, read_fractures_file

ID = "C10"
TITLE = "Fracture input files are read record by record, exactly, or refused"
QUICK, THOROUGH = 4000, 400000
RULE = ("distinct digest of (file contents, damage, read faults, interleavings, outcomes) among runs where a "
        "fault took effect or records or a domain were compared")
REAL = ["topology.domain_market (reader and the domains built from files)", "topology shapes", "csv reader",
        "real files"]
STUB = ["file opening and reading (errors and short reads below the buffers)", "allocation failures and "
        "interrupts (raised at a simulated step)", "thread scheduling"]
ASSUMPTIONS = ["files are plain comma separated decimal numbers; not-a-number words and digit grouping are not used",
               "a file cut at the end of a record, or inside its last number, cannot be told from a shorter file",
               "blank lines may be skipped or refused",
               "domains are built from lines and planes in general position"]
LISTS = ["ops"]
NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?")
BOX2 = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]]
BOX3 = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]
BAD = ["abc", "1.2.3", "--1", "1e", "", " ", "0x1p3", "0,5", "1;2", "\x00", "0.5 0.5", "#", "1e5e5", "None"]


def coord(rng):
    r = rng.random()
    if r < 0.5:
        return rng.uniform(-3, 3)
    if r < 0.7:
        return round(rng.uniform(-3, 3), rng.randint(0, 4))
    if r < 0.85:
        return float(rng.randint(-5, 1000))
    return rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)


def text(rng, v):
    s = rng.choice([repr, repr, repr, lambda q: f"{q:.17g}", lambda q: f"{q:+.3e}", lambda q: f"{q:g}"])(v)
    if s.startswith("0.") and rng.random() < 0.2:
        s = s[1:]
    if rng.random() < 0.2:
        s = " " * rng.randint(1, 3) + s
    if rng.random() < 0.1:
        s += " "
    return s


def gen_lines(rng, n):
    """Segments strictly inside the unit box; crossings are at interior points."""
    out = []
    while len(out) < n:
        a, b = ([round(rng.uniform(0.05, 0.95), 3) for _ in range(2)] for _ in range(2))
        if np.hypot(a[0] - b[0], a[1] - b[1]) < 0.15:
            continue
        if all(general(a, b, *o) for o in out):
            out.append((a, b))
    return [[*a, 0.0, *b, 0.0] for a, b in out]


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def general(a, b, p, q):
    """Neither parallel nor touching near an end."""
    d = (b[0] - a[0]) * (q[1] - p[1]) - (b[1] - a[1]) * (q[0] - p[0])
    return abs(d) > 0.02 and all(abs(v) > 5e-3 for v in (cross(a, b, p), cross(a, b, q),
                                                         cross(p, q, a), cross(p, q, b)))


def crossings(lines):
    out = []
    for i, s in enumerate(lines):
        for t in lines[:i]:
            a, b, p, q = s[0:2], s[3:5], t[0:2], t[3:5]
            if cross(a, b, p) * cross(a, b, q) < 0 and cross(p, q, a) * cross(p, q, b) < 0:
                u = cross(p, q, a) / (cross(p, q, a) - cross(p, q, b))
                out.append([a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1])])
    return out


def gen_planes(rng, n):
    """Parallel rectangles inside the unit box, normal to one axis."""
    ax = rng.randrange(3)
    zs = sorted(rng.sample(range(1, 10), n))
    out = []
    for z in zs:
        lo = [round(rng.uniform(0.1, 0.4), 3) for _ in range(2)]
        hi = [round(rng.uniform(0.6, 0.9), 3) for _ in range(2)]
        pts = [[lo[0], lo[1]], [hi[0], lo[1]], [hi[0], hi[1]], [lo[0], hi[1]]]
        out.append([v for p in pts for v in (p[:ax] + [z / 10.0] + p[ax:])])
    rng.shuffle(out)
    return out


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        what = rng.choice(["read", "read", "read", "lines", "planes"])
        n = {"lines": 2, "planes": 4}.get(what) or rng.choice([1, 2, 2, 3, 4, 4])
        if what == "lines":
            recs = gen_lines(rng, rng.randint(1, 4) if rng.random() < 0.9 else rng.randint(5, 7))
        elif what == "planes":
            recs = gen_planes(rng, rng.randint(1, 3))
        else:
            recs = [[coord(rng) for _ in range(3 * n)] for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 40]) if rng.random() < 0.97
                    else rng.randint(200, 1500))]
        if what == "read" and len(recs) > 1 and rng.random() < 0.3:
            recs[-1] = list(recs[0])  # a record may appear twice
        rows = [[text(rng, v) if what == "read" else repr(v) for v in r] for r in recs]
        eol = rng.choice(["\n", "\n", "\n", "\r\n"])
        data = "".join(",".join(r) + eol for r in rows)
        if data and rng.random() < 0.3:
            data = data[:-len(eol)]
        o = {"what": what, "n": n, "data": data, "disk": [], "name": rng.choice(["f.csv", "f.csv", "g.csv"])}
        r = rng.random()
        if r < 0.3 and rows:
            k = rng.randrange(len(rows))
            row = list(rows[k])
            j = rng.randrange(len(row))
            kind = rng.choice(["drop", "drop", "word", "word", "word", "extra", "dropmany", "swap", "double"])
            if kind == "drop":
                del row[j]
            elif kind == "dropmany":
                row = row[:rng.choice([q for q in (1, 2, 3, 4, 6, 8, 9) if q < len(row)] or [0])]
            elif kind == "word":
                row[j] = rng.choice(BAD)
            elif kind == "extra":
                row = row + [row[0]] * rng.randint(1, 3)
            elif kind == "double":
                row = row + row
            else:
                row[j:j + 2] = [";".join(row[j:j + 2]) + ";"]
            o["data"] = eol.join(",".join(row if q == k else s) for q, s in enumerate(rows)) + eol
            o["damage"] = kind
        elif r < 0.45:
            o["tear"] = {"kind": rng.choice(["cut", "cut", "zero", "empty", "gone"]), "at": rng.random(),
                         "len": rng.choice([0.001, 0.02, 0.2])}
        elif r < 0.5:
            o["data"] = o["data"].replace(eol, eol + eol, 1) if rng.random() < 0.5 else o["data"] + eol
        if rng.random() < 0.5:
            o["disk"] = [rng.choice([
                {"op": "read", "n": 1, "at": rng.random()},
                {"op": "short", "n": 1, "max": rng.choice([1, 2, 3, 7, 64])},
                {"op": "short", "n": 1, "max": rng.choice([1, 2, 3, 7, 64])},
                {"op": "open", "mode": "r", "n": 1, "errno": rng.choice([errno.EACCES, errno.EMFILE, errno.EIO])}])]
        elif rng.random() < 0.2:
            o["async"] = lib.aim(rng, {"step": int(2 ** rng.uniform(0, 9)), "kind": rng.choice(["memory", "interrupt"])})
        elif rng.random() < 0.2:
            o["plan"] = {"seed": rng.randrange(1 << 30), "rate": rng.choice([0.01, 0.1, 0.5])}
        if what != "read" and rng.random() < 0.4:
            keys = ["area", "bc_0", "bc_1", "bc_2", "bc_3"] if what == "lines" else \
                ["solid", "bc_0", "bc_1", "bc_2", "bc_3", "bc_4", "bc_5"]
            o["tags"] = dict(zip(keys, rng.sample(range(1, 300), len(keys))))
        if ops and what == ops[-1]["what"] and rng.random() < 0.4 and len(rows) > 1:
            # the last file again, with records exchanged: same name, same length, other content
            q = ops[-1]
            if not q.get("damage") and not q.get("tear") and q["n"] == n:
                ln = q["data"].splitlines(True)
                if all(r.endswith("\n") for r in ln):
                    o["data"], o["name"] = "".join(ln[1:] + ln[:1]), q["name"]
                    o.pop("damage", None)
                    ln2 = o["data"]
                    if ln2 == q["data"] and "1" in ln2:
                        o["data"] = ln2.replace("1", "2", 1) if what == "read" else ln2
        ops.append(o)
    return {"ops": ops, "stamp": rng.random() < 0.4, "share": rng.random() < 0.5}


def parse(data, n):
    """(records, refusable, must refuse) from the bytes of the file."""
    try:
        s = data.decode("utf-8")
    except UnicodeDecodeError:
        return None, True, True
    recs, blank = [], False
    for ln in re.split("\r\n|\n|\r", s[:-1] if s.endswith("\n") and not s.endswith("\r\n") else
                       s[:-2] if s.endswith("\r\n") else s) if s else []:
        if ln == "":
            blank = True
            continue
        w = [q.strip(" \t") for q in ln.split(",")]
        if len(w) != 3 * n or any(not NUMBER.fullmatch(q) for q in w):
            return None, True, True
        recs.append([float(q) for q in w])
    return np.array(recs, float).reshape(len(recs), n, 3), blank or not recs, False


def act(o, name, tags, box):
    with lib.quiet():
        if o["what"] == "read":
            return read_fractures_file(o["n"], name)
        if o["what"] == "lines":
            return build_box_2D_with_lines(box, name, tags)
        return build_box_3D_with_planes(box, name, tags)


def points_of(shape):
    if shape.dimension == 0:
        return [np.asarray(shape.point, float)]
    return [p for b in shape.boundary_shapes for p in points_of(b)]


def same_points(a, b):
    a, b = np.array(a), np.array(b)
    return all(np.abs(b - p).max(axis=1).min() < 1e-12 for p in a) and \
        all(np.abs(a - p).max(axis=1).min() < 1e-12 for p in b)


def check_domain(o, dom, recs):
    d = 1 if o["what"] == "lines" else 2
    tags = o.get("tags") or ({"area": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5} if d == 1 else
                             {"solid": 1, "bc_0": 2, "bc_1": 3, "bc_2": 4, "bc_3": 5, "bc_4": 6, "bc_5": 7})
    top = max(tags.values())
    got = {}
    for s in dom.shapes[d]:
        if s.physical_tag is not None:
            got.setdefault(int(s.physical_tag), []).append(s)
    # sides keep their tags; record k carries the (k+1)-th tag after the largest of the box
    want = {v for k, v in tags.items() if k.startswith("bc_")} | {top + 1 + k for k in range(len(recs))}
    check(set(got) == want, "wrong-tags", lambda: f"{o['what']}: tags {sorted(got)}, expected {sorted(want)}")
    for k, r in enumerate(recs):
        ss = got[top + 1 + k]
        check(len(ss) == 1, "wrong-shapes", lambda: f"tag {top + 1 + k} on {len(ss)} shapes")
        s = ss[0]
        if d == 1:
            pts = points_of(s)
            check(len(pts) == 2, "wrong-geometry", lambda: f"record {k}: {len(pts)} end points")
        else:
            edges = s.boundary_shapes[0].immersed_shapes
            pts = [p for e in edges for p in points_of(e)]
            check(len(edges) == 4, "wrong-geometry", lambda: f"record {k}: {len(edges)} sides")
        check(same_points(pts, r), "wrong-geometry", lambda: f"record {k}: shape has points "
              f"{[p.tolist() for p in pts]}, file {np.array(r).tolist()}")
        if d == 1 and len(s.immersed_shapes):
            # fragments: a chain from end to end
            segs = [points_of(f) for f in s.immersed_shapes]
            length = sum(np.linalg.norm(a - b) for a, b in segs)
            ends = np.array(r)
            check(abs(length - np.linalg.norm(ends[0] - ends[1])) < 1e-9, "wrong-fragments",
                  lambda: f"record {k}: fragments of total length {length}")
    inner = dom.shapes[d + 1]
    check(len(inner) >= 1, "no-domain")
    held = [t for s in inner for t in [x.physical_tag for x in s.immersed_shapes] if t is not None]
    check(sorted(held) == [top + 1 + k for k in range(len(recs))], "not-embedded",
          lambda: f"{o['what']}: embedded tags {held}")
    if d == 1:
        X = crossings([list(np.ravel(r)) for r in recs])
        V = [np.asarray(v.point, float)[:2] for v in dom.shapes[0]]
        want_v = [list(p)[:2] for p in BOX2] + [list(np.array(p)[:2]) for r in recs for p in r] + X
        check(len(V) == len(want_v) and all(min(np.abs(np.array(w) - v).max() for v in V) < 1e-9 for w in want_v),
              "wrong-vertices", lambda: f"{len(V)} vertices {[v.tolist() for v in V]}, expected {want_v}")


def untouched(o, recs):
    """Whether the records are generated ones.  A cut inside the last number (`0.47` -> `0.`) leaves a
    well-formed record of another segment, which may touch the side of the box or another one; what a domain
    looks like then is not specified (the records themselves are still compared for what=read)."""
    full = parse(o["data"].encode(), o["n"])[0]
    return full is not None and all(any(np.array_equal(r, f) for f in full) for r in recs)


def run(sc, ctx):
    last = [dict(o, disk=[], tear=None, plan=None, **{"async": None}) for o in sc["ops"]
            if not o.get("damage")][-1:]
    shared = {}
    for n, o in enumerate(sc["ops"] + last):
        name = o["name"]
        lib.in_file(name, o["data"].encode())
        # the caller's own tag table and corner points; a script uses the same objects again and again
        tags, box = o.get("tags") and dict(o["tags"]), np.array(BOX2 if o["what"] == "lines" else BOX3)
        if sc.get("share"):
            if tags:
                tags = shared.setdefault(repr(sorted(tags.items())), tags)
            box = shared.setdefault(o["what"], box)
        if o.get("damage"):
            ctx.faults["record damaged"] += 1
        if o.get("tear"):
            ctx.faults["file " + o["tear"]["kind"]] += 1
            if os.path.exists(name):
                tear(name, o["tear"])
        data = None
        if os.path.exists(name) and sc.get("stamp"):
            os.utime(name, (1_700_000_000, 1_700_000_000))
        if os.path.exists(name):
            with open(name, "rb") as f:
                data = f.read()
        recs, may, never = parse(data, o["n"]) if data is not None else (None, True, True)
        plan = []
        for f in o["disk"]:
            f = dict(f)
            if f["op"] == "read":
                f["at"] = int(f["at"] * len(data or b""))
            plan.append(f)
        before = sum(ctx.faults[k] for k in ctx.faults if k.startswith(("read", "open")))
        faults = [dict(o["async"], task=0)] if o.get("async") else []
        s = sched.Sched(o.get("plan") or {"switches": []}, faults=faults)
        jobs = [("one", name)]
        if o.get("plan") and data is not None:
            lib.in_file("other.csv", data)
            jobs.append(("two", "other.csv"))
        with disk(plan, ctx.tmp, ctx.faults):
            ts = s.run([(j, lambda nm=nm: act(o, nm, tags, box)) for j, nm in jobs])
        hard = sum(ctx.faults[k] for k in ctx.faults if k.startswith(("read", "open"))) > before
        check((tags or None) == (o.get("tags") or None) and
              np.array_equal(box, BOX2 if o["what"] == "lines" else BOX3), "arguments-modified",
              lambda: f"op {n} ({o['what']}): the caller's table of tags or corner points was changed: {tags}")
        ctx.absorb(s)
        ctx.ops += len(jobs)
        ctx.state(lib.digest((data or b"").decode("latin-1")), o["what"], [(f["op"], f["n"]) for f in plan])
        for t in ts:
            ctx.log(n, type(t.exc).__name__, hard)
            ctx.state(type(t.exc).__name__, hard)
            what = f"op {n} ({o['what']}, {o.get('damage') or o.get('tear') or plan})"
            if t.exc is not None:
                check(never or may or hard or s.fired, "refused-good-file",
                      lambda: f"{what}: {type(t.exc).__name__}: {t.exc}")
                ctx.probes["refused"] += 1
                ctx.nontrivial = ctx.nontrivial or never or hard or bool(s.fired)
                continue
            check(not hard, "read-error-lost", lambda: f"{what}: returned although reading failed")
            check(not never, "accepted-damaged-file", lambda: f"{what}: accepted {data[:300]!r}")
            with judging(what):
                if o["what"] == "read":
                    a = np.asarray(t.result, float)
                    check(a.shape == recs.shape and np.array_equal(a, recs), "wrong-records",
                          lambda: f"{what}: {a.tolist()[:3]} ({len(a)}), file has {recs.tolist()[:3]} ({len(recs)})")
                elif len(recs) and untouched(o, recs):
                    check_domain(o, t.result, recs)
            ctx.probes["records compared" if o["what"] == "read" else "domain compared"] += 1
            ctx.nontrivial = True


def simplify(sc):
    for k, o in enumerate(sc["ops"]):
        for drop in ("disk", "plan", "async", "tags", "tear"):
            if o.get(drop):
                c = dict(o)
                c.pop(drop)
                c.setdefault("disk", [])
                yield dict(sc, ops=[c if j == k else p for j, p in enumerate(sc["ops"])])
        rows = o["data"].splitlines(True)
        if len(rows) > 1:
            for j in range(len(rows)):
                yield dict(sc, ops=[dict(p, data="".join(rows[:j] + rows[j + 1:])) if q == k else p
                                    for q, p in enumerate(sc["ops"])])
