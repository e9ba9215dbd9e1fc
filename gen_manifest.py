"""Regenerates MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
    "N01": "Intersection predicates are pure functions of two shapes: no schedule, clock, I/O, randomness, history or second party they depend on, so no simulated interleaving or fault can reach them.",
    "N02": "Shape booleans and embeddings are pure functions of the domain they are given; nothing in them can be scheduled, delayed, crashed or failed in a way that matters to the result.",
    "N03": "Tabulated bases and quadratures are pure functions of family, order and cell type.",
    "N04": "That the Jacobian is the derivative of the residual is a pointwise algebraic fact of each form; evaluation histories and faults are covered by C13.",
    "N06": "Convergence order is an analytical fact over mesh sequences; no schedule, fault or environment choice enters it.",
}
NOTE = {
    "C01": "Seeded schedules of the real joblib dispatch over a simulated worker pool, preempted at line or bytecode level, with failing workers and jumping clocks. Trusts that native code (basix, numpy) is atomic under the GIL.",
    "C02": "Seeded build histories with aborts at library steps, compared with an independent numbering model and with a fresh process. Bounded to small meshes.",
    "C03": "Seeded histories of assemblies with failing evaluations, retries and clock jumps against a dictionary model that adds each contribution once.",
    "C04": "Seeded interleavings of 2-4 threads against results computed alone in a forked process. Forms using the third-party automatic differentiation are outside: that package swaps numpy functions process-wide.",
    "C05": "Seeded projection histories with failing functions, allocation failures and interrupts; exactness judged by error norms and by an independent quadrature-free oracle.",
    "C06": "Seeded torn, zeroed, unreadable and short-read files against an independent MSH reader and topology model.",
    "C07": "Seeded generation histories with real disk-full limits and failing gmsh calls; files compared with a fresh process and measured independently.",
    "C08": "Seeded exports under real write limits and failing opens; outputs parsed by an independent reader.",
    "C09": "Seeded solution exports under faults; values recomputed by an independent evaluation.",
    "C10": "Seeded input files, short reads and read errors against an independent parser.",
    "C11": "Forked analyses ended at seeded lines, files torn as a crash can leave them, then rerun and compared with an uninterrupted run.",
    "C12": "The same seeded workload run under differing environments and after differing histories, compared bit for bit.",
    "C13": "Seeded evaluation histories with failing user functions, compared bit for bit with fresh processes.",
    "C14": "Seeded sequences of norm and error computations with failing functions, interrupts, edits in between and concurrent computations, against an independent quadrature of the definition and bit for bit against fresh processes.",
    "C15": "Seeded histories of loads, cuts, queries and spaces over several meshes with exceptions at drawn steps and concurrent cuts, against a fan model of separation and bit for bit against fresh processes. Two-dimensional meshes, fractures that meet only by crossing.",
    "C16": "Seeded histories of builds and edits of boxes, multi-dimensional boxes, edge domains and fracture networks with exceptions at drawn steps and two builds at a time, against a partition model and bit for bit against fresh processes. Lines in general position (no three through a point, nothing closer than 0.4 percent of the box), two-dimensional networks.",
    "C17": "Seeded histories of assemblies of boundary value problems with polynomial solutions over several meshes, with failing and missing functions, exceptions at drawn steps, moved meshes and rebuilt spaces; the solved system against the given solution, bit for bit against fresh processes. Essential values by the library's penalty (orders up to two); mixed elasticity with BDM; one assembly at a time.",
}
checks = []
for pid, note in NOTE.items():
    if not os.path.exists(os.path.join(HERE, "sim", "props", pid.lower() + ".py")):
        NA[pid] = "check under construction"
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"python3 check.py {pid} --tier thorough",
        "technique": "deterministic simulation with fault injection (seeded search, replayable)",
        "level": "exploration",
        "level_note": note,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
    "notes": "No hooks in /repo: all seams are interpreter-level (tracing, patched clocks, locks, pools, files, resource limits). fix: commits in /repo are listed in known_findings.json.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
