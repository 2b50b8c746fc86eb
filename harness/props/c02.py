"""C02: stabilizers, syndrome and boundary, parities."""

import random

import numpy as np

from harness import codes
from harness.core import pmap, pt, pts


def drive(case):
    rng = random.Random(case["seed"])
    code = codes.build(case["dims"], case["code"], case["ec"], case["backend"])
    ec = case["ec"]
    stabs = getattr(code, ec + "_stabilizers")
    to_points = code.graph.to_points
    out = {
        **case,
        "stabs": [pts(s.coords()) for s in stabs],
        "coords": pts(getattr(code, ec + "_syndrome_coords")),
        "all_coords": pts(code.all_syndrome_coords),
        "ind_coords": pts(to_points[i] for i in getattr(code, ec + "_syndrome_inds")),
        "all_ind_coords": pts(to_points[i] for i in code.all_syndrome_inds),
        "bound": pts(getattr(code, ec + "_bound_points")),
        "events": [],
    }
    position = {id(s): k + 1 for k, s in enumerate(stabs)}
    nodes = sorted(code.graph.nodes)
    qubits = codes.syndrome_qubits(code, ec)
    graph = codes.stab_graph(code, ec)

    def observe(ones):
        par = [s.parity for s in stabs]
        out["events"].append(
            {
                "ones": pts(ones),
                "odd": [k + 1 for k, p in enumerate(par) if p == 1],
                "in_range": all(p in (0, 1) for p in par),
                "odd_listed": [position[id(s)] for s in graph.odd_parity_stabilizers()],
            }
        )

    # Every single flip (or a sample of them), on an otherwise clear code ...
    typ = rng.choice([int, np.int64, np.int8, bool])
    codes.set_bits(code, [], typ)
    observe([])
    single = qubits if len(qubits) <= case["single"] else rng.sample(qubits, case["single"])
    for q in single:
        code.graph.nodes[q]["bit_val"] = typ(1)
        observe([q])
        code.graph.nodes[q]["bit_val"] = typ(0)
    # ... and then a history of arbitrary assignments, including the qubits
    # of the other complex, which no stabilizer of this one may look at.
    for k in range(case["random"]):
        p = rng.choice([0.05, 0.3, 0.5, 0.95, 1.0])
        ones = [q for q in nodes if rng.random() < p]
        codes.set_bits(code, ones, rng.choice([int, np.int64, np.int8, bool]))
        observe(ones)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    cases = []
    for code, ec in codes.KINDS:
        cubes = codes.shapes(2, 4 if chk.quick else 5, cubic=True)
        rect = [s for s in codes.shapes(2, 4 if chk.quick else 6) if len(set(s)) > 1]
        long = codes.long_shapes(rng, 3 if chk.quick else 12)
        long.append(codes.thin_shape(rng))
        for s in cubes + long + rng.sample(rect, 8 if chk.quick else 45):
            cases.append(
                {
                    "id": codes.label(s, code, ec),
                    "dims": list(s),
                    "code": code,
                    "ec": ec,
                    "backend": rng.choice(["networkx", "rustworkx"]),
                    "seed": rng.random(),
                    "single": 60 if chk.quick else 10**6,
                    "random": 10 if chk.quick else 40,
                }
            )
    res = pmap(drive, cases, seconds=200, chunk=1)
    traces = [{**c, **r} for c, r in zip(cases, res)]
    chk.extra["bit_assignments_checked"] = sum(len(t.get("events", [])) for t in traces)
    for t in traces:
        t.pop("seed", None)
    chk.validate(
        "CodeTrace", traces,
        cost=lambda t: sum(20 + len(e["ones"]) for e in t.get("events", [])) + 2000,
        timeout=3000,
    )
    chk.assumptions += ["dimensions of at least 2 in every direction"]
