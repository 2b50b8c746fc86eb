"""C03: the stabilizer graph, its weights and its shortest paths."""

import random

import numpy as np

from harness import codes
from harness.core import as_int, pmap, pt, pts


def drive(case):
    rng = random.Random(case["seed"])
    ec = case["ec"]
    code = codes.build(case["dims"], case["code"], ec, case["backend"])
    original = codes.stab_graph(code, ec)
    g = original.to_nx() if case["convert"] else original
    early = original.to_nx()
    name = codes.Namer()
    out = dict(case)
    out["nodes"] = [name(n) for n in g.nodes()]
    out["edges"] = [[name(u), name(v)] for u, v in g.edges()]
    out["real_nodes"] = [name(n) for n in g.real_nodes()]
    out["real_edges"] = [[name(u), name(v)] for u, v in g.real_edges()]
    out["low"] = [name(n) for n in g.low_bound_points]
    out["high"] = [name(n) for n in g.high_bound_points]
    nodes = list(g.nodes())
    picks = rng.sample(nodes, min(8, len(nodes))) + ["low", "high"]
    out["around"] = [
        {
            "node": name(n),
            "nbrs": [name(m) for m in g.neighbors(n)],
            "out": [[name(u), name(v)] for u, v in g.out_edges(n)],
        }
        for n in picks
    ]
    qubits = codes.syndrome_qubits(code, ec)
    out["qubits"] = pts(qubits)
    out["events"] = []
    ws = []
    for style in case["styles"]:
        typ = rng.choice([int, np.int64])
        scale = 1
        if case["backend"] == "networkx" and style != "fine" and rng.random() < 0.4:
            scale = rng.choice([2, 1024])  # weights that are no integers
            typ = lambda w: w / scale  # pylint: disable=cell-var-from-loop
        ws = {
            "ones": lambda: [1] * len(qubits),
            "small": lambda: [rng.randint(1, 4) for _ in qubits],
            "wide": lambda: [rng.randint(1, 100000) for _ in qubits],
            "skewed": lambda: [rng.choice([1, 1, 1, 50, 1000]) for _ in qubits],
            "fine": lambda: [2**25 + rng.randint(-4, 4) for _ in qubits],
            "again": lambda: rng.sample(ws, len(ws)),  # the same weights on other qubits
        }[style]()
        codes.set_weights(code, qubits, [typ(w) for w in ws], ec)
        g = original
        pick = rng.random()
        if pick < 0.25:
            g = original.to_nx()
        elif pick < 0.4:  # one converted before
            g = early
            g.assign_weights(code)
        codes.set_bits(code, [q for q in qubits if rng.random() < 0.2])
        ev = {"w": ws, "edges": [], "queries": [], "ones": sorted(
            k + 1 for k, q in enumerate(qubits) if code.graph.nodes[q]["bit_val"])}
        ev["odd"] = [name(s) for s in g.odd_parity_stabilizers()]
        for u, v in g.edges():
            data = g.edge_data(u, v)
            conn = "low" in (u, v) or "high" in (u, v)
            if conn and data["common_vertex"] is not None:
                raise ValueError("connector edge with a common vertex")
            ev["edges"].append(
                {
                    "u": name(u),
                    "v": name(v),
                    "conn": conn,
                    "vertex": [-9, -9, -9] if conn else pt(data["common_vertex"]),
                    "w": as_int(scale * data["weight"], "edge weight"),
                }
            )
        sources = rng.sample(g.stabilizers, min(case["sources"], len(g.stabilizers)))
        asks = [("stab", s, g.shortest_paths_without_high_low(s)) for s in sources]
        if g.has_bound_points():
            asks.append(("low", "low", g.shortest_paths_from_low()))
            asks.append(("high", "high", g.shortest_paths_from_high()))
        for kind, src, (lengths, paths) in asks:
            if set(lengths) != set(paths):
                raise ValueError("lengths and paths disagree on their targets")
            tos = [v for v in lengths if v is not src and v != src]
            ev["queries"].append(
                {
                    "kind": kind,
                    "src": name(src),
                    "to": [name(v) for v in tos],
                    "len": [as_int(scale * lengths[v], "path length") for v in tos],
                    "path": [[name(m) for m in paths[v]] for v in tos],
                }
            )
        out["events"].append(ev)
    out["names"] = name.table
    return out


def run(chk):
    rng = random.Random(chk.seed)
    cases = []
    for code, ec in codes.KINDS:
        for backend in ("networkx", "rustworkx"):
            top = 3 if chk.quick else 5
            cubes = codes.shapes(2, top, cubic=True)
            rect = [s for s in codes.shapes(2, top + 1) if len(set(s)) > 1 and np.prod(s) <= 100]
            long = codes.long_shapes(rng, 2 if chk.quick else 8)
            if backend == rng.choice(["networkx", "rustworkx"]):
                long.append(codes.thin_shape(rng))
            for s in cubes + long + rng.sample(rect, 3 if chk.quick else 20):
                styles = ["ones", "small", "wide", "skewed"]
                rng.shuffle(styles)
                fine = ["fine"] * (sum(s) <= 25)
                cases.append(
                    {
                        "id": codes.label(s, code, ec, backend),
                        "dims": list(s), "code": code, "ec": ec, "backend": backend,
                        "seed": rng.random(), "convert": rng.random() < 0.4, "styles": styles[: 2 if chk.quick else 4] + ["wide", "again", "ones"] + fine,
                        "sources": 3 if chk.quick else 8,
                    }
                )
    res = pmap(drive, cases, seconds=200, chunk=1)
    traces = [{**c, **r} for c, r in zip(cases, res)]
    for t in traces:
        t.pop("seed", None)
    chk.extra["path_queries"] = sum(
        len(q["to"]) for t in traces for e in t.get("events", []) for q in e["queries"]
    )
    chk.validate("StabGraphTrace", traces, cost=lambda t: len(t.get("edges", [])) ** 2 + 100,
                 timeout=3000)
    chk.assumptions += ["whole weights (what the rustworkx backend documents), or dyadic ones with networkx",
                        "dimensions of at least 2 in every direction"]
