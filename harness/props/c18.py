"""C18: graph-state generators."""

import random
from collections import Counter

import networkx as nx
import numpy as np

from harness.core import guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Exactly FromOutline
CONSTANT N = %d
CHECK_DEADLOCK FALSE
"""
BAD = [0, -1, -7, 1.0, 2.5, "3", None, [3], (4,), float("nan"), float("inf"), 3 + 0j, {2: 2},
       np.float64(4), np.array([3]), b"2", -(10**30), "", 0.0]


def make(name):
    from flamingpy.utils import graph_states as gs

    return {"star": gs.star_graph, "complete": gs.complete_graph, "linear": gs.linear_cluster,
            "ring": gs.ring_graph, "bell": lambda n: gs.bell()}[name]


def drive(case):
    from flamingpy.codes import EGraph

    out = {"events": []}
    for n in case["ns"]:
        ev = {"kind": "make", "name": case["name"], "n": n, "error": ""}

        def go(_):
            # pylint: disable=cell-var-from-loop
            g = make(case["name"])(n)
            num = {v: k + 1 for k, v in enumerate(sorted(g.nodes))}
            res = {"order": g.order(), "edges": [[num[a], num[b]] for a, b in g.edges],
                   "triples": all(isinstance(v, tuple) and len(v) == 3 for v in g.nodes)}
            # a new graph each time, whatever is done to an earlier one
            before = sorted(g.nodes), sorted(map(sorted, g.edges))
            if n < 60:
                g.remove_node(sorted(g.nodes)[0])
                h = make(case["name"])(n)
                fresh = (sorted(h.nodes), sorted(map(sorted, h.edges))) == before
            else:
                fresh = True
            res["fresh"] = bool(fresh and isinstance(g, EGraph))
            return res

        ev.update(guarded(go, None, 60))
        ev.pop("tb", None)
        out["events"].append(ev)
    for n in case.get("large", []):
        ev = {"kind": "outline", "name": case["name"], "n": n, "error": ""}

        def outline(_):
            # pylint: disable=cell-var-from-loop
            g = make(case["name"])(n)
            return {"order": g.order(), "size": g.size(), "loops": nx.number_of_selfloops(g),
                    "parts": nx.number_connected_components(g),
                    "degrees": [list(x) for x in
                                Counter(d for _, d in g.degree()).items()],
                    "triples": all(isinstance(v, tuple) and len(v) == 3 for v in g.nodes)}

        ev.update(guarded(outline, None, 300))
        ev.pop("tb", None)
        out["events"].append(ev)
    if case["name"] != "bell":
        for x in BAD:
            ev = {"kind": "refuse", "arg": repr(x)[:40], "error": "", "valueerror": False}
            try:
                make(case["name"])(x)
            except ValueError as exc:
                ev.update(error=str(exc)[:100] or "ValueError", valueerror=True)
            except Exception as exc:  # pylint: disable=broad-except
                ev["error"] = type(exc).__name__
            out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    chk.model("FamiliesModel", CFG % (4 if chk.quick else 5), workers=8, timeout=3000,
              label="all graphs by shape")
    q = chk.quick
    cases = [{"id": "bell", "name": "bell", "ns": [2]}]
    for name, top, big in (("star", 60, 400), ("complete", 32, 90), ("linear", 60, 400),
                           ("ring", 60, 400)):
        if not q:
            top, big = {"complete": (90, 160)}.get(name, (300, 1500))
        every = list(range(1, top + 1)) + [rng.randint(top, big) for _ in range(3)]
        size = 8
        for i in range(size):
            ns = every[i::size]
            if name == "complete":
                large = [rng.randint(big, 260 if q else 700)]
                if i == 0:  # neighbouring vertices of the circle are closer than a hundredth
                    large += [rng.randint(900, 1200)] if q else [1100, 1500]
            else:
                # every order of magnitude
                large = [rng.randint(10 ** k, 10 ** (k + 1)) for k in ((2, 3) if q else (2, 3, 3, 4))]
            if name == "ring" and i == 0:  # and closer than a hundred-thousandth
                large = [rng.randint(450_000, 600_000)] if q else [500_000, rng.randint(800_000, 999_999)]
            cases.append({"id": f"{name} {i}", "name": name, "ns": ns, "large": large})
    res = pmap(drive, cases, seconds=600, chunk=1)
    traces = [{"id": c["id"], **r} for c, r in zip(cases, res)]
    chk.extra["graphs"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("FamiliesTrace", traces, timeout=3000,
                 cost=lambda t: sum(len(e.get("edges", [])) for e in t.get("events", [])))
    chk.assumptions += ["positive integers of Python's int type, up to 100000 (rings: up to 1000000)"]
