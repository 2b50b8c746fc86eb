"""C06: Union-Find terminates and clears every syndrome."""

import random

import numpy as np

from harness import codes, decode
from harness.core import guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS AllSatisfied NoGrowthWithoutSyndrome
PROPERTIES Terminates GrowthMonotone
CONSTANTS
  Dims <- %s
  Name = "%s"
  Ec = "%s"
  MaxFlips = %d
  MaxErased = %d
CHECK_DEADLOCK FALSE
"""


PEEL = """SPECIFICATION Spec
INVARIANTS Conserved StillPeelable Unique OnlyOne
PROPERTY Ends
CONSTANT N = %d
CHECK_DEADLOCK FALSE
"""


def forest(rng, shape, n):
    """Edges of a random forest of the given shape on n nodes, relabelled."""
    name = list(range(n))
    rng.shuffle(name)
    parent = {
        "chain": lambda i: i - 1,
        "star": lambda i: 0,
        "comb": lambda i: i - 1 if i % 2 == 0 else i - 1 if i < 2 else i - 1 - rng.randint(0, 1),
        "tree": lambda i: rng.randrange(i),
        "deep": lambda i: max(0, i - rng.randint(1, 3)),
        "forest": lambda i: rng.choice([None, rng.randrange(i), i - 1, i - 1]),
    }[shape]
    edges = [(i, parent(i)) for i in range(1, n)]
    edges = [(name[a], name[b]) if rng.random() < 0.5 else (name[b], name[a])
             for a, b in edges if b is not None]
    rng.shuffle(edges)
    return edges


def peel_session(case):
    import rustworkx as rx
    from flamingpy.decoders.unionfind.algos import peeling

    rng = random.Random(case["seed"])
    out = {"id": case["id"], "events": []}
    for shape, n in case["plan"]:
        edges = forest(rng, shape, n)
        g = rx.PyGraph()
        g.add_nodes_from(range(n))
        for k, (a, b) in enumerate(edges):
            g.add_edge(a, b, {"common_vertex": (k + 1, 0, 0)})
        # an even number of odd nodes in every tree
        odd = set()
        for tree in rx.connected_components(g):
            pick = sorted(tree)
            pick = rng.sample(pick, min(len(pick), 2 * rng.choice([0, 1, 1, 2, 3, 20])) // 2 * 2)
            odd |= set(pick)
        ev = {"u": [a + 1 for a, _ in edges], "v": [b + 1 for _, b in edges],
              "par": [a + 1 for a in sorted(odd)], "rec": [], "error": ""}
        # the values of parities come from numpy sums or from Python
        one = rng.choice([int, np.int64])
        par = {k: one(k in odd) for k in range(n)}
        got = guarded(lambda _: {"rec": [q[0] for q in peeling(g, par)]}, None, 60)
        ev.update(got)
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def peelings(chk, rng):
    chk.model("PeelingModel", PEEL % (4 if chk.quick else 5), workers=8, timeout=1200,
              label="peeling every forest in every order")
    cases = []
    for k in range(8 if chk.quick else 40):
        plan = [(rng.choice(["chain", "star", "comb", "tree", "deep", "forest"]),
                 rng.choice([2, 3, 4, 6, 9, 15, 40])) for _ in range(40)]
        plan += [(s, rng.randint(1100, 2500)) for s in (["chain", "deep"] if k % 2 else ["comb"])]
        cases.append({"id": f"peelings {k}", "seed": rng.random(), "plan": plan})
    res = pmap(peel_session, cases, seconds=300, chunk=1)
    chk.validate("PeelingTrace", [{"id": c["id"], **r} for c, r in zip(cases, res)], timeout=1200)


def run(chk):
    rng = random.Random(chk.seed)
    insts = [("D2", "open", "primal", 2, 1), ("D2", "toric", "dual", 2, 0)] if chk.quick else [
        ("D2", "open", "primal", 9, 0), ("D2", "open", "dual", 3, 2),
        ("D2", "toric", "dual", 2, 1), ("D2", "periodic", "primal", 2, 1),
        ("D322", "open", "primal", 2, 1)]
    for dims, name, ec, f, e in insts:
        chk.model("UFModel", CFG % (dims, name, ec, f, e), workers=8, timeout=1800,
                  label=f"{name}/{ec}/{dims} up to {f} flips, {e} erasures")
    peelings(chk, random.Random(chk.seed + 1))
    cases = []
    for code, ec in codes.KINDS:
        for backend in ("networkx", "rustworkx"):
            rect = [s for s in codes.shapes(2, 6) if np.prod(s) <= (64 if chk.quick else 150)]
            some = [(2, 2, 2), (2, 2, 3), (3, 3, 3)] + codes.long_shapes(rng, 2 if chk.quick else 8)
            if backend == "rustworkx":
                some.append(codes.thin_shape(rng))
            for s in some + rng.sample(rect, 4 if chk.quick else 30):
                plan = []
                n = int(np.prod(s))
                count = max(10, (1200 if chk.quick else 6000) // n) if n <= 30 else (
                    12 if chk.quick else 60)
                for _ in range(count):
                    kind = rng.choice(["random", "walk", "few", "few", "chain"])
                    size = {"random": rng.choice([0.02, 0.05, 0.1, 0.3, 0.5, 1.0]),
                            "walk": rng.randint(1, 14), "few": 6, "chain": rng.randint(1, 40)}[kind]
                    erase = rng.choice(["none", "sparse", "random", "random", "walk", "all"])
                    plan.append([kind, size, erase, rng.random() < 0.7])
                plan += [["chain", n, "none", True] for n in (max(s) // 2, max(s), 3)]
                plan.append(["few", 0, "none", True])
                plan.append(["few", 0, "random", True])
                cases.append({"id": codes.label(s, code, ec, backend), "dims": list(s),
                              "code": code, "ec": ec, "backend": backend, "seed": rng.random(),
                              "plan": plan, "judge": ["basic"]})
    res = pmap(decode.uf_session, cases, seconds=900, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "plan")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["decodes"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("DecodeTrace", traces,
                 cost=lambda t: 20 + len(t.get("events", [])) * len(t.get("qubits", [])),
                 timeout=6000)
    chk.assumptions += ["dimensions of at least 2 in every direction",
                        "a decode that runs for 20 s on these sizes does not terminate"]
