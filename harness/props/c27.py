"""C27: matching graphs and their backends."""

import itertools as it
import random

from harness import lemon
from harness.core import as_int, guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Optimum AllPerfect %s
CONSTANTS
  N = %d
  Weights = {%s}
CHECK_DEADLOCK FALSE
"""


class Thing:
    """A node that is none of the usual types, compared by identity."""


def names_for(rng, n):
    kind = rng.choice(["int", "tuple", "str", "object", "mixed", "count"])
    if kind == "count":  # the first of them is false
        return rng.sample(rng.choice([list(range(n)), ["a" * k for k in range(n)],
                                      [tuple(range(k)) for k in range(n)]]), n)
    make = {"int": lambda k: 3 * k + 1, "tuple": lambda k: ((k, k % 2, -k), k),
            "str": lambda k: f"node {k}", "object": lambda k: Thing()}
    return [make[rng.choice(list(make)) if kind == "mixed" else kind](k) for k in range(n)]


def small(rng, n):
    """Weights such that there is a perfect matching."""
    top = rng.choice([0, 1, 3, 20, 1000, 10000, 70000, 10 ** 6, 10 ** 8, 10 ** 8])
    low = rng.choice([0, 9 * top // 10, max(0, top - 60)])  # all of them heavy
    p = rng.choice([0.2, 0.5, 0.8, 1])
    order = rng.sample(range(n), n)
    w = {frozenset(order[k:k + 2]): rng.randint(low, top) for k in range(0, n, 2)}
    for e in it.combinations(range(n), 2):
        if rng.random() < p:
            w[frozenset(e)] = rng.randint(low, top)
    return w, [], []


def planted(rng, n):
    """Weights with a known optimum: slack over the values of a certificate."""
    top = rng.choice([3, 20, 400, 10 ** 5, 5 * 10 ** 6])
    y = [rng.randint(0, top) for _ in range(n)]
    order = rng.sample(range(n), n)
    mates = [frozenset(order[k:k + 2]) for k in range(0, n, 2)]
    sets = []
    # triples of one vertex of a pair and the whole of another
    for k in range(0, n // 2 - 1, 2):
        if rng.random() < 0.7:
            sets.append({"of": [sorted(mates[k])[0]] + sorted(mates[k + 1]), "z": rng.randint(0, top)})
    p = rng.choice([0.2, 0.6, 1] if n < 60 else [0.02, 0.05])
    w = {}
    for e in it.combinations(range(n), 2):
        e = frozenset(e)
        least = sum(y[v] for v in e) + sum(s["z"] for s in sets if len(e & set(s["of"])) == 1)
        if e in mates:
            w[e] = least
        elif rng.random() < p:
            w[e] = least + rng.choice([0, 0, 1, rng.randint(0, top)])
    return w, y, [{"of": [v + 1 for v in s["of"]], "z": s["z"]} for s in sets]


def drive(case):
    from flamingpy.decoders.mwpm import matching as mm

    lemon.install()
    rng = random.Random(case["seed"])
    n, out = case["n"], {"events": []}
    graph = {"networkx": mm.NxMatchingGraph, "rustworkx": mm.RxMatchingGraph,
             "lemon": mm.LemonMatchingGraph}[case["backend"]]("primal")
    names = names_for(rng, n + 1)  # one that has no edges
    number = {x: k + 1 for k, x in enumerate(names)}
    graph.virtual_points += rng.sample(names, rng.choice([0, 0, n // 2]))
    have = {}

    def event(kind, fn, **kw):
        ev = {"kind": kind, "error": "", **kw}
        ev.update(guarded(fn, None, 60))
        ev.pop("tb", None)
        out["events"].append(ev)

    def pair(e):
        a, b = rng.sample(sorted(e), 2)
        return names[a], names[b]

    def add(e, w):
        path = [rng.randint(1, 99) for _ in range(rng.choice([0, 1, 3]))]
        have[e] = w
        a, b = sorted(e)

        def go(_):
            x = pair(e)
            if path or rng.random() < 0.5:
                graph.add_edge(x, w, list(path))
            else:
                graph.add_edge(x, w)
            return {}

        event("add", go, u=a + 1, v=b + 1, w=w, path=path)

    def ask():
        a, b = rng.sample(range(n + (rng.random() < 0.2)), 2)

        def go(_):
            calls = [graph.edge_weight, graph.edge_path]
            rng.shuffle(calls)
            res = []
            for f in calls:
                try:
                    res.append((f.__name__, f((names[a], names[b]))))
                except Exception:  # pylint: disable=broad-except
                    pass
            res = dict(res)
            if len(res) == 1:
                raise ValueError("one of weight and path is missing")
            if not res:
                return {"raised": True}
            return {"raised": False, "got": as_int(res["edge_weight"]), "path": list(res["edge_path"])}

        event("weight", go, u=a + 1, v=b + 1, got=0, path=[], raised=False)

    def match(y, sets):
        def go(_):
            got = list(graph.min_weight_perfect_matching())
            total = graph.total_weight_of(rng.choice([list, iter, set])(got))
            return {"pairs": [[number[a], number[b]] for a, b in got], "total": as_int(total)}

        event("match", go, y=y, sets=sets)

    def convert():
        if not hasattr(graph, "to_nx"):
            return

        def go(_):
            h = graph.to_nx()
            assert isinstance(h, mm.NxMatchingGraph), "type"
            edges = [[number[a], number[b], as_int(h.edge_weight((a, b))), list(h.edge_path((a, b)))]
                     for a, b in h.graph.edges]
            return {"edges": edges, "virtual": h.ec == graph.ec
                    and list(h.virtual_points) == list(graph.virtual_points)}

        event("nx", go, edges=[], virtual=True)

    for _ in range(4 if n <= 10 else 2):
        w, y, sets = (small if n <= 10 else planted)(rng, n)
        if n > 10 and have:  # every edge again, as one is not taken back
            for e in have:
                if e not in w:
                    w[e] = sum(y[v] for v in e) + sum(s["z"] for s in sets)
        todo = list(w.items())
        rng.shuffle(todo)
        for e, x in todo:
            if rng.random() < 0.1:
                add(e, x + 1)
            if rng.random() < 0.05:
                ask()
            add(e, x)
        match(y, sets)
        for f in rng.sample([ask, ask, convert, lambda: match(y, sets)], 3):
            f()
    return out


def run(chk):
    lemon.install()
    rng = random.Random(chk.seed)
    q = chk.quick
    chk.model("MatchingModel", CFG % ("Duality", 4, "0, 1, 3" if q else "0, 1, 2, 5"), workers=8, timeout=3000,
              label="four vertices")
    if not q:
        chk.model("MatchingModel", CFG % ("", 6, "0, 2"), workers=8, timeout=3000, label="six vertices")
    cases = []
    for backend in ("networkx", "rustworkx", "lemon"):
        for n in (2, 4, 4, 6, 6, 8, 8, 8, 10, 14, 20, 70, 102) + (() if q else (8, 8, 10, 10, 30, 40, 60, 130)):
            for k in range((6 if q else 20) if n < 60 else 1 if q else 4):
                cases.append({"id": f"{backend} {n} vertices {k}", "n": n, "backend": backend,
                              "seed": rng.random()})
    res = pmap(drive, cases, seconds=300)
    traces = [{**{k: v for k, v in c.items() if k != "seed"}, **r} for c, r in zip(cases, res)]
    chk.extra["matchings"] = sum(e["kind"] == "match" for t in traces for e in t.get("events", []))
    chk.validate("MatchingTrace", traces, timeout=3000,
                 cost=lambda t: len(t.get("events", [])) * 2 + 2 ** min(t["n"], 10))
    chk.assumptions += ["graphs with a perfect matching, whole weights up to 10^8",
                        "optima by dynamic programming up to ten vertices, beyond by certificates"]
