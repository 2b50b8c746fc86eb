"""C14: macronization."""

import copy
import itertools as it
import random

import numpy as np

from harness import codes
from harness.core import as_int, guarded, pmap, pt

CFG = """SPECIFICATION Spec
INVARIANTS Disjoint Covered Homes Degrees
CONSTANT Conf = %d
CHECK_DEADLOCK FALSE
"""


def random_graph(rng, n):
    """Any integer points; no two edges leave a vertex in the same direction."""
    from flamingpy.codes import EGraph

    g = EGraph()
    pts = set()
    while len(pts) < n:
        pts.add(tuple(rng.randint(-4, 4) for _ in range(3)))
    pts = sorted(pts)
    taken = set()
    order = list(it.combinations(pts, 2))
    rng.shuffle(order)

    def way(u, v, s):
        w = np.array(v) - np.array(u)
        g_ = np.gcd.reduce(w)
        return (u, tuple(int(x) for x in s * w // abs(g_)))

    deg = {p: 0 for p in pts}

    def put(u, v):
        per = rng.random() < 0.2
        s = -1 if per else 1
        a, b = way(u, v, s), way(v, u, s)
        # directions must stay apart when rounded to two digits
        if a in taken or b in taken or deg[u] >= 4 or deg[v] >= 4:
            return
        for (p, d) in list(taken):
            for (q, e) in (a, b):
                if p == q:
                    d_, e_ = np.array(d), np.array(e)
                    if d_ @ e_ / np.sqrt((d_ @ d_) * (e_ @ e_)) > 0.97:
                        return
        taken.add(a)
        taken.add(b)
        deg[u] += 1
        deg[v] += 1
        attrs = {"weight": rng.choice([1, 2])} if rng.random() < 0.5 else {}
        if per:
            attrs["periodic"] = True
        elif rng.random() < 0.3:
            attrs["periodic"] = False
        if rng.random() < 0.5:
            u, v = v, u
        g.add_edge(u, v, **attrs)

    for u, v in order[: 3 * n]:
        put(u, v)
    return g


def graph_for(case, rng):
    from flamingpy.codes.surface_code import RHG_graph
    from flamingpy.utils import graph_states

    kind = case["kind"]
    if kind == "code":
        return codes.build(case["dims"], case["code"], case["ec"]).graph
    if kind == "lattice":
        return RHG_graph(tuple(case["dims"]), boundaries=np.array(case["bounds"]),
                         polarity=rng.choice([None, lambda e: -1]))
    if kind == "linear":
        return graph_states.linear_cluster(case["dims"][0])
    return random_graph(rng, case["dims"][0])


def snapshot(g):
    return (list(g.nodes(data=True)), list(g.edges(data=True)), dict(g.graph),
            g.macro_to_micro, g.to_indices, g.to_points)


def drive(case):
    from flamingpy.codes import EGraph

    rng = random.Random(case["seed"])
    g = graph_for(case, rng)
    for v in g.nodes:
        if rng.random() < 0.5:
            g.nodes[v]["note"] = rng.choice(["a", "b", [1, 2], 0, None])
        if rng.random() < 0.3:
            g.nodes[v]["bit_val"] = rng.randint(0, 1)
    for e in g.edges:
        if rng.random() < 0.3:
            g.edges[e]["extra"] = rng.choice([0, 1, "x", (2, 3)])
    nodes = [v for v in g.nodes if g.degree(v)]
    g.remove_nodes_from([v for v in list(g.nodes) if not g.degree(v)])
    table = {}
    code = lambda d: table.setdefault(repr(sorted(d.items(), key=lambda kv: kv[0])), len(table))
    num = {v: k + 1 for k, v in enumerate(nodes)}
    out = {"pts": [pt(v) for v in nodes], "attr": [code(g.nodes[v]) for v in nodes],
           "edges": [{"u": num[u], "v": num[v], "attr": code(d),
                      "periodic": bool(d.get("periodic", False))}
                     for u, v, d in g.edges(data=True)], "events": []}
    for _ in range(case["n"]):
        if rng.random() < 0.5:
            g.graph["perfect_points"] = rng.sample(nodes, rng.randint(0, len(nodes)))
        else:
            g.graph.pop("perfect_points", None)
        disp = rng.choice([None, 0.1, 0.05, 0.2, 0.25, 0.4, 0.499, 0.01, 0.0123, 0.001, 0.3, 4e-5, 2e-7,
                           round(rng.uniform(0.002, 0.499), 3), rng.uniform(0.02, 0.49)])
        pad = rng.random() < 0.5
        if rng.random() < 0.3:
            g.index_generator()
        ev = {"pad": pad, "disp": str(disp), "kind": "macro", "error": ""}

        def go(_):
            # pylint: disable=cell-var-from-loop
            before = copy.deepcopy(snapshot(g))
            kw = {} if disp is None else {"disp": disp}
            if pad or rng.random() < 0.5:
                kw["pad_boundary"] = pad
            m = g.macronize(**kw)
            same = snapshot(g) == before
            micro = list(m.nodes)
            ids = {v: k + 1 for k, v in enumerate(micro)}
            home = [tuple(round(float(x)) for x in v) for v in micro]
            d = 0.1 if disp is None else disp
            macro = m.macro_to_micro
            flag = isinstance(m, EGraph) and m.order() == len(micro)
            res = {"home": [num.get(h, 0) for h in home],
                   "d": [[max(-9000, min(9000, round((float(x) - y) / d * 1000)))
                          for x, y in zip(v, h)] for v, h in zip(micro, home)],
                   "attr": [code(m.nodes[v]) for v in micro],
                   "edges": [{"a": ids[a], "b": ids[b], "attr": code(x)}
                             for a, b, x in m.edges(data=True)],
                   "keys": [num.get(tuple(k), 0) for k in macro],
                   "lists": [[ids.get(v, 0) for v in macro[k]] for k in macro],
                   "perfect": [ids.get(v, 0) for v in m.graph.get("perfect_points") or []],
                   "wanted": [num[v] for v in g.graph.get("perfect_points") or []]}
            # later changes to the new graph do not reach the original
            for v in micro:
                m.nodes[v]["bit_val"] = 77
            for e in m.edges:
                m.edges[e]["weight"] = 77
            m.remove_node(micro[0])
            res.update(same=bool(same and snapshot(g) == before), flag=bool(flag))
            return res

        ev.update(guarded(go, None, 60))
        ev.pop("tb", None)
        out["events"].append(ev)
    for disp in (0.5, 0.7, 1, -0.1, -1e-9, 3):
        ev = {"kind": "refuse", "disp": str(disp), "error": ""}
        ev.update(guarded(lambda _: g.macronize(disp=disp) and {}, None, 20))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    chk.model("MacroModel", CFG % 1, label="one lattice, many orders")
    if not chk.quick:
        chk.model("MacroModel", CFG % 0, workers=8, timeout=3000, label="all boundary types")
    cases = []

    def add(kind, dims, **kw):
        cases.append({"id": f"{kind} {len(cases)} {dims} {kw}", "kind": kind, "dims": list(dims),
                      "seed": rng.random(), "n": 4 if chk.quick else 20, **kw})

    for code, ec in codes.KINDS:
        long = codes.long_shapes(rng, 3 if chk.quick else 9)
        for s in [(2, 2, 2)] + long + rng.sample(codes.shapes(2, 3), 1 if chk.quick else 8):
            add("code", s, code=code, ec=ec)
    for b in it.product(("primal", "dual", "periodic"), repeat=3):
        for s in rng.sample(codes.shapes(2, 3), 1 if chk.quick else 6):
            add("lattice", s, bounds=list(b))
    for n in (2, 3, 7):
        add("linear", (n,))
    for _ in range(8 if chk.quick else 80):
        add("random", (rng.randint(2, 9),))
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed",)}, **r}
              for c, r in zip(cases, res)]
    chk.extra["macronizations"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("MacroTrace", traces, cost=lambda t: 20 + len(t.get("edges", [])), timeout=3000)
    chk.assumptions += ["graphs whose vertices all have neighbours, at most four, in directions "
                        "that stay apart when rounded"]
