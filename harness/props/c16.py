"""C16: indices, adjacency and macronodes under edits."""

import json
import random

import numpy as np
import scipy.sparse as sp

from harness import codes
from harness.core import MachineryError, as_int, guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Consistent Emit
PROPERTIES KeepIndex FreshIndex
CONSTANTS
  D = %d
  Emitting = %s
CHECK_DEADLOCK FALSE
"""


def enc(p):
    return [as_int(round(float(x) * 100)) for x in p]


def dec(p, g):
    """The qubit of g at p, or a new point."""
    for v in g.nodes:
        if enc(v) == list(p):
            return v
    return tuple(x // 100 if x % 100 == 0 else x / 100 for x in p)


def snap(g):
    r = {"nodes": [enc(v) for v in g.nodes],
         "edges": [[enc(u), enc(v), as_int(d.get("weight", 1))]
                   for u, v, d in g.edges(data=True)],
         "hasIdx": g.to_indices is not None, "to_indices": [], "to_points": [],
         "hasMacro": g.macro_to_micro is not None, "macro": []}
    # on which slice the first qubit lies, in one of the directions
    r["slices"] = []
    for v in list(g.nodes)[:1]:
        axis = g.order() % 3
        for _ in range(2):
            got = g.slice_coords("xyz"[axis], v[axis])
            r["slices"].append([axis + 1, enc(v)[axis], [enc(p) for p in got]])
            if isinstance(got, list):  # the list is the caller's
                got.clear()
    if (g.to_indices is None) != (g.to_points is None):
        raise ValueError("one index dictionary without the other")
    if r["hasIdx"]:
        r["to_indices"] = [[enc(v), as_int(i)] for v, i in g.to_indices.items()]
        r["to_points"] = [[as_int(i), enc(v)] for i, v in g.to_points.items()]
    if r["hasMacro"]:
        r["macro"] = [[enc(c), [enc(v) for v in vs]] for c, vs in g.macro_to_micro.items()]
    return r


def call(g, op, real):
    """Perform op; real gives the arguments for calls outside the alphabet."""
    name = op["op"]
    if name == "bad":
        return real(g)
    if name == "add":
        kw = {}
        if op["q"] or op.get("explicit"):
            kw["qubit"] = dec(op["q"], g) if op["q"] else None
        if op["nbp"] or op["nbi"] or op.get("explicit"):
            kw["neighbors"] = op["nbi"] or [dec(p, g) for p in op["nbp"]]
        if op["mac"]:
            kw["add_to_macronode"] = True
        g.add_qubit(**kw)
    elif name == "remove":
        g.remove_qubit(op["i"] if op["by"] == "index" else dec(op["q"], g))
    elif name == "index":
        ret = g.index_generator()
        return {"returned": ret == g.to_indices}
    elif name == "macronize":
        g.macronize()
    elif name == "look":
        LOOKS[op["how"]](g)
    else:
        m = g.adj_generator(sparse=name == "sparse") if name == "dense" or op.get("explicit") \
            else g.adj_generator()
        kind = "sparse" if sp.issparse(m) else "dense" if isinstance(m, np.ndarray) else "?"
        a = m.toarray() if sp.issparse(m) else np.asarray(m)
        cached = g.adj_mat
        c = cached.toarray() if sp.issparse(cached) else np.asarray(cached)
        if not np.array_equal(a, c):
            raise ValueError("adj_mat is not the matrix returned")
        return {"rows": [[as_int(x) for x in row] for row in a.tolist()], "kind": kind}
    return {}


def shown(call):
    """A drawing that is closed again."""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    def go(g):
        call(g)
        plt.close("all")
    return go


def spoiled(make):
    """A copy that is edited on its own."""
    def go(g):
        h = make(g)
        if h.macro_to_micro is not None or h.order():
            h.index_generator()
        for v in sorted(h.nodes)[:2]:
            h.remove_qubit(v)
        h.add_qubit((70, 0, 0), neighbors=sorted(h.nodes)[:2],
                    add_to_macronode=h.macro_to_micro is not None)
        h.add_qubit((g.order() and sorted(g.nodes)[-1][0] + 71, 0, 0))
    return go


def copied(g):
    from flamingpy.codes import EGraph

    return EGraph(g, macronodes=g.macro_to_micro is not None)


LOOKS = {
    "copied and edited": spoiled(copied),
    "copy edited": spoiled(lambda g: g.copy()),
    "drawn indices": shown(lambda g: g.draw(label="index")),
    "drawn": shown(lambda g: g.draw(color_nodes="red", legend=True)),
    "drawn plotly": lambda g: g.draw(backend="plotly", label="index"),
    "drawn matrix": shown(lambda g: g.draw_adj(show=False)),
    "slices": lambda g: g.slice_coords("x", 0),
    "limits": lambda g: (g.order(), g.size(), list(g.edges), g.to_points),
}
BAD = {
    "two coordinates": lambda g: g.add_qubit((0, 0)),
    "four coordinates": lambda g: g.add_qubit((50, 0, 0, 0)),
    "list": lambda g: g.add_qubit([50, 0, 0]),
    "number": lambda g: g.add_qubit(50),
    "float neighbours": lambda g: g.add_qubit((50, 0, 0), neighbors=[0.5]),
    "absent neighbour": lambda g: g.add_qubit((50, 0, 0), neighbors=[(51, 0, 0)]),
    "own neighbour": lambda g: g.add_qubit((50, 0, 0), neighbors=[(50, 0, 0)]),
    "negative index": lambda g: g.add_qubit((50, 0, 0), neighbors=[-1]),
    "half absent": lambda g: g.add_qubit((50, 0, 0), neighbors=[sorted(g.nodes)[0], (51, 0, 0)]),
    "remove absent": lambda g: g.remove_qubit((50, 0, 0)),
    "remove float": lambda g: g.remove_qubit(0.5),
    "remove None": lambda g: g.remove_qubit(None),
    "remove index": lambda g: g.remove_qubit(10**6),
}


def generated(h):
    from flamingpy.utils.graph_states import linear_cluster

    g = linear_cluster(2)
    if h["start"] == "macro":
        g = g.macronize()
    tr = {"start": snap(g), "events": [], "error": ""}
    for op in h["ops"]:
        if op["op"] == "sparse" and not g.order():
            continue  # networkx has no sparse matrix without nodes
        tr["events"].append(step(g, op, None))
    return tr


def replay(case):
    """Histories generated from the specification."""
    return {"traces": [{"id": "generated " + h["start"] + " " + json.dumps(h["ops"]), "events": [],
                        **guarded(generated, h, 120)} for h in case["hists"]]}


def step(g, op, real):
    ev = {"op": op, "error": "", "rows": [], "kind": "", "returned": True}
    ev.update(guarded(lambda _: call(g, op, real), None, 30))
    ev.pop("tb", None)
    ev["st"] = snap(g)
    return ev


def record(case):
    """A random history on a graph of any kind."""
    from flamingpy.codes import EGraph
    from flamingpy.utils import graph_states

    rng = random.Random(case["seed"])
    kind = case["kind"]
    if kind == "code":
        g = codes.build((2, 2, 2), case["code"], case["ec"]).graph
        # a graph of its own, so that no index is cached or one is, at random
        if rng.random() < 0.7:
            g = EGraph(g)
    elif kind == "state":
        g = graph_states.linear_cluster(rng.randint(1, 5))
    else:
        g = EGraph()
        pts = [(rng.randint(-3, 3), rng.randint(-3, 3), k) for k in range(rng.randint(1, 8))]
        if case["macro"]:  # macronodes must stay on hundredths
            pts = [(x, y, 0) for x in range(3) for y in range(3) if rng.random() < 0.7]
            pts = pts or [(0, 0, 0)]
        g.add_nodes_from(pts)
        for u in pts:
            for v in pts:
                if u < v and rng.random() < 0.4 and not (
                        case["macro"] and sum(abs(a - b) for a, b in zip(u, v)) > 1):
                    g.add_edge(u, v, weight=rng.choice([1, 1, -1, 2]))
    if case["macro"]:
        for v in list(g.nodes):
            if not g.degree(v):
                w = (v[0], v[1], v[2] + 20)
                g.add_edge(v, w)
        g = g.macronize(pad_boundary=kind == "code" and rng.random() < 0.5)
    if rng.random() < 0.5:
        g.index_generator()
    out = {"start": snap(g), "events": []}
    gone = []
    for _ in range(case["n"]):
        x = rng.random()
        real = None
        nodes = sorted(g.nodes)
        if x < 0.35 or not nodes:
            y = rng.random()
            if y < 0.15:
                q = []
            elif y < 0.3 and gone:
                q = rng.choice(gone)  # put one back
            elif y < 0.4 and nodes:
                q = enc(rng.choice(nodes))
            elif case["macro"] and y < 0.8 and nodes:
                c = [round(float(z)) for z in rng.choice(nodes)]
                q = [100 * z + rng.randint(-49, 49) for z in c]
            else:
                q = [100 * rng.randint(-4, 6) for _ in range(3)]
            by = rng.choice(["point", "point", "index"])
            k = rng.randint(0, 3)
            if by == "point":
                nb = [enc(v) for v in rng.sample(nodes, min(k, len(nodes)))]
                if rng.random() < 0.1:
                    nb.append([90000, 0, 0])
            else:
                have = sorted(g.to_points) if g.to_points is not None else list(range(len(nodes)))
                nb = rng.sample(have, min(k, len(have)))
                if rng.random() < 0.1:
                    nb.append(rng.choice([10**6, -1, max(have, default=0) + 1]))
                if not nb:
                    by = "point"
            if not nodes and not q:
                by, nb = "point", []
            op = {"op": "add", "q": q, "by": by, "nbp": nb if by == "point" else [],
                  "nbi": nb if by == "index" else [], "explicit": rng.random() < 0.5,
                  "mac": rng.random() < (0.6 if case["macro"] else 0.1)}
        elif x < 0.6:
            if rng.random() < 0.5 and g.to_points:
                i = rng.choice(sorted(g.to_points) + [10**6])
                gone.append(enc(g.to_points[i]) if i in g.to_points else [0, 0, 0])
                op = {"op": "remove", "by": "index", "i": i, "q": []}
            else:
                q = enc(rng.choice(nodes)) if rng.random() < 0.9 else [90000, 0, 0]
                gone.append(q)
                op = {"op": "remove", "by": "point", "i": 0, "q": q}
        elif x < 0.68:
            op = {"op": "index"}
        elif x < 0.75 and len(nodes) < 25:
            op = {"op": "look", "how": rng.choice(sorted(LOOKS) if g.size() else ["slices", "limits",
                                                                                 "copied and edited"])}
        elif x < 0.95:
            op = {"op": rng.choice(["dense", "sparse"]), "explicit": rng.random() < 0.5}
        elif x < 0.98 or case["macro"] or min((d for _, d in g.degree), default=0) == 0:
            name = rng.choice(sorted(BAD))
            real = BAD[name]
            op = {"op": "bad", "call": name}
        else:
            op = {"op": "macronize"}
        if op["op"] == "sparse" and not nodes:
            continue  # networkx has no sparse matrix without nodes
        out["events"].append(step(g, op, real))
        if len(gone) > 12:
            gone = gone[-12:]
    return out


def run(chk):
    rng = random.Random(chk.seed)
    depth = 2 if chk.quick else 3
    r = chk.model("EGraphModel", CFG % (depth, "TRUE"), workers=1, timeout=3000, heap="8g",
                  label=f"all histories of {depth} calls, generated")
    hists = [json.loads(json.loads(x)[5:]) for x in r.out.splitlines() if x.startswith('"HIST ')]
    if len(hists) < 1000:
        raise MachineryError("too few histories generated")
    if chk.quick:
        # longer ones by simulation
        r = chk.model("EGraphModel", CFG % (6, "TRUE"), workers=1, simulate="num=300",
                      extra=["-depth", "8", "-seed", str(chk.seed)], any_end=True,
                      label="random histories of 6 calls, generated")
    else:
        r = chk.model("EGraphModel", CFG % (10, "TRUE"), workers=1, simulate="num=4000",
                      extra=["-depth", "12", "-seed", str(chk.seed)], timeout=3000, any_end=True,
                      label="random histories of 10 calls, generated")
    more = [json.loads(json.loads(x)[5:]) for x in r.out.splitlines() if x.startswith('"HIST ')]
    if len(more) < 100:
        raise MachineryError("too few histories simulated:\n" + r.tail())
    # simulation also emits the siblings of each last step
    hists += rng.sample(more, min(len(more), 1200 if chk.quick else 20000))
    size = 100
    res = pmap(replay, [{"hists": hists[i:i + size]} for i in range(0, len(hists), size)],
               seconds=600, chunk=1)
    traces = []
    for x in res:
        if "error" in x:
            raise MachineryError("replay failed: " + str(x))
        traces += x["traces"]
    chk.extra["generated_histories"] = len(traces)
    cases = []
    for k in range(60 if chk.quick else 400):
        macro = k % 2 == 1
        kind = ["code", "state", "random", "random", "state"][k % 5]
        code, ec = codes.KINDS[k % 6]
        small = kind != "code"
        cases.append({"id": f"history {k} {kind} {'macro' if macro else 'plain'}", "kind": kind,
                      "macro": macro, "code": code, "ec": ec, "seed": rng.random(),
                      "n": (60 if small else 16) if chk.quick else (150 if small else 30)})
    res = pmap(record, cases, seconds=600, chunk=1)
    traces += [{"id": c["id"], **r} for c, r in zip(cases, res)]
    chk.extra["recorded_histories"] = len(cases)
    chk.validate("EGraphTrace", traces, timeout=3000, heap="4g",
                 cost=lambda t: 2 + sum(len(e["st"]["nodes"]) for e in t.get("events", [])))
    chk.assumptions += ["edits go through the methods of EGraph",
                        "sparse matrices only of graphs with nodes (networkx refuses others)",
                        "a refused call may leave freshly generated indices cached"]
