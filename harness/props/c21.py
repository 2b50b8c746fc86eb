"""C21: Union-Find clusters always form a consistent partition."""

import json
import random

import networkx as nx

from harness import codes
from harness.core import MachineryError, as_int, guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Consistent Links Shallow Emit
CONSTANTS
  N = %d
  D = %d
  AllMarks = %s
  Emitting = %s
CHECK_DEADLOCK FALSE
"""
PROPS = "PROPERTIES NeverSplit NeverDeeper\n"


class Forest:
    """Cluster trees of the implementation, and the numbers of their nodes."""

    def __init__(self, nodes):
        self.nodes = nodes
        self.num = {id(x): k + 1 for k, x in enumerate(nodes)}

    def number(self, x):
        return self.num.get(id(x), -1)

    def shot(self):
        """The trees as they are, without calling anything that could change them."""
        from flamingpy.decoders.unionfind.uf_classes import Node

        out = {k: [] for k in ("parent", "children", "size", "parity", "bnd")}
        for x in self.nodes:
            out["children"].append(sorted(self.number(c) for c in x.children))
            if isinstance(x.parent, Node):
                out["parent"].append(self.number(x.parent) if x.parent is not x else -1)
                data = (0, 0, 0)
            else:
                r = x.parent
                out["parent"].append(0 if r.node is x else -1)
                data = (as_int(r.size), as_int(r.parity),
                        0 if r.boundary is None else self.number(r.boundary))
            for k, v in zip(("size", "parity", "bnd"), data):
                out[k].append(v)
        return out


def history(marks, ops):
    """Replay calls on fresh trees."""
    from flamingpy.decoders.unionfind.algos import union
    from flamingpy.decoders.unionfind.uf_classes import Node, Root

    f = Forest([])
    f.roots = []

    def new(k):
        x = Node(k)
        f.nodes.append(x)
        f.num[id(x)] = len(f.nodes)
        return x

    for m in marks:
        f.roots.append(Root(new(len(f.nodes)), parity="boundary" if m == 2 else m))
    events = []
    for o in ops:
        ev = {"op": o["op"], "a": o["a"], "b": o["b"], "error": "", "ret": [0]}
        a, b = f.nodes[o["a"] - 1], f.nodes[o["b"] - 1]

        def go(_):
            # pylint: disable=cell-var-from-loop
            if o["op"] == "union":
                ret = union(a.find_root(), b.find_root())
                ev["ret"] = [0] if ret is None else [f.number(x) for x in ret]
            elif o["op"] == "find":
                ev["ret"] = [f.number(a.find_root().node)]
            elif o["op"] == "parity":
                ev["ret"] = [as_int(a.parity())]
            elif o["op"] == "add":
                child = new(len(f.nodes))
                if o["via"] == "root":
                    a.find_root().add_child(child)
                else:
                    a.add_child(child)
            return f.shot()

        ev.update(guarded(go, None, 20))
        ev.pop("tb", None)
        events.append(ev)
        if ev["error"]:
            break
    return {"sort": "tree", "marks": marks, "events": events}


def replay(case):
    return {"traces": [{"id": h["id"], "sort": "tree", "events": [],
                        **guarded(lambda h: history(h["marks"], h["ops"]), h, 60)}
                       for h in case["hists"]]}


def random_history(case):
    rng = random.Random(case["seed"])
    n = case["n"]
    marks = [rng.choice([0, 1, 1, 2] if rng.random() < 0.5 else [0, 1]) for _ in range(n)]
    ops, size, have = [], 1, n
    # equal-sized unions make the deepest trees
    if case.get("large"):
        while size < n:
            for a in range(1, n - size + 1, 2 * size):
                ops.append(("union", *rng.sample([a, a + size], 2)))
            size *= 2
    elif rng.random() < 0.7:
        while size < n:
            for a in range(1, n - size + 1, 2 * size):
                ops.append(("union", a, a + size))
            size *= 2
        ops = ops[: rng.randint(1, len(ops))]
    for _ in range(case["len"]):
        kind = rng.choice(["union", "find", "find", "parity", "add"])
        ops.append((kind, rng.randint(1, have), rng.randint(1, have)))
        have += kind == "add"
    return history(marks, [{"op": o, "a": a, "b": b, "via": rng.choice(["root", "node"])}
                           for o, a, b in ops])


STATUS = {"empty": 0, "half-grown": 1, "grown": 2}


def lonely(edges, sg, rng):
    """A chain of flips from the boundary into the bulk, and erasures around its end."""
    g = nx.Graph()
    for e in edges:
        g.add_edge(e[0], e[1], at=sg.edge_data(e[0], e[1])["common_vertex"])
    ends = [x for x in g if isinstance(x, tuple)]
    far = nx.multi_source_dijkstra_path_length(g, set(ends), weight=None)
    deep = [x for x in g if far[x] >= max(far.values()) - 1]
    path = nx.shortest_path(g, rng.choice(ends), rng.choice(deep))
    flips = {g.edges[e]["at"] for e in zip(path, path[1:])}
    near, lost = path[-1], set()
    for _ in range(rng.randint(1, 3)):
        step = rng.choice([x for x in g[near] if not isinstance(x, tuple)] or [near])
        if step is not near:
            lost.add(g.edges[near, step]["at"])
        near = step if rng.random() < 0.5 else path[-1]
    if rng.random() < 0.7:  # others grow with it at first
        at = rng.choice(deep)
        for _ in range(rng.randint(1, 3)):
            to = rng.choice(list(g[at]))
            flips ^= {g.edges[at, to]["at"]}
            at = to
    return flips, lost


def growth(case):
    from flamingpy.decoders.decoder import assign_weights  # noqa: F401 pylint: disable=unused-import
    from flamingpy.decoders.unionfind import algos
    from flamingpy.decoders.unionfind.uf_classes import Boundary, Support

    rng = random.Random(case["seed"])
    code = codes.build(case["dims"], case["code"], case["ec"], case["backend"])
    sg = codes.stab_graph(code, case["ec"])
    qubits = codes.syndrome_qubits(code, case["ec"])
    names = [x for x in sg.nodes() if x not in ("low", "high")]
    at = {id(x) if not isinstance(x, tuple) else x: k + 1 for k, x in enumerate(names)}

    def num(x):
        return at[x if isinstance(x, tuple) else id(x)]

    edges = [e for e in sg.edges() if e[0] not in ("low", "high") and e[1] not in ("low", "high")]
    out = {"sort": "growth", "nodes": len(names),
           "bound": [num(x) for x in names if isinstance(x, tuple)],
           "edges": [[num(e[0]), num(e[1])] for e in edges], "events": []}
    key = {frozenset((num(e[0]), num(e[1]))): k + 1 for k, e in enumerate(edges)}

    def table(support):
        got = {key[frozenset(map(num, e))]: STATUS[s] for e, s in support.status.items()}
        return [got.get(k + 1, -1) for k in range(len(edges))]

    for step in range(case["steps"]):
        p, q = rng.choice([(0, 0.3), (0.05, 0), (0.1, 0.1), (0.3, 0.05), (0.15, 0.3), (0.5, 0.5),
                           (0.03, 0), (0.02, 0.02)])
        flips = {v for v in qubits if rng.random() < p}
        lost = {v for v in qubits if rng.random() < q}
        if out["bound"] and (step % 8 == 6 or step % 4 and case["long"]):
            flips, lost = lonely(edges, sg, rng)
        codes.set_bits(code, flips)
        codes.set_weights(code, qubits, [-1 if v in lost else 2 for v in qubits], case["ec"])
        erased = [k + 1 for k, e in enumerate(edges) if sg.edge_data(e[0], e[1])["weight"] == -1]
        ev = {"kind": "growth", "error": "", "erased": erased,
              "syn": [num(x) for x in names if not isinstance(x, tuple) and x.parity == 1]}

        def grow(_):
            node_dict, trees, odd = algos.initialize_cluster_trees(sg)
            f = Forest([node_dict[x] for x in names])
            res = {"first": f.shot(), "tops": [f.number(r.node) for r in trees],
                   "odd": [f.number(r.node) for r in odd]}
            support = Support(sg)
            res["status0"] = table(support)
            boundary = {r.node: Boundary(r, support, sg) for r in trees}
            res["rims"] = [sorted(f.number(x) for x in boundary[r.node].nodes) for r in trees]
            algos.union_find(odd, boundary, sg, support, node_dict)
            res["status1"] = table(support)
            res["last"] = f.shot()
            forest, _ = algos.obtain_spanning_forest(sg, support)
            fnodes = forest.nodes()
            res["forestnodes"] = sorted(num(x) for x in fnodes)
            res["forest"] = []
            for u, v, d in forest.weighted_edge_list():
                a, b = fnodes[u], fnodes[v]
                res["forest"].append([key[frozenset((num(a), num(b)))],
                                      d["common_vertex"] == sg.edge_data(a, b)["common_vertex"]])
            return res

        def support_only(_):
            support = Support(sg)
            ops = []
            for _ in range(case["ops"]):
                k = rng.randrange(len(edges))
                e = edges[k] if rng.random() < 0.5 else edges[k][::-1]
                got = support.grow((e[0], e[1]))
                ops.append([k + 1, bool(got), STATUS[support.status[frozenset((e[0], e[1]))]]])
            return {"ops": ops, "status": table(support)}

        if step % 4 == 3:
            ev["kind"] = "support"
        ev.update(guarded(support_only if step % 4 == 3 else grow, None, 20))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def drive(case):
    return growth(case) if case["sort"] == "growth" else random_history(case)


def hists_of(out):
    return [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"HIST ')]


def run(chk):
    rng = random.Random(chk.seed)
    q = chk.quick
    chk.model("ClusterTreesModel", PROPS + "VIEW View\nCONSTRAINT Bounded\n"
              + CFG % (4 if q else 5, 0, "TRUE", "FALSE"), workers=8, timeout=3000,
              label="all trees, all marks")
    r = chk.model("ClusterTreesModel", CFG % (3 if q else 4, 3 if q else 4, "FALSE", "TRUE"),
                  workers=1, timeout=3000, heap="8g", label="all histories, generated")
    hists = hists_of(r.out)
    r = chk.model("ClusterTreesModel", CFG % (6, 10, "FALSE", "TRUE"), workers=1,
                  simulate=f"num={100 if q else 2000}", timeout=3000,
                  extra=["-depth", "12", "-seed", str(chk.seed)], any_end=True,
                  label="random histories of 10 calls, generated")
    more = hists_of(r.out)
    if len(hists) < 1000 or len(more) < 80:
        raise MachineryError("too few histories generated")
    hists += rng.sample(more, min(len(more), 600 if q else 10000))
    named = [{"id": f"generated {k}", "ops": h,
              "marks": [rng.choice([0, 1, 2]) for _ in range(6 if len(h) == 10 else 3 if q else 4)]}
             for k, h in enumerate(hists)]
    size = 200
    traces = []
    for x in pmap(replay, [{"hists": named[i:i + size]} for i in range(0, len(named), size)],
                  seconds=600, chunk=1):
        if "error" in x:
            raise MachineryError("replay failed: " + str(x))
        traces += x["traces"]
    chk.extra["generated_histories"] = len(traces)
    cases = [{"id": f"random history {k}", "sort": "tree", "seed": rng.random(),
              "n": rng.choice([2, 5, 8, 16, 32]), "len": 30 if q else 80}
             for k in range(60 if q else 600)]
    cases += [{"id": f"large history {k}", "sort": "tree", "seed": rng.random(),
               "n": rng.randint(130, 150) + 150 * k, "len": 12, "large": True} for k in range(1 if q else 2)]
    for code, ec in codes.KINDS:
        for k in range(6 if q else 16):
            dims = [rng.randint(2, 3) for _ in range(3)] if k else [3, 3, 3]
            if k % 6 > 3:  # long lattices, where the last clusters grow for many rounds
                dims = [2, 2, rng.randint(2, 3)]
                axis = rng.randrange(3)
                if code == "open" and rng.random() < 0.8:
                    axis = 0 if ec == "primal" else 1
                dims[axis] = rng.randint(7, 10)
            cases.append({"id": f"growth {codes.label(dims, code, ec)} {k}", "sort": "growth",
                          "dims": dims, "code": code, "ec": ec, "seed": rng.random(),
                          "backend": ("rustworkx", "networkx")[k % 2], "ops": 60, "long": max(dims) > 3,
                          "steps": (8 if q else 24) * (3 if max(dims) > 3 and code == "open" else 1)})
    res = pmap(drive, cases, seconds=900, chunk=1)
    blank = {"sort": "tree", "events": []}
    traces += [{"id": c["id"], **blank, **r} for c, r in zip(cases, res)]
    chk.validate("ClusterTreesTrace", traces, timeout=6000,
                 cost=lambda t: len(t["events"]) * (40 if t["sort"] == "growth" else 1))
    chk.assumptions += ["nodes added to a tree are new ones", "one edge per pair of checks (see C03)"]
