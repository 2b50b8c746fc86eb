"""C22: drawing and inspecting never change what is decoded."""

import copy
import hashlib
import os
import functools
import random

import numpy as np
import scipy.sparse as sp

from harness import codes, lemon
from harness.core import guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS NoInterference SameState
CONSTANTS
  Weights = {1, 2, 3}
  Depth = %d
  Destructive = %s
CHECK_DEADLOCK FALSE
"""


def digest(x):
    return 1 + int(hashlib.sha256(repr(x).encode()).hexdigest()[:7], 16)


def plain(x):
    """A canonical form of attribute values."""
    if isinstance(x, dict):
        return sorted((str(k), plain(v)) for k, v in x.items() if v is not None)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(plain(v)) for v in x)
    if isinstance(x, np.ndarray):
        return [str(x.dtype.kind), x.shape, x.tolist()]
    if hasattr(x, "toarray"):
        return ["sparse", x.toarray().tolist()]
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return x if isinstance(x, str) else type(x).__name__


def named(node):
    """A name for a node of a stabilizer or matching graph."""
    if isinstance(node, (str, tuple)):
        return repr(plain(node))
    return repr(sorted(node.coords()))


def graph_of(g):
    return sorted((repr(v), plain({k: x for k, x in d.items() if k != "bit_val"}))
                  for v, d in g.nodes(data=True))


def stab_state(sg):
    return [[named(n) for n in sg.nodes()],
            sorted([sorted([named(e[0]), named(e[1])]), plain(sg.edge_data(*e))]
                   for e in sg.edges())]


def match_state(m):
    if m is None:
        return 0
    if hasattr(m.graph, "weighted_edge_list"):
        names = m.graph.nodes()
        edges = [(names[a], names[b], d) for a, b, d in m.graph.weighted_edge_list()]
    else:
        edges = list(m.graph.edges(data=True))
    out = []
    for a, b, d in edges:
        data = {k: getattr(d, k) for k in ("weight", "path") if hasattr(d, k)} \
            if not isinstance(d, dict) else dict(d)
        data["path"] = [named(p) for p in data.get("path") or []]
        out.append([sorted([named(a), named(b)]), plain(data)])
    return [sorted(out), sorted(map(repr, m.virtual_points))]


class Case:
    def __init__(self, case):
        self.case, self.rng = case, random.Random(case["seed"])
        from flamingpy.codes import alternating_polarity

        self.code = codes.build(case["dims"], case["code"], case["ec"], case["backend"],
                                self.rng.choice([None, alternating_polarity, codes.negative,
                                                 functools.partial(codes.negative)]))
        self.ec = case["ec"]
        if self.rng.random() < 0.3:  # indices in another order than the coordinates
            self.code.graph.index_generator()
            self.code.graph.add_qubit((-2, 0, 0), neighbors=[0, 1])
        self.sg = codes.stab_graph(self.code, self.ec)
        self.qubits = codes.syndrome_qubits(self.code, self.ec)
        self.layer = self.match = None
        self.args = {}

    def state(self):
        g, c, ec = self.code.graph, self.code, self.ec
        return {
            "bits": digest([plain(g.nodes[v].get("bit_val")) for v in sorted(g.nodes)]),
            "attributes": digest(graph_of(g)),
            "edges": digest(sorted((sorted([repr(a), repr(b)]), plain(d))
                                   for a, b, d in g.edges(data=True))),
            "stabilizers": digest([sorted(s.coords()) for s in getattr(c, ec + "_stabilizers")]),
            "code": digest([plain(c.dims), c.bound_str, plain(c.ec),
                            sorted(getattr(c, ec + "_bound_points")),
                            sorted(c.all_syndrome_coords)]),
            "stabgraph": digest(stab_state(self.sg)),
            "matching": digest(match_state(self.match)),
            "indices": 0 if g.to_indices is None else digest(
                [sorted(map(repr, g.to_indices.items())), sorted(map(repr, g.to_points.items()))]),
            "adjacency": 0 if g.adj_mat is None else digest(
                plain(g.adj_mat.toarray() if hasattr(g.adj_mat, "toarray")
                      else np.asarray(g.adj_mat))),
            "layer": 0 if self.layer is None else digest(
                [plain({k: np.asarray(v) for k, v in self.layer.states.items()})]),
            "arguments": digest([repr({k: v for k, v in self.args.items() if k != "mat"}),
                                 plain(self.args.get("mat"))]),
        }

    # ---- the history -------------------------------------------------------
    def noise(self):
        from flamingpy.noise import CVLayer, IidNoise

        gen = np.random.default_rng(self.rng.randrange(2**31))
        if self.case["noise"] == "cv":
            self.layer = self.layer or CVLayer(self.code, delta=0.2, p_swap=0.3)
            self.layer.apply_noise(gen)
        else:
            IidNoise(self.code, self.rng.choice([0.05, 0.15])).apply_noise(gen)
            for v in self.code.graph.nodes:
                self.code.graph.nodes[v].setdefault("state", "GKP")
        self.match = None

    def weigh(self, decoder=None):
        from flamingpy.decoders.decoder import assign_weights

        decoder = decoder or self.rng.choice(["MWPM", "MWPM", "UF"])
        opts = {}
        if decoder == "MWPM" and self.layer is not None and self.rng.random() < 0.6:
            opts = {"method": "blueprint", "delta": 0.2, "integer": True, "multiplier": 100}
        assign_weights(self.code, decoder, **opts)
        return decoder, opts

    def drawing(self):
        r = self.rng
        return r.choice([None, {}, {
            "show_nodes": r.random() < 0.4, "show_recovery": r.random() < 0.7,
            "label_stabilizers": r.random() < 0.5, "label_boundary": r.random() < 0.4,
            "label_edges": r.random() < 0.4, "label": r.choice([None, "bit_val", "index"]),
            "legend": r.random() < 0.5, "show_title": r.random() < 0.5,
            "show_axes": r.random() < 0.5, "color_nodes": ("state", {"GKP": "gold", "p": "blue"}),
        }])

    def inspections(self):
        """Names and calls; the flag says that the call may refuse."""
        from flamingpy.decoders import decoder as dec
        from flamingpy.utils import viz

        r, code, g, sg, ec = self.rng, self.code, self.code.graph, self.sg, self.ec
        opts = self.drawing()
        label = r.choice([None, "bit_val", "index", "weight"])
        numbers = {n: k for k, n in enumerate(sg.nodes())}
        title = r.choice([None, True, "title"])
        gen = np.random.default_rng(r.randrange(2**31))
        mat = gen.normal(0, r.choice([1, 100]), (5, 4)) if r.random() < 0.5 else gen.integers(-60, 60, (4, 4))
        if r.random() < 0.4:
            mat = r.choice([sp.csr_matrix, sp.coo_matrix])(mat)
        self.args = {"opts": opts, "numbers": [(named(k), v) for k, v in numbers.items()], "mat": mat}
        some = r.choice([None, ([0, 2], [0, 2], [0, 2])])
        calls = [
            ("code.draw", lambda: code.draw(label=label, title=title or True,
                                            legend=r.random() < 0.5, dimensions=some)),
            ("code.draw plotly", lambda: code.draw(
                backend="plotly", label=r.choice([label, "all", ("bit_val", "type")]), title=title)),
            ("graph.draw", lambda: g.draw(color_nodes=r.choice(["red", True, (
                "state", {"p": "b"})]), color_edges=r.choice(["k", True, ("weight", {1: "b", -1: "r"})]))),
            ("graph.draw_adj", lambda: g.draw_adj(show=False)),
            ("heat map", lambda: viz.plot_mat_heat_map(mat, show=False, title=title)),
            ("draw_stabilizer_graph", lambda: code.draw_stabilizer_graph(
                ec, label_edges=r.random() < 0.5, node_labels=r.choice([None, numbers]))),
            ("stab_graph.draw", lambda: sg.draw(label_edges=r.random() < 0.5,
                                               node_labels=r.choice([None, numbers]))),
            ("stab_graph.to_nx", sg.to_nx),
            ("syndrome_plot", lambda: viz.syndrome_plot(
                code, ec, index_dict=r.choice([None, numbers]), drawing_opts=opts)),
            ("check_correction", lambda: dec.check_correction(code, r.random() < 0.5)),
            ("parities", lambda: (list(sg.odd_parity_stabilizers()), list(sg.real_nodes()),
                                  list(sg.real_edges()), sg.has_bound_points())),
            ("slices", lambda: g.slice_coords(r.choice("xyz"), r.randint(0, 3))),
            ("stabilizers", lambda: [(s.parity, s.xlims(), s.ylims(), s.zlims(), s.midpoint(),
                                      s.coords()) for s in sg.stabilizers]),
            ("macronize", lambda: g.macronize(pad_boundary=r.random() < 0.5)),
        ]
        # distances are only defined for weights of at least 0
        if all(g.nodes[q].get("weight", -1) >= 0 for q in self.qubits):
            calls.append(("paths", self.paths))
        if self.layer is not None:
            calls += [("layer.draw", lambda: self.layer.draw(label=r.choice([None, "bit_val"]), title=True)),
                      ("layer.draw_SCZ", lambda: self.layer.draw_SCZ(show=False)),
                      ("layer.SCZ", lambda: self.layer.SCZ(sparse=r.random() < 0.5)),
                      ("layer.hom_outcomes", lambda: (self.layer.hom_outcomes(),))]
        if self.match is not None:
            m = self.match
            calls += [("matching.draw", lambda: m.draw(label_edges=r.random() < 0.5)),
                      ("matching.to_nx", getattr(m, "to_nx", lambda: None)),
                      ("matching.queries", self.queries),
                      ("draw_decoding", lambda: viz.draw_decoding(
                          code, ec, {"matching_graph": m,
                                     "matching": m.min_weight_perfect_matching()}, opts))]
        return calls

    def paths(self):
        n = self.rng.choice(list(self.sg.stabilizers))
        self.sg.shortest_paths_without_high_low(n)
        if self.sg.has_bound_points():
            self.sg.shortest_paths_from_high()
            self.sg.shortest_paths_from_low()

    def queries(self):
        m = self.match
        matching = m.min_weight_perfect_matching()
        m.total_weight_of(matching)
        for pair in matching:
            m.edge_weight(pair)
            m.edge_path(pair)

    def new_matching(self):
        from flamingpy.decoders.mwpm.algos import build_match_graph

        self.match = None
        odd = list(self.sg.odd_parity_stabilizers())
        # distances are only defined for weights of at least 0
        if odd and all(self.code.graph.nodes[q].get("weight", -1) >= 0 for q in self.qubits):
            self.match = build_match_graph(self.code, self.ec,
                                           self.rng.choice(["networkx", "rustworkx", "lemon"]))

    def decode(self):
        """The same correction without, again without, and with drawing."""
        from flamingpy.decoders import decoder as dec
        from flamingpy.decoders.mwpm.algos import mwpm_decoder
        from flamingpy.decoders.unionfind.algos import uf_decoder

        r = self.rng
        decoder, weights = self.weigh()
        opts = self.drawing()
        self.args = {"opts": opts}
        extra = {"backend": r.choice(["networkx", "rustworkx", "lemon"])} if decoder == "MWPM" else {}
        whole = r.random() < 0.6
        start = copy.deepcopy({v: d.get("bit_val") for v, d in self.code.graph.nodes(data=True)})
        res = {}
        for name in ("off1", "off2", "on"):
            for v, b in start.items():
                self.code.graph.nodes[v]["bit_val"] = b
            kw = {"draw": name == "on", "drawing_opts": opts if name == "on" else None}
            if whole:
                got = [int(dec.correct(self.code, decoder, weights, decoder_opts=extra, **kw))]
            else:
                fn = mwpm_decoder if decoder == "MWPM" else uf_decoder
                got = sorted(map(list, fn(self.code, self.ec, **extra, **kw)))
            res[name] = {"result": digest(got), "state": self.state(),
                         "left": digest([self.code.graph.nodes[v]["bit_val"] for v in start])}
        # bits are compared as what is left, and may depend on memory addresses
        for x in res.values():
            del x["state"]["bits"]
        return res


def drive(case):
    import warnings

    warnings.simplefilter("ignore")
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    lemon.install()
    c = Case(case)
    rng = c.rng
    out = {"events": []}
    c.noise()
    c.weigh()
    for step in range(case["steps"]):
        what = rng.choice(["inspect"] * 5 + ["noise", "weigh", "match", "match", "decode", "decode"])
        if what == "noise":
            c.noise()
            c.weigh()
        elif what == "weigh":
            c.weigh()
            c.match = None
        elif what == "match":
            c.new_matching()
        elif what == "decode":
            ev = {"kind": "decode", "name": "decode", "error": "", "mayraise": False}
            ev.update(guarded(lambda _: c.decode(), None, 60))
            ev.pop("tb", None)
            c.match = None
            out["events"].append(ev)
        else:
            calls = c.inspections()
            for name, call in rng.sample(calls, 3):
                ev = {"kind": "inspect", "name": name, "error": "", "mayraise": False}
                ev["before"] = c.state()
                err = guarded(lambda _: (call(), {})[1], None, 60)  # pylint: disable=cell-var-from-loop
                ev["error"] = err.get("error", "")
                ev["after"] = c.state()
                out["events"].append(ev)
        plt.close("all")
    return out


def run(chk):
    lemon.install()
    rng = random.Random(chk.seed)
    q = chk.quick
    chk.model("InspectionModel", CFG % (4 if q else 6, "FALSE"), workers=8, timeout=3000,
              label="inspected and uninspected sessions")
    r = chk.model("InspectionModel", CFG % (4, "TRUE"), expect_violation=True,
                  label="destructive drawing (refuted)")
    assert r.violated
    cases = []
    for code, ec in codes.KINDS:
        for k in range(4 if q else 24):
            dims = [rng.randint(2, 3) for _ in range(3)] if k % 4 != 1 else [2, 2, 2]
            cases.append({"id": f"session {codes.label(dims, code, ec)} {k}", "dims": dims,
                          "code": code, "ec": ec, "backend": ("networkx", "rustworkx")[k % 2],
                          "noise": ("cv", "iid")[(k // 2) % 2], "seed": rng.random(),
                          "steps": 14 if q else 40})
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{"id": c["id"], **r} for c, r in zip(cases, res)]
    chk.extra["calls"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("InspectionTrace", traces, timeout=3000)
    chk.assumptions += [
        "weights are assigned before a stabilizer graph is drawn",
        "indices and adjacency matrices are computed on demand: absent may become present"]
