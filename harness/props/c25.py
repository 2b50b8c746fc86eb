"""C25: drawings show what they are given."""

import os
import functools
import random
import re

import networkx as nx
import numpy as np

from harness import codes, lemon
from harness.core import guarded, pmap, pt

CFG = """SPECIFICATION Spec
INVARIANTS Finished Nothing
CONSTANT Size = %d
CHECK_DEADLOCK FALSE
"""
NAMES = ["red", "b", "gold", "#123456", "k", "MidnightBlue", "0.5", "tab:orange"]


def hexa(c):
    from matplotlib.colors import to_hex

    return to_hex(c)


def cents(x):
    return [int(round(100 * float(v))) for v in x]


def value_of(text):
    """The number that a label shows, in thousandths."""
    s = str(text).replace("$", "").replace("^{-}", "-").replace(" ", "")
    try:
        return int(round(1000 * float(s)))
    except ValueError:
        return -10**8


def small(rng):
    """A number that two significant digits give exactly."""
    v = rng.choice([0, 1, rng.randint(-99, 99) / 10 ** rng.randint(0, 2), rng.randint(-9, 9), -1.0])
    return rng.choice([lambda x: x, np.float64, lambda x: np.int64(x) if x == int(x) else x])(v)


def random_graph(rng):
    from flamingpy.codes.graphs import EGraph

    g = EGraph()
    step = rng.choice([1, 1, 0.25])
    n = rng.randint(1, 9)
    lo = rng.choice([0, -3])
    while len(g) < n:
        p = tuple(rng.randint(lo * 4, 12) // 4 if step == 1 else rng.randint(lo * 4, 12) / 4 for _ in range(3))
        d = {}
        for key in ("color", "state", "bit_val", "weight", "p_phase", "note"):
            if rng.random() < 0.6:
                d[key] = {"color": rng.choice(NAMES), "state": rng.choice(["GKP", "p"]),
                          "bit_val": rng.randint(0, 1), "note": rng.randint(-3, 30)}.get(key, small(rng))
        g.add_node(p, **d)
    nodes = list(g.nodes)
    for a in nodes:
        for b in nodes:
            if a < b and rng.random() < 0.35:
                d = {"weight": rng.choice([-1, 1])} if rng.random() < 0.85 else {}
                if rng.random() < 0.6:
                    d["color"] = rng.choice(NAMES)
                g.add_edge(*rng.choice([(a, b), (b, a)]), **d)
    return g


def how(rng, which):
    """An argument saying how to colour, and what it says."""
    kind = rng.choice(["default", "name", "own", "map", "map"])
    spec = {"kind": kind, "name": "", "attr": "", "map": {"-": "-"}}
    if kind == "default":
        return False, spec
    if kind == "own":
        return True, spec
    if kind == "name":
        c = rng.choice(NAMES)
        return c, {**spec, "name": hexa(c)}
    if which == "edges":
        attr, m = "weight", {1: rng.choice(NAMES), -1: rng.choice(NAMES)}
    else:
        attr = rng.choice(["state", "bit_val"])
        m = {v: rng.choice(NAMES) for v in (["GKP", "p"] if attr == "state" else [0, 1])}
    if rng.random() < 0.3:
        m.pop(next(iter(m)))
    return (attr, m), {**spec, "attr": attr, "map": {**{"-": "-"}, **{str(k): hexa(c) for k, c in m.items()}}}


def attrs(d):
    return {**{"-": "-"}, **{k: hexa(v) if k == "color" else str(v) for k, v in d.items() if v is not None}}


def scene(g, label=None, whole=False):
    """The graph as the specification sees it."""
    index = None
    if label == "index" or whole:
        index = g.index_generator()
    number = {v: k + 1 for k, v in enumerate(g.nodes)}
    nodes = []
    for v, d in g.nodes(data=True):
        val = None
        if label == "index":
            val = index[v]
        elif isinstance(label, str):
            val = d.get(label)
        a = attrs(d)
        if whole:
            a = {k: str(x) for k, x in d.items() if x is not None}
            a["index"] = str(index[v])
        nodes.append({"at": cents(v), "attrs": a, "name": str(v),
                      "value": [] if val is None or isinstance(val, str) else [int(round(1000 * float(val)))]})
    edges = [{"a": number[a], "b": number[b], "attrs": attrs(d)} for a, b, d in g.edges(data=True)]
    return {"nodes": nodes, "edges": edges}


# ---- reading figures --------------------------------------------------------
def clear(artist, *sizes):
    """Whether an artist leaves no mark: hidden, transparent or without extent."""
    alpha = artist.get_alpha()
    return (not artist.get_visible() or (np.ndim(alpha) == 0 and alpha is not None and alpha <= 0)
            or any(np.size(s) and np.max(s) <= 0 for s in sizes))


def points(ax):
    res = []
    for c in ax.collections:
        if hasattr(c, "_offsets3d") and not clear(c, c.get_sizes()):
            xs, ys, zs = (np.atleast_1d(np.asarray(v)) for v in c._offsets3d)
            col = np.atleast_2d(getattr(c, "_facecolors", None) if getattr(c, "_facecolors", None) is not None
                                else c.get_facecolor())
            for k, p in enumerate(zip(xs, ys, zs)):
                res.append([cents(p), hexa(col[k % len(col)])])
    return res


def segments(ax):
    res = []
    for line in ax.lines:
        if clear(line, line.get_linewidth()):
            continue
        xs, ys, zs = line.get_data_3d()
        pts = [cents(p) for p in zip(xs, ys, zs)]
        for p, q in zip(pts, pts[1:]):
            res.append([[p, q], hexa(line.get_color())])
    for c in ax.collections:
        if hasattr(c, "_segments3d") and not clear(c, c.get_linewidth()):
            cols = c.get_colors()
            for k, s in enumerate(c._segments3d):
                res.append([[cents(p) for p in s], hexa(cols[k % len(cols)])])
    return res


def faces(ax):
    """Bounding boxes and colours of the faces of the boxes drawn."""
    from mpl_toolkits.mplot3d.art3d import Poly3DCollection

    res = []
    for c in ax.collections:
        if not isinstance(c, Poly3DCollection) or clear(c):
            continue
        vec = np.asarray(c._vec)[:3].T
        cols = c._facecolor3d if hasattr(c, "_facecolor3d") else c.get_facecolor()
        for k, sl in enumerate(c._segslices):
            v = vec[sl]
            r, g, b = cols[k % len(cols)][:3]
            name = "red" if r > max(g, b) else "green" if g > max(r, b) else "other"
            res.append({"lo": cents(v.min(axis=0)), "hi": cents(v.max(axis=0)), "colour": name,
                        "corners": [cents(x) for x in v]})
    return res


def legends(ax):
    leg = ax.get_legend()
    if leg is None:
        return []
    res = []
    for h, t in zip(leg.legend_handles, leg.get_texts()):
        res.append([t.get_text(), hexa(h.get_color() if hasattr(h, "get_color") else h.get_facecolor())])
    return res


# ---- the drawings -----------------------------------------------------------
class Artist:
    def __init__(self, case):
        self.case, self.rng = case, random.Random(case["seed"])

    def code(self, backend=None):
        from flamingpy.codes import alternating_polarity

        r = self.rng
        kind, ec = r.choice(codes.KINDS)
        dims = [r.randint(2, 3), r.randint(2, 3), r.randint(2, 3)]
        if r.random() < 0.3:
            dims[r.randrange(3)] = 4
        c = codes.build(dims, kind, ec, backend or r.choice(["networkx", "rustworkx"]),
                        r.choice([None, alternating_polarity, codes.negative,
                                  functools.partial(codes.negative)]))
        return c, dims, kind, ec

    def titles(self, label):
        r = self.rng
        title = r.choice([None, False, True, "Some title"])
        labels = [label] if isinstance(label, str) else list(label or [])
        return title, {"titled": {None: "no", False: "no", True: "yes"}.get(title, "text"),
                       "titletext": "Some title", "labels": labels}

    def graph(self):
        from flamingpy.utils import viz

        r = self.rng
        g = random_graph(r)
        call, legend = (lambda **k: g.draw(**k)), r.random() < 0.5
        cn, sn = how(r, "nodes")
        ce, se = how(r, "edges")
        if r.random() < 0.2:
            code = self.code()[0]
            g, call = code.graph, code.draw
            if r.random() < 0.5:
                cn, ce = None, None
                ends = {"primal": "black", "dual": "grey"}
                sn = {"kind": "map", "name": "", "attr": "type",
                      "map": {"-": "-", **{k: hexa(c) for k, c in ends.items()}}}
                se = {"kind": "default", "name": "", "attr": "", "map": {"-": "-"}}
                if getattr(code.polarity, "__name__", "") == "alternating_polarity":
                    se = {"kind": "map", "name": "", "attr": "weight",
                          "map": {"-": "-", "1": hexa("b"), "-1": hexa("r")}}
            else:
                cn, sn = how(r, "nodes")
                while ce is True or sn["kind"] == "own":
                    cn, sn = how(r, "nodes")
                    ce, se = how(r, "edges")
        elif r.random() < 0.4:
            call = lambda **k: viz.draw_EGraph(g, **k)
        label = r.choice([None, "index", "bit_val", "weight", "p_phase", "note"])
        title, told = self.titles(label)
        kw = {"label": label, "title": title, "legend": legend}
        if cn is not None:
            kw.update(color_nodes=cn, color_edges=ce)
        axes = r.random() < 0.7
        if not axes:
            kw["show_axes"] = False
        limits = []
        if r.random() < 0.2:
            limits = [[-r.randint(1, 3), r.randint(1, 6)] for _ in range(3)]
            kw["dimensions"] = tuple(list(x) for x in limits)
        _, ax = call(**kw)
        sc = scene(g, label)
        return {"kind": "graph", "scene": sc, "nodes": sn, "edges": se, "points": points(ax),
                "segments": segments(ax),
                "texts": [[cents(t.get_position_3d()), value_of(t.get_text())] for t in ax.texts],
                "title": ax.get_title(), **told, "legend": legend,
                "legends": legends(ax) + ([["-", "-"]] if legend and sn["kind"] == "map" else []),
                "axes": axes,
                "axisnames": [ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()],
                "limits": [[100 * v for v in x] for x in limits],
                "shown": [cents(ax.get_xlim()), cents(ax.get_ylim()), cents(ax.get_zlim())]}

    def hover(self):
        from flamingpy.utils import viz

        r = self.rng
        g = random_graph(r) if r.random() < 0.8 else self.code()[0].graph
        cn, sn = how(r, "nodes")
        ce, se = how(r, "edges")
        if any("color" not in d for _, d in g.nodes(data=True)) and sn["kind"] == "own" and g.number_of_nodes() > 9:
            cn, sn = "red", {**sn, "kind": "name", "name": hexa("red")}
        keys = []
        info = r.choice(["nothing", "coordinates", "one", "some", "all"])
        label = {"nothing": None, "coordinates": "coordinates", "all": "all"}.get(info)
        if info == "one":
            full = [k for k in ("state", "bit_val", "weight", "type") if all(k in d for _, d in g.nodes(data=True))]
            keys = [r.choice(full + ["index"])]
            label = keys[0]
        elif info == "some":
            keys = r.sample(["state", "bit_val", "weight", "type", "color", "index"], r.randint(1, 3))
            label = r.choice([tuple, list])(keys)
        title, told = self.titles(label)
        fig = (lambda **k: g.draw(backend="plotly", **k) if r.random() < 0.5 else viz.draw_EGraph_plotly(g, **k))(
            color_nodes=cn, color_edges=ce, label=label, title=title)
        nodes, edges = (next(t for t in fig.data if t.name == n) for n in ("nodes", "edges"))
        n = len(g)
        each = lambda c, n: [c] * n if isinstance(c, str) or c is None else list(c)
        texts = each(nodes.hovertext, n)
        sc = scene(g, None)
        for a, b in zip(sc["nodes"], scene(g, None, True)["nodes"]):
            a["lines"] = b["attrs"]
        return {"kind": "hover", "scene": sc, "nodes": sn, "edges": se,
                "points": [[cents(p), hexa(c)] for p, c in
                           zip(zip(nodes.x, nodes.y, nodes.z), each(nodes.marker.color, n))
                           if nodes.marker.size is None or np.max(nodes.marker.size) > 0],
                "segments": self.polyline(edges), "info": info, "keys": keys,
                "hover": [[] if t is None else t.split("<br />") for t in texts],
                "title": fig.layout.title.text or "", **told}

    @staticmethod
    def polyline(trace):
        cols = trace.line.color
        res, last = [], None
        if trace.line.width == 0:
            return res
        for k, p in enumerate(zip(trace.x, trace.y, trace.z)):
            if p[0] is None:
                last = None
                continue
            if last is not None:
                c = cols if isinstance(cols, str) else cols[k]
                res.append([[cents(last), cents(p)], hexa(c)])
            last = p
        return res

    def weigh(self, code, ec):
        r = self.rng
        qubits = codes.syndrome_qubits(code, ec)
        codes.set_bits(code, [q for q in qubits if r.random() < r.choice([0.05, 0.2])])
        # weights that are no integers are for networkx alone
        scale = 4 if isinstance(codes.stab_graph(code, ec).graph, nx.Graph) and r.random() < 0.6 else 1
        self.backends = ["networkx", "lemon", "rustworkx"][: 1 if scale > 1 else 3]
        ws = [r.choice([1, 1, 2, 5, 7, 30]) for _ in qubits]
        codes.set_weights(code, qubits, ws if scale == 1 else [w / scale for w in ws], ec)

    def dec_graph(self):
        from flamingpy.decoders.mwpm.algos import build_match_graph

        r = self.rng
        code, _, _, ec = self.code()
        self.weigh(code, ec)
        sg = codes.stab_graph(code, ec)
        kw = {"label_edges": r.random() < 0.5, "title": r.choice(["", "a title"])}
        if r.random() < 0.5:
            edges, nodes = self.contents(sg)
            draw = r.choice([lambda **k: code.draw_stabilizer_graph(ec, **k), lambda **k: sg.draw(**k)])
            # drawing from the code assigns the weights anew: qubits keep theirs
        else:
            m = build_match_graph(code, ec, r.choice(self.backends))
            if len(list(m.graph.nodes())) < 2:
                return None
            edges, nodes = self.contents(m)
            draw = m.draw
        number = {n: k for k, n in enumerate(nodes)}
        _, axs = draw(node_labels=dict(number), **kw)
        return self.graph_of(axs, edges, number, kw["label_edges"], kw["title"])

    def contents(self, g):
        """The weighted edges and the nodes of a stabilizer or matching graph."""
        if hasattr(g, "edge_data"):  # a stabilizer graph, without its connectors
            if hasattr(g.graph, "copy") and hasattr(g.graph, "edge_list"):
                keep = list(g.edges())
            else:
                keep = list(g.graph.edges())
            return ([(a, b, g.edge_data(a, b)["weight"]) for a, b in keep
                     if not {"low", "high"} & {x for x in (a, b) if isinstance(x, str)}],
                    [n for n in g.nodes() if not isinstance(n, str)])
        if hasattr(g.graph, "weighted_edge_list"):
            nm = g.graph.nodes()
            edges = [(nm[a], nm[b], d.weight) for a, b, d in g.graph.weighted_edge_list()]
        else:
            edges = [(a, b, d["weight"]) for a, b, d in g.graph.edges(data=True)]
        return edges, list(g.graph.nodes())

    def graph_of(self, axs, edges, number, labelled, title):
        """What a drawing shows of a graph whose nodes have these numbers (not all distinct)."""
        ax = axs[0]
        at = []
        labels = []
        annotations = [t for t in ax.texts if hasattr(t, "arrow_patch") and t.arrow_patch is not None]
        dots = np.concatenate([np.asarray(c.get_offsets()) for c in ax.collections])
        for t in ax.texts:
            if t in annotations:
                continue
            text = t.get_text()
            if re.fullmatch(r"\d+", text):
                at.append((np.asarray(t.get_position()), int(text)))
            else:
                labels.append(int(round(100 * float(text))))
        near = lambda p: min(at, key=lambda k: np.hypot(*(k[0] - np.asarray(p))))
        where = lambda p: near(p)[1]
        got = []
        for t in annotations:
            off = max(np.hypot(*(near(p)[0] - np.asarray(p))) for p in (t.xy, t.xyann))
            got.append([[where(t.xy), where(t.xyann)] if off < 1e-6 else [-1, -1], 0,
                        hexa(t.arrow_patch.get_edgecolor())])
        # the scale of colours says which weight a colour stands for
        cax = axs[1]
        scale = sorted(cax.get_ylim())
        import matplotlib as mpl

        cmap = mpl.colormaps["Spectral"]
        want = [[[number[a], number[b]], int(round(100 * w))] for a, b, w in edges]
        shade = {}
        lo, hi = min((w for *_, w in edges), default=0), max((w for *_, w in edges), default=0)
        for *_, w in edges:
            shade.setdefault(hexa(cmap(0.0 if hi == lo else (w - lo) / (hi - lo))), int(round(100 * w)))
        for e in got:
            e[1] = shade.get(e[2], -1)
        fix = [int(round(100 * v)) for v in scale]
        if lo == hi:
            fix = [int(round(100 * lo))] * 2  # a single weight has a scale of its own
        return {"kind": "graphof", "gotnodes": sorted(where(p) for p in dots if len(at)),
                "wantnodes": sorted(number.values()), "got": got, "want": want, "scale": fix,
                "labelled": labelled, "labels": labels, "title": ax.get_title(),
                "titletext": title}

    def decoding(self):
        """The three figures of a decoding, tied together by the numbers of the syndrome plot."""
        from flamingpy.decoders.mwpm.algos import build_match_graph
        from flamingpy.utils import viz

        r = self.rng
        code, _, _, ec = self.code()
        self.weigh(code, ec)
        sg = codes.stab_graph(code, ec)
        opts = {"label_edges": r.random() < 0.6, "show_title": r.random() < 0.6,
                "label_stabilizers": True, "label_boundary": True, "show_nodes": r.random() < 0.2}
        m = build_match_graph(code, ec, r.choice(self.backends))
        objs = r.choice([{}, {"matching_graph": m}])
        name = ec.capitalize()
        first, second, (_, ax) = viz.draw_decoding(code, ec, objs, opts)
        shown = [[[int(round(v)) for v in t.get_position_3d()], int(t.get_text())] for t in ax.texts]
        edges, nodes = self.contents(sg)
        spot = lambda n: pt(n) if isinstance(n, tuple) else [int(round(v)) for v in n.midpoint()]
        by_spot = {(p[0], p[2], p[1]): k for p, k in shown}
        number = {n: by_spot.get(tuple(spot(n)), -1) for n in nodes}
        parts = [self.graph_of(first[1], edges, number, opts["label_edges"],
                               f"{name} stabilizer graph" if opts["show_title"] else "")]
        if objs and len(list(m.graph.nodes())):
            edges, nodes = self.contents(m)
            copies = {n: number[n[0]] if n in set(m.virtual_points) else number[n] for n in nodes}
            parts.append(self.graph_of(second[1], edges, copies, opts["label_edges"],
                                       f"{name} matching graph" if opts["show_title"] else ""))
        return {"kind": "decoding", "parts": parts, "numbers": [k for _, k in shown],
                "nodes": len(number), "none": second[0] is None, "empty": len(parts) == 1}

    def syndrome(self):
        from flamingpy.utils import viz

        r = self.rng
        code, dims, kind, ec = self.code()
        self.weigh(code, ec)
        flips = codes.flipped(code, codes.syndrome_qubits(code, ec))
        numbers = {n: k for k, n in enumerate(n for n in codes.stab_graph(code, ec).nodes()
                                             if not isinstance(n, str))}
        opts = {"show_nodes": r.random() < 0.5, "label_stabilizers": r.random() < 0.6,
                "label_boundary": r.random() < 0.4, "show_title": r.random() < 0.6}
        index = r.choice([None, numbers, numbers])
        _, ax = viz.syndrome_plot(code, ec, index_dict=index, drawing_opts=opts)
        wanted = []
        for n, k in numbers.items():
            if index is not None:
                if isinstance(n, tuple):
                    if opts["label_boundary"]:
                        wanted.append([pt(n), k])
                elif opts["label_stabilizers"]:
                    wanted.append([[int(round(v)) for v in n.midpoint()], k])
        bounds = {tuple(cents((p[0], p[2], p[1]))) for p in getattr(code, ec + "_bound_points")}
        pts = [p[0] for p in points(ax)]
        if not opts["show_nodes"] and opts["label_boundary"] and index is not None:
            pts = [p for p in pts if tuple(p) not in bounds]
        return {"kind": "syndrome", "dims": dims, "code": kind, "ec": ec, "flips": flips, "faces": faces(ax),
                "marks": [[[int(round(v)) for v in t.get_position_3d()], int(t.get_text())] for t in ax.texts],
                "named": wanted, "title": ax.get_title(),
                "titletext": ec.capitalize() + " syndrome" if opts["show_title"] else "",
                "shownodes": opts["show_nodes"], "points": pts}

    def recovery(self):
        from flamingpy.decoders.mwpm.algos import build_match_graph
        from flamingpy.utils import viz

        r = self.rng
        code, _, _, ec = self.code()
        self.weigh(code, ec)
        m = build_match_graph(code, ec, r.choice(self.backends))
        matching = m.min_weight_perfect_matching()
        rec = r.sample(codes.syndrome_qubits(code, ec), r.randint(0, 6))
        objs = {"matching": matching, "matching_graph": m, "recovery_set": set(rec)}
        if r.random() < 0.5:
            (_, _, (_, ax)) = viz.draw_decoding(code, ec, objs, {"show_recovery": True, "label_stabilizers": False})
        else:
            import matplotlib.pyplot as plt

            _, ax = viz.syndrome_plot(code, ec)
            plt.figure()
            viz.add_recovery_drawing(ax, **objs)
        virtual = set(m.virtual_points)
        paths = [[pt(n) if isinstance(n, tuple) else [int(round(v)) for v in n.midpoint()]
                  for n in m.edge_path(p)] for p in matching if not set(p) <= virtual]
        ends = [pt(n) for p in matching if not set(p) <= virtual for n in m.edge_path(p) if isinstance(n, tuple)]
        marks, lines, feet = [], [], []
        for line in ax.lines:
            pts = [[int(round(v)) for v in p] for p in zip(*line.get_data_3d())]
            if clear(line, line.get_linewidth() if len(pts) > 1 else line.get_markersize()):
                continue
            if len(pts) > 1:
                lines.append(pts)
            elif line.get_marker() == "o":
                marks += pts
            else:
                feet += pts
        return {"kind": "recovery", "marks": marks, "feet": feet, "ends": ends, "lines": lines, "paths": paths,
                "recovery": [pt(q) for q in rec]}

    def ticks(self):
        from flamingpy.utils.viz import PiFormatter, to_pi_string

        r = self.rng
        n, tex = r.choice([r.randint(-12, 12), r.randint(-2000, 2000)]), r.random() < 0.7
        x = n * np.sqrt(np.pi) / 2
        text = to_pi_string(x, tex=tex) if r.random() < 0.5 else PiFormatter(tex=tex)(x, 3)
        if r.random() < 0.2:
            d = r.randint(2, 3)
            x += r.uniform(0.05, 0.8)
            shown = to_pi_string(x, tex=tex, d=d) if r.random() < 0.5 else PiFormatter(tex=tex, d=d)(x)
            return {"kind": "decimals", "shown": int(float(shown) * 10**d + (0.5 if x > 0 else -0.5)),
                    "value": int(x * 10**d + (0.5 if x > 0 else -0.5))}
        return {"kind": "ticks", "n": n, "tex": tex, "text": text}

    def matrix(self):
        from flamingpy.utils import viz

        r = self.rng
        if r.random() < 0.5:
            g = random_graph(r)
            _, axs = g.draw_adj(show=False)
            mat = g.adj_generator(sparse=False)
        else:
            mat = np.array([[r.randint(-3, 3) for _ in range(r.randint(2, 2) + 2)] for _ in range(r.randint(1, 5))])
            import scipy.sparse as sp

            _, axs = viz.plot_mat_heat_map(r.choice([lambda x: x, sp.csr_array])(mat), show=False)
        shown = axs[0].images[0].get_array()
        return {"kind": "matrix", "want": np.asarray(mat, dtype=int).tolist(),
                "got": np.asarray(shown).astype(int).tolist()}

    def curve(self):
        from flamingpy.cv import gkp
        from flamingpy.utils import viz
        import contextlib
        import io

        r = self.rng
        alpha = np.sqrt(np.pi)
        xs = np.linspace(-r.choice([0, 1, 1, 4]) * r.uniform(1, 9), r.choice([1, 1, 4]) * r.uniform(1, 9), r.randint(5, 60))
        which = r.choice(["integer", "fraction", "bins", "error", "error-hom"])
        ys = {"integer": lambda: gkp.integer_fractional(xs, alpha)[0],
              "fraction": lambda: gkp.integer_fractional(xs, alpha)[1],
              "bins": lambda: gkp.GKP_binner(xs)}.get(
                  which, lambda: np.array([r.random() for _ in xs]))()
        first = xs
        with contextlib.redirect_stdout(io.StringIO()):
            if which == "integer":
                _, ax = viz.plot_integer_part(xs, ys, alpha, show=False)
            elif which == "fraction":
                _, ax = viz.plot_fractional_part(xs, ys, alpha, show=False)
            elif which == "bins":
                _, ax = viz.plot_GKP_bins(xs, ys, alpha, show=False)
            else:
                _, ax = viz.plot_Z_err_cond(xs, ys, alpha, which == "error-hom", show=False)
                if which == "error":
                    first = gkp.GKP_binner(xs, return_fraction=True)[1]
        fine = lambda v: [int(round(10000 * float(x))) for x in v]
        (line,) = ax.lines
        return {"kind": "curve", "central": which == "error", "low": int(xs[0] // alpha),
                "high": int(xs[-1] // alpha) + 1,
                "ticks": [int(round(1000 * float(x) / alpha)) for x in ax.get_xticks()],
                "texts": [ax.xaxis.get_major_formatter()(x) for x in ax.get_xticks()],
                "want": [fine(first), fine(ys)],
                "got": [fine(line.get_xdata()), fine(line.get_ydata())]}


def drive(case):
    import warnings

    warnings.simplefilter("ignore")
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    lemon.install()
    art = Artist(case)
    out = {"events": []}
    for _ in range(case["steps"]):
        kind = art.rng.choice(["graph"] * 5 + ["hover"] * 4 + ["dec_graph"] * 3 + ["syndrome"] * 4
                              + ["recovery"] * 3 + ["decoding"] * 3 + ["ticks"] * 6 + ["matrix", "curve", "curve"])
        ev = {"kind": kind, "error": ""}
        got = guarded(lambda _: {"event": getattr(art, kind)()}, None, 120)  # pylint: disable=cell-var-from-loop
        plt.close("all")
        if got.get("error"):
            ev["error"] = got["error"]
        elif got["event"] is None:
            continue
        else:
            ev.update(got["event"])
        out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    q = chk.quick
    chk.model("DrawingModel", CFG % 2, workers=4, label="graphs on two nodes, items in any order")
    if not q:
        chk.model("DrawingModel", CFG % 3, workers=8, timeout=1500, label="three nodes")
    cases = [{"id": f"drawings {k}", "seed": rng.random(), "steps": 22 if q else 80}
             for k in range(32 if q else 120)]
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{"id": c["id"], **r} for c, r in zip(cases, res)]
    chk.extra["drawings"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("DrawingTrace", traces, timeout=3000)
    chk.assumptions += ["figures are read through matplotlib's and plotly's objects; pixels are not compared",
                        "weights are assigned before a stabilizer graph is drawn",
                        "edges whose attribute is not in the dictionary of colours are left out"]
