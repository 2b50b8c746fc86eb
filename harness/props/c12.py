"""C12: homodyne outcomes are the sampled quadratures propagated through the CZ gates."""

import random

import numpy as np
import scipy.sparse as sp

from harness import codes
from harness.core import as_int, guarded, pmap
from harness.rngs import Recorder, micro

CFG = """SPECIFICATION Spec
INVARIANT Propagated
CONSTANTS
  N = %d
  MaxW = %d
CHECK_DEADLOCK FALSE
"""
NONE = -2_000_000_000
STALE = "stale"
DELTAS = {2.0: [2, 1], 0.5: [1, 2], 8.0: [8, 1], 0.125: [1, 8]}


def sym(edge):
    return 1 if (sum(edge[0]) + sum(edge[1])) % 4 == 1 else -1


def graph_for(case, rng):
    from flamingpy.codes import EGraph
    from flamingpy.utils import graph_states

    if case["code"] == "state":
        n = case["dims"][0]
        kind = rng.choice(["star", "linear", "ring", "complete", "random", "random"])
        if kind != "random":
            return {"star": graph_states.star_graph, "linear": graph_states.linear_cluster,
                    "ring": graph_states.ring_graph,
                    "complete": graph_states.complete_graph}[kind](n)
        g = EGraph()
        pts = [(rng.randint(0, 9), k, rng.randint(0, 9)) for k in range(n)]
        g.add_nodes_from(pts)
        for i in range(n):
            for j in range(i):
                if rng.random() < 0.4:
                    g.add_edge(pts[i], pts[j], weight=rng.choice([-3, -1, 1, 1, 2, 3]))
        return g
    return codes.build(case["dims"], case["code"], case["ec"],
                       polarity=rng.choice([None, sym]))


def drive(case):
    from flamingpy.codes import EGraph
    from flamingpy.cv.ops import SCZ_apply, SCZ_mat
    from flamingpy.noise import CVLayer

    rng = random.Random(case["seed"])
    subject = graph_for(case, rng)
    is_code = not isinstance(subject, EGraph)
    eg = subject.graph if is_code else subject
    nodes = list(eg.nodes)
    if case["perfect"]:
        eg.graph["perfect_points"] = rng.sample(nodes, rng.randint(0, len(nodes)))
    n = len(nodes)
    eg.index_generator()
    ind = {v: as_int(k) + 1 for v, k in eg.to_indices.items()}
    out = {"n": n, "edges": [[ind[u], ind[v], as_int(d.get("weight", 1))]
                             for u, v, d in eg.edges(data=True)], "events": []}
    perfect = sorted({ind[v] for v in eg.graph.get("perfect_points") or []})
    at = {k: v for v, k in ind.items()}

    def layer_for(order, delta, states, **kw):
        if states is not None:
            kw["states"] = {"p": np.array(states, dtype=int) if rng.random() < 0.7 else states}
        if order != "initial" or rng.random() < 0.5:
            kw["sampling_order"] = order
        return CVLayer(subject, delta=delta, **kw)

    def stale(quad):
        for v in nodes:
            eg.nodes[v]["hom_val_" + quad] = STALE

    def values(quad):
        vals = [eg.nodes[at[i + 1]].get("hom_val_" + quad) for i in range(n)]
        return [NONE if isinstance(x, (str, type(None))) else micro(x) for x in vals]

    def rest(quad):
        return {v: {k: x for k, x in d.items() if k != "hom_val_" + quad}
                for v, d in eg.nodes(data=True)}

    def starting(states, seed):
        """Initial quadratures of the two-step order, from noiseless layers."""
        lay = layer_for("two-step", 0, states)
        lay.populate_states(np.random.default_rng(seed))
        res = []
        for quad in "qp":
            stale(quad)
            lay.measure_hom(quad, rng=np.random.default_rng(seed))
            res.append(values(quad))
        return res

    for _ in range(case["n"]):
        order = rng.choice(["initial", "initial", "two-step", "given"])
        delta = rng.choice(list(DELTAS))
        seed = rng.randrange(2**31)
        states = rng.choice([None, rng.sample(range(n), rng.randint(0, n))])
        quad = rng.choice("ppq")
        round_ = is_code and order != "given" and rng.random() < 0.4
        ev = {"kind": "round" if round_ else "measure", "order": order, "delta": DELTAS[delta],
              "quad": "p" if round_ else quad, "perfect": perfect, "propagated": True, "sd": [],
              "error": ""}

        def go(_):
            # pylint: disable=cell-var-from-loop
            quad = ev["quad"]
            if order == "two-step":
                q0, p1 = starting(states, seed)
                ev["q0"], ev["p0"] = q0, [0] * n
                start = {"kind": "start", "error": "", "q0": q0, "p1": p1,
                         "sq": sorted({i + 1 for i in states or []})}
                out["events"].append(start)
            kw = {}
            if round_:
                tr = rng.choice(["gkp", "gkp", "sign"])
                ev["translator"] = tr
                if tr == "sign":
                    kw["translator"] = lambda o: [int(x > 0) for x in o]
                if states is None and order == "initial" and rng.random() < 0.5:
                    kw["p_swap"] = rng.choice([0.3, 1, 0])
            lay = layer_for("two-step" if order == "given" else order, delta, states, **kw)
            gen = Recorder(seed)
            used = rng.random() < 0.4  # a layer that has been measured before
            if used and round_:
                lay.apply_noise(np.random.default_rng(seed + 1))
            stale(quad)
            if round_:
                for v in nodes:
                    eg.nodes[v]["bit_val"] = -7
                if rng.random() < 0.7:
                    lay.apply_noise(gen)
                else:  # one step after the other
                    lay.populate_states(gen)
                    lay.measure_syndrome(rng=gen)
                    lay.inner_decoder()
                inds = list(subject.all_syndrome_inds)
                ev["bits"] = [as_int(eg.nodes[at[i + 1]]["bit_val"]) for i in range(n)]
                few = rng.sample(range(n), rng.randint(0, n))
                ev["rest"] = (lay.bit_values() == [eg.nodes[at[i + 1]]["bit_val"] for i in range(n)]
                              and lay.bit_values(few) == [eg.nodes[at[i + 1]]["bit_val"] for i in few])
            else:
                lay.populate_states(gen)
                if used:
                    for _ in range(rng.randint(1, 2)):
                        lay.measure_hom(rng.choice("qp"), rng=np.random.default_rng(seed + 1))
                    stale(quad)
                inds = rng.choice([None, rng.sample(range(n), rng.randint(1, n))])
                kw = {}
                if order == "given":
                    mean = [rng.randint(-3000000, 3000000) for _ in range(2 * n)]
                    half = as_int(4 * (delta / 2) ** 0.5)
                    sd = [0 if i + 1 in perfect else half for i in range(n)] * 2
                    kw["updated_means"] = np.array(mean) / 1e6
                    if rng.random() < 0.5:
                        sd = [rng.randint(0, 9) for _ in range(2 * n)]
                        kw["updated_covs"] = np.array(sd) / 4
                    cut = slice(0, n) if quad == "q" else slice(n, 2 * n)
                    ev["mean"], ev["sd"] = mean[cut], sd[cut]
                elif order == "two-step":
                    if rng.random() < 0.4:
                        kw["propagate"] = bool(rng.random() < 0.3)
                        ev["propagated"] = kw["propagate"]
                    if rng.random() < 0.3:  # spreads of the caller's own
                        sd = [rng.randint(0, 9) for _ in range(2 * n)]
                        kw["updated_covs"] = np.array(sd) / 4
                        ev["sd"] = sd[:n] if quad == "q" else sd[n:]
                before = rest(quad)
                passed = inds
                if inds is not None:
                    passed = rng.choice([list, np.array])(inds)
                lay.measure_hom(quad, inds=passed, rng=gen, **kw)
                ev["rest"] = rest(quad) == before
                inds = range(n) if inds is None else inds
            ev["sq"] = sorted(as_int(i) + 1 for i in lay.p_inds)
            ev["inds"] = [as_int(i) + 1 for i in inds]
            ev["z"] = [micro(z) for z in gen.z]
            ev["out"] = values(quad)
            some = None if rng.random() < 0.5 else list(range(n))
            got = lay.hom_outcomes(inds=some, quad=quad)
            few = rng.sample(range(n), rng.randint(0, n))
            if lay.hom_outcomes(few, quad) != [got[i] for i in few]:
                ev["rest"] = False
            ev["got"] = [NONE if isinstance(x, (str, type(None))) else micro(x) for x in got]
            return {}

        ev.update(guarded(go, None, 60))
        ev.pop("tb", None)
        out["events"].append(ev)
    if n <= 12:
        for _ in range(3):
            ev = {"kind": "scz", "error": "", "v": [rng.randint(-9, 9) for _ in range(2 * n)],
                  "m": [[rng.randint(-4, 4) for _ in range(2 * n)] for _ in range(2 * n)]}

            def scz(_):
                lay = CVLayer(subject, delta=1)
                dense = np.asarray(sp.csr_array(eg.adj_generator(sparse=True)).toarray())
                mats = [lay.SCZ(), lay.SCZ(sparse=False)]
                adjs = [dense, sp.csr_array(dense), sp.csr_matrix(dense), sp.coo_array(dense),
                        dense.astype(float)]
                want_dense = [mats[1]] + [SCZ_mat(a, sparse=False) for a in adjs]
                mats += [SCZ_mat(a) for a in adjs] + want_dense[1:]
                v, m = np.array(ev["v"], dtype=float), np.array(ev["m"])
                vecs = [SCZ_apply(a, v, one_shot=o) for a in adjs for o in (True, False)]
                twod = [SCZ_apply(a, m, one_shot=o) for a in adjs for o in (True, False)]
                plain = lambda x: [[as_int(y) for y in row] for row in
                                   np.asarray(x.toarray() if sp.issparse(x) else x).tolist()]
                return {"mats": [plain(x) for x in mats], "twod": [plain(x) for x in twod],
                        "dense": all(isinstance(x, np.ndarray) for x in want_dense),
                        "vecs": [[as_int(y) for y in x] for x in vecs]}

            ev.update(guarded(scz, None, 60))
            ev.pop("tb", None)
            out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    chk.model("HomodyneModel", CFG % (3, 2), label="3 modes, weights -1..2")
    if not chk.quick:
        chk.model("HomodyneModel", CFG % (4, 1), workers=8, timeout=3000, label="4 modes")
    cases = []
    for code, ec in codes.KINDS:
        for s in ([(2, 2, 2)] + rng.sample(codes.shapes(2, 3), 2 if chk.quick else 8)
                  + codes.long_shapes(rng, 1 if chk.quick else 3, 12)):
            cases.append((list(s), code, ec))
    for n in (1, 2, 3, 4, 5, 6, 8, 20) + (() if chk.quick else (7, 9, 12, 30, 60)):
        cases += [([n, 1, 1], "state", "-")] * 2
    cases = [{"id": codes.label(s, c, e, k), "dims": s, "code": c, "ec": e, "seed": rng.random(),
              "perfect": k % 2 == 1, "n": 16 if chk.quick else 80}
             for k, (s, c, e) in enumerate(cases)]
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "perfect")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["measurements"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("HomodyneTrace", traces, cost=lambda t: 20 + len(t.get("edges", [])) ** 1.5,
                 timeout=3000)
    chk.assumptions += ["integer edge weights (adjacency matrices are integer matrices)",
                        "outcomes compared to within a few millionths",
                        "values of delta whose standard deviations are rational"]
