"""C09: weights follow the chosen rule for every qubit, and leave nothing stale."""

import math
import random

import numpy as np

from harness import codes
from harness.core import guarded, pmap, pt, pts

CFG = """SPECIFICATION Spec
INVARIANTS Fresh OneIsHarmless
CONSTANTS
  Dims <- D222
  Name = "%s"
  Ec = "%s"
  MaxSwaps = %d
CHECK_DEADLOCK FALSE
"""
PROBS = {"0": 0.0, "1e-300": 1e-300, "1/1024": 2.0**-10, "1/4": 0.25, "1/2": 0.5, "7/10": 0.7,
         "1": 1.0}
HOMS = [0.0, 0.11, -0.17, 1.85, -1.7, 3.5, -3.4, 0.6, -0.8, 2.4]
TINY = [0.0, 0.11, -0.17, 1.85, -1.7, 3.5, -3.4]  # near bin centres: denominators stay positive


def split(w):
    """w as whole part and millionths."""
    if isinstance(w, (int, np.integer)) and not isinstance(w, bool):
        return int(w), 0, True
    whole = math.floor(w)
    micro = int(round((w - whole) * 1e6))
    return (whole + 1, 0, False) if micro == 10**6 else (whole, micro, False)


def minus_log_cond(var, hom):
    """-log of the conditional phase error probability, by the formula."""
    a = math.sqrt(math.pi)
    f = hom - a * round(hom / a)
    odd = sum(math.exp(-((f - n * a) ** 2) / var) for n in range(-9, 10) if n % 2)
    tot = sum(math.exp(-((f - n * a) ** 2) / var) for n in range(-9, 10))
    return -math.log(min(odd / tot, 0.5) or 2.2250738585072014e-308)


def drive(case):
    from flamingpy.decoders.decoder import assign_weights

    rng = random.Random(case["seed"])
    ec = case["ec"]
    code = codes.build(case["dims"], case["code"], ec, case["backend"])
    qubits = codes.syndrome_qubits(code, ec)
    index = {q: k + 1 for k, q in enumerate(qubits)}
    g = codes.stab_graph(code, ec)
    nodes = list(code.graph.nodes)
    out = {"qubits": pts(qubits), "events": []}
    if rng.random() < 0.3:
        out["events"].append(call(code, g, qubits, index, assign_weights, rng, [], None))
    for _ in range(case["n"]):
        p = rng.choice([0, 0.1, 0.3, 0.5, 0.8, 1])
        squeezed = [v for v in nodes if rng.random() < p]
        sq = set(squeezed)
        for v in nodes:
            code.graph.nodes[v]["state"] = "p" if v in sq else "GKP"
        if rng.random() < 0.3:  # not the business of the weights
            code.graph.graph["perfect_points"] = rng.choice(
                [None, [], rng.sample(nodes, len(nodes) // 3), list(nodes)])
        out["events"].append(call(code, g, qubits, index, assign_weights, rng, squeezed, True))
    return {**case, **out}


def call(code, g, qubits, index, assign_weights, rng, squeezed, labelled):
    options = [("MWPM", "uniform"), ("UF", "uniform")]
    if labelled:
        options += [("MWPM", "blueprint")] * 4 + [("UF", "blueprint")]
    decoder, method = rng.choice(options)
    delta = rng.choice([0.05, 0.1, 0.5, 1e-4, 2e-4])
    homs = TINY if delta < 1e-3 else HOMS
    mult, den = rng.choice([(1, 1), (1, 1), (2, 1), (10, 1), (1000, 1), (5, 2), (39, 4), (1, 2)])
    ev = {"decoder": decoder, "method": method, "integer": rng.random() < 0.5,
          "mult": mult, "den": den, "pre": rng.random() < 0.5, "error": "",
          "squeezed": pts(squeezed), "prob": [], "hom": [],
          "table": [[list(split(minus_log_cond((deg + 1) * delta, h)))[:2] for h in homs]
                    for deg in range(1, 5)]}
    names = sorted(PROBS)
    few = rng.sample(homs, rng.choice([1, 2, len(homs)]))
    for v in code.graph.nodes:  # whatever the other qubits have been measured to
        code.graph.nodes[v].update(hom_val_p=rng.choice(few), p_phase_cond=rng.choice([0, 0.5]),
                                   bit_val=rng.randint(0, 1))
    for q in qubits:
        data = code.graph.nodes[q]
        ev["prob"].append(rng.choice(names))
        ev["hom"].append(rng.randint(1, len(homs)))
        data["p_phase_cond"] = PROBS[ev["prob"][-1]]
        data["hom_val_p"] = rng.choice([float, np.float64])(homs[ev["hom"][-1] - 1])
    kw = {"method": method}
    if method == "uniform" and rng.random() < 0.5:
        kw = {}
    if method == "blueprint":
        if ev["integer"] or rng.random() < 0.5:
            kw["integer"] = ev["integer"]
        if mult != den or rng.random() < 0.5:
            kw["multiplier"] = mult if den == 1 else mult / den
        if ev["pre"]:
            kw["prob_precomputed"] = True
            kw["delta"] = rng.choice([delta, None])
        else:
            kw["delta"] = delta

    def go(_):
        assign_weights(code, decoder, **kw)
        edges, conns = [], True
        for u, v in g.edges():
            data = g.edge_data(u, v)
            if "low" in (u, v) or "high" in (u, v):
                conns = conns and data["weight"] == 0
            else:
                edges.append([index[data["common_vertex"]], *split(data["weight"])[:2]])
        return {"w": [list(split(code.graph.nodes[q]["weight"])) for q in qubits],
                "edges": edges, "conns": bool(conns)}

    ev.update(guarded(go, None, 30))
    ev.pop("tb", None)
    return ev


def run(chk):
    rng = random.Random(chk.seed)
    for n, e in [("open", "primal")] if chk.quick else codes.KINDS:
        chk.model("WeightModel", CFG % (n, e, 2 if chk.quick else 3), timeout=1500,
                  label=f"{n}/{e}")
    cases = []
    for code, ec in codes.KINDS:
        for backend in ("networkx", "rustworkx"):
            rect = [s for s in codes.shapes(2, 4) if np.prod(s) <= (30 if chk.quick else 64)]
            long = codes.long_shapes(rng, 1 if chk.quick else 6)
            if backend == "networkx":
                long.append(codes.thin_shape(rng))
            for s in [(2, 2, 2), (3, 3, 3)] + long + rng.sample(rect, 2 if chk.quick else 20):
                cases.append({"id": codes.label(s, code, ec, backend), "dims": list(s),
                              "code": code, "ec": ec, "backend": backend, "seed": rng.random(),
                              "n": 14 if chk.quick else 50})
    res = pmap(drive, cases, seconds=600, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "n")}, **r}
              for c, r in zip(cases, res)]
    for t in traces:
        t.pop("seed", None)
    chk.extra["assignments"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("WeightTrace", traces, cost=lambda t: 20 + len(t.get("qubits", [])) ** 2,
                 timeout=6000)
    chk.assumptions += ["weights are compared to within 3 millionths",
                        "outcomes and variances for which the formula does not underflow in its "
                        "denominator"]
