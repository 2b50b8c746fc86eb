"""C11: CV noise populates every mode with exactly one state, in every trial."""

import random

import numpy as np

from harness import codes
from harness.core import as_int, guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Partitioned LabelsAgree
PROPERTY FixedStays
CONSTANTS
  N = %d
  Trials = 3
CHECK_DEADLOCK FALSE
"""


def graph_for(case, rng):
    from flamingpy.utils import graph_states

    if case["code"] == "state":
        make = rng.choice([graph_states.star_graph, graph_states.linear_cluster,
                           graph_states.ring_graph, graph_states.complete_graph])
        if case["dims"][0] > 100:
            make = graph_states.linear_cluster
        return make(case["dims"][0])
    code = codes.build(case["dims"], case["code"], case["ec"])
    return code if rng.random() < 0.6 else code.graph


def drive(case):
    from flamingpy.codes import EGraph
    from flamingpy.noise import CVLayer, CVMacroLayer

    rng = random.Random(case["seed"])
    subject = graph_for(case, rng)
    is_code = not isinstance(subject, EGraph)
    macro = case["macro"] and is_code
    if rng.random() < 0.4:
        g = subject.graph if is_code else subject
        g.graph["perfect_points"] = rng.sample(sorted(g.nodes), rng.randint(0, len(g)))
    cls = CVMacroLayer if macro else CVLayer
    layers = []
    shared = {"p": np.empty(0, dtype=int)}  # the caller's, for several layers
    shared_fixed = {}

    def new_layer(kind):
        kw = {"delta": rng.choice([0.1, 0.001, 1])}
        spec = {"kind": kind, "fixed": [], "prob": "", "p": None}
        n = spec["n"] = case["size"] or None
        if kind == "fixed":
            n = case["size"]
            fixed = rng.sample(range(n), rng.randint(1, n))
            spec["fixed"] = sorted(fixed)
            typ = rng.choice([list, np.array])
            kw["states"] = {"p": typ(fixed)}
            if rng.random() < 0.4:
                kw["states"], spec["fixed"] = shared_fixed.setdefault(0, (kw["states"], sorted(fixed)))
        elif kind == "none" and rng.random() < 0.7:
            kw["states"] = shared if rng.random() < 0.6 else {"p": np.empty(0, dtype=int)}
        elif kind in ("swap", "rare"):
            spec["kind"] = "swap"
            spec["p"] = rng.choice([0, 1, 0.5, 0.5, 0.5, 0.5, 0.02, 0.25, 0.8, 0.97,
                                    0.995, 0.999, 0.001])
            if kind == "rare" or n > 100 and rng.random() < 0.3:
                spec["p"] = rng.uniform(0.2, 2) / n
                spec["p"] = rng.choice([spec["p"], spec["p"], 1 - spec["p"]])
            spec["prob"] = {0: "0", 1: "1", 0.5: "mid"}.get(spec["p"], "other")
            kw["p_swap"] = spec["p"]
            if rng.random() < 0.4:
                kw["states"] = shared if rng.random() < 0.6 else {"p": np.empty(0, dtype=int)}
        if not macro and rng.random() < 0.4:
            kw["sampling_order"] = rng.choice(["initial", "two-step"])
        return [cls(subject, **kw), spec]

    # the number of modes, from a throwaway layer
    case = dict(case)
    case["size"] = as_int(len(cls(subject, delta=0.1).egraph))
    n = case["size"]
    out = {"n": n, "events": []}
    mid = None
    for step in range(case["steps"]):
        if mid is None or not layers:
            mid = new_layer("swap")
            while mid[1]["prob"] != "mid":
                mid = new_layer("swap")
            layers.append(mid)
            if case["size"] > 100:
                layers.append(new_layer("rare"))
        elif len(layers) < 5 and rng.random() < 0.15:
            layers.append(new_layer(rng.choice(["none", "fixed", "swap"])))
        layer, spec = mid if rng.random() < 0.6 else rng.choice(layers)
        ev = {"kind": spec["kind"], "fixed": spec["fixed"], "prob": spec["prob"], "error": ""}
        seed = rng.randrange(2**31)

        def go(_):
            eg = layer.egraph
            if rng.random() < 0.3:  # labels of another origin
                for v in eg.nodes:
                    eg.nodes[v]["state"] = rng.choice(["p", "GKP", None])
            same = True
            if rng.random() < 0.3:
                layer.populate_states(np.random.default_rng(seed))
                first = set(as_int(i) for i in layer.p_inds)
                layer.populate_states(np.random.default_rng(seed))
                same = first == set(as_int(i) for i in layer.p_inds)
            elif case["noisy"] and is_code and rng.random() < 0.5:
                layer.apply_noise(np.random.default_rng(seed))
            else:
                layer.populate_states(np.random.default_rng(seed))
            size = 0
            if spec["prob"] in ("mid", "other"):
                size = int(np.random.default_rng(seed).binomial(n, spec["p"]))
            elif spec["prob"] == "1":
                size = n
            return {"p": [as_int(i) for i in layer.p_inds], "same": bool(same),
                    "gkp": [as_int(i) for i in layer.gkp_inds], "size": size,
                    "labels": [str(eg.nodes[eg.to_points[i]].get("state")) for i in range(n)]}

        ev.update(guarded(go, None, 60))
        ev.pop("tb", None)
        out["events"].append(ev)
    for p in (0.0, 0.5, 1):
        ev = {"kind": "refuse", "error": "", "prob": ""}
        ev.update(guarded(lambda _: cls(subject, delta=0.1, p_swap=p, states={"p": [0]}) and {},
                          None, 30))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    chk.model("PopulateModel", CFG % 3, label="3 modes, two layers, three trials")
    cases = []
    for code, ec in codes.KINDS + [("state", "-")]:
        for macro in (False, True):
            if code == "state":
                if macro:
                    continue
                shapes = [(n, 1, 1) for n in (1, 2, 5, 9, 30, 300, 1500)]
            else:
                shapes = [(2, 2, 2), (3, 2, 2), (2, 3, 3)] if chk.quick or macro else (
                    codes.shapes(2, 4))
                shapes = shapes + codes.long_shapes(rng, 1) + [(5, 5, 5)][: int(ec == "dual")]
            for s in shapes:
                few = s[0] * s[1] * s[2] > 60
                cases.append({"id": codes.label(s, code, ec, "macro" if macro else "layer"),
                              "dims": list(s), "code": code, "ec": ec, "seed": rng.random(),
                              "macro": macro, "size": 0, "noisy": code != "state",
                              "steps": 16 if few else 80 if chk.quick else 300})
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "size", "noisy")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["populations"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("PopulateTrace", traces, cost=lambda t: 20 + t.get("n", 0), timeout=3000)
    chk.assumptions += ["graphs whose indices are contiguous (no qubit removed)"]
