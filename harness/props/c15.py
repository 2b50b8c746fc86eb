"""C15: macronode reduction."""

import random

import numpy as np

from harness import codes
from harness.core import as_int, guarded, pmap, pt
from harness.rngs import Recorder, micro

CFG = """SPECIFICATION Spec
INVARIANTS OnGrid Canonical
CONSTANT PVals = {%s}
CHECK_DEADLOCK FALSE
"""
NONE = -2_000_000_000
QUARTERS = {2.0: 4, 0.5: 2, 0.125: 1}  # four times sqrt(delta / 2)
Z_OF = {1: lambda m: 0.0, 2: lambda m: m[2] - m[4], 3: lambda m: m[3] - m[4],
        4: lambda m: m[2] + m[3]}


def nano(x):
    return round(min(2.0, max(-2.0, float(x))) * 1e8)


def network(four, other=None):
    """A network, acting alike on both quadratures unless told otherwise."""
    z = np.zeros((4, 4))
    return np.block([[four, z], [z, four if other is None else other]])


def networks(rng):
    from flamingpy.cv.ops import splitter_symp

    std = splitter_symp()[:4, :4].astype(float)
    perm = np.eye(4)[rng.sample(range(4), 4)]
    signs = np.diag([rng.choice([-1.0, 1.0]) for _ in range(4)])
    if rng.random() < 0.4:  # with squeezing
        d = np.diag([rng.choice([0.5, 1, 2]) for _ in range(4)])
        return network(perm @ d, perm @ np.linalg.inv(d))
    return network(rng.choice([perm @ signs, std @ perm, signs @ std, std.T, np.eye(4)]))


def sym(edge):
    return 1 if (sum(edge[0]) + sum(edge[1])) % 4 == 1 else -1


def states_for(rng, n):
    """Which micronodes are squeezed: a way of asking for them."""
    kind = rng.choice(["each", "each", "each", "none", "swap", "swap1", "fixed", "all"])
    if kind == "none":
        return kind, {}
    if kind == "swap1":
        return kind, {"p_swap": 1}
    if kind == "swap":
        return kind, {"p_swap": rng.choice([0.05, 0.3, 0.7])}
    if kind == "all":
        return kind, {"states": {"p": np.arange(n)}}
    if kind == "each":  # a GKP state in each macronode
        rate = rng.random()
        keep = {4 * j + rng.randrange(4) for j in range(n // 4)}
        inds = [i for i in range(n) if i not in keep and rng.random() < rate]
    else:
        inds = [i for i in range(n) if rng.random() < 0.5]
    return kind, {"states": {"p": np.array(inds, dtype=int)}}


def drive(case):
    from flamingpy.cv.gkp import Z_err_cond
    from flamingpy.noise import CVMacroLayer

    rng = random.Random(case["seed"])
    code = codes.build(case["dims"], case["code"], case["ec"],
                       polarity=rng.choice([None, None, sym]))
    red = code.graph
    if case["perfect"]:
        red.graph["perfect_points"] = rng.sample(sorted(red.nodes), rng.randint(1, 5))
    bounds = [str(b) for b in code.boundaries]
    verts = sorted(red.nodes)
    vnum = {v: k + 1 for k, v in enumerate(verts)}
    out = {"conf": {"dims": case["dims"], "bounds": bounds},
           "pts": [pt(v) for v in verts], "events": []}
    swap12 = network(np.eye(4)[[1, 0, 2, 3]])
    ident = network(np.eye(4))
    probe = CVMacroLayer(code, delta=0.1)
    micros = list(probe.egraph.nodes)
    ids = {v: k + 1 for k, v in enumerate(micros)}
    n = len(micros)
    home = {v: tuple(round(float(x)) for x in v) for v in micros}
    out["home"] = [vnum[home[v]] for v in micros]
    nb = {v: list(probe.egraph.neighbors(v)) for v in micros}
    out["partner"] = [ids[nb[v][0]] if nb[v] else 0 for v in micros]
    out["w"] = [as_int(probe.egraph.edges[v, nb[v][0]].get("weight", 1)) if nb[v] else 0
                for v in micros]
    group = {v: [m for m in micros if home[m] == v] for v in verts}
    perfect = {m for m in micros if home[m] in set(red.graph.get("perfect_points") or [])}
    layers = []

    def layer(delta, bs, kw):
        kw = dict(kw)
        if "states" in kw:
            kw["states"] = {"p": kw["states"]["p"].copy()}
        if bs is not None:
            kw["bs_network"] = bs
        return CVMacroLayer(code, delta=delta, **kw)

    def trial(lay, seed):
        """Apply noise once and read everything back."""
        eg = lay.egraph
        for m in micros:
            for key in ("hom_val_p", "hom_val_q", "body_index"):
                eg.nodes[m].pop(key, None)
        for v in verts:
            red.nodes[v].update(bit_val=-3, p_phase_cond=-1, state="stale")
        gen = Recorder(seed)
        lay.apply_noise(gen)
        body = {m: as_int(eg.nodes[m]["body_index"]) for m in micros}
        val = {m: eg.nodes[m].get("hom_val_p" if body[m] == 1 else "hom_val_q") for m in micros}
        return {"body": body, "val": val, "z": gen.z,
                "state": {m: str(eg.nodes[m]["state"]) for m in micros},
                "bit": {v: as_int(red.nodes[v]["bit_val"]) for v in verts},
                "p": {v: float(red.nodes[v]["p_phase_cond"]) for v in verts},
                "label": {v: str(red.nodes[v]["state"]) for v in verts}}

    others = lambda: ([(v, {k: x for k, x in d.items()
                            if k not in ("bit_val", "p_phase_cond", "state")})
                       for v, d in red.nodes(data=True)], list(red.edges(data=True)))
    for _ in range(case["n"]):
        if not layers or rng.random() < 0.5:
            kind, kw = states_for(rng, n)
            delta = rng.choice([0, 0, 0, 2.0, 0.5, 0.125, 0.01, 0.05, 0.3])
            bs = None if rng.random() < 0.6 else networks(rng)
            layers.append((kind, kw, delta, bs, None))
            layers[-1] = (kind, kw, delta, bs, layer)
        pick = rng.randrange(len(layers))
        kind, kw, delta, bs, lay = layers[pick]
        seed = rng.randrange(2**31)
        ev = {"error": "", "states": kind, "delta": str(delta)}

        def go(_):
            # pylint: disable=cell-var-from-loop
            use = lay
            if use is layer:
                use = layer(delta, None if bs is None else bs.copy(), kw)
                layers[pick] = (kind, kw, delta, bs, use)
            std = bs is None
            std_bs = network(np.array([[1, 1, 1, 1], [-1, 1, -1, 1], [-1, -1, 1, 1],
                                       [1, -1, -1, 1]]) / 2)
            before = others()
            r = trial(use, seed)
            again = True
            if rng.random() < 0.3:
                s = trial(use, seed)
                again = all(r[k] == s[k] for k in ("body", "val", "state", "bit", "p", "label"))
            res = {"state": [r["state"][m] for m in micros],
                   "body": [r["body"][m] for m in micros],
                   "out": [NONE if r["val"][m] is None else micro(r["val"][m]) for m in micros],
                   "bit": [r["bit"][v] for v in verts], "p": [nano(r["p"][v]) for v in verts],
                   "label": [r["label"][v] for v in verts],
                   "noiseless": delta == 0, "standard": std, "again": bool(again),
                   "kept": bool(np.array_equal(use.bs_network, std_bs if std else bs)),
                   "rest": others() == before, "probed": False, "q": [], "noise": [], "z": [],
                   "sd": 0, "quiet": True, "pe": [], "fin": [],
                   "bs": [[round(2 * x) for x in row] for row in
                          (std_bs if std else bs).tolist()]}
            if delta > 0:
                meas = {v: {r["body"][m]: r["val"][m] for m in group[v]} for v in verts}
                pe, fin = [], []
                for m in micros:
                    if not nb[m]:
                        pe.append([0] * 4)
                        continue
                    w = probe.egraph.edges[m, nb[m][0]].get("weight", 1)
                    zs = [w * Z_OF[b](meas[home[nb[m][0]]]) for b in (1, 2, 3, 4)]
                    pe.append([nano(Z_err_cond(2 * delta, z, use_hom_val=True)) for z in zs])
                for v in verts:
                    x, num = 2 * meas[v][1], 0
                    for m in group[v]:
                        if nb[m] and r["state"][nb[m][0]] == "p":
                            num += 1
                            w = probe.egraph.edges[m, nb[m][0]].get("weight", 1)
                            x -= w * Z_OF[r["body"][nb[m][0]]](meas[home[nb[m][0]]])
                    fin.append({"num": num, "x": micro(x), "val": nano(
                        Z_err_cond(2 * (2 + num) * delta, x, use_hom_val=True))})
                res.update(pe=pe, fin=fin)
                if delta in QUARTERS:
                    quiet = trial(layer(0, bs, kw), seed)
                    diff = {m: float(r["val"][m]) - float(quiet["val"][m]) for m in micros}
                    res["quiet"] = all(abs(diff[m]) < 1e-5 for m in perfect)
                    if not perfect:
                        res.update(noise=sorted(micro(x) for x in diff.values()),
                                   z=sorted(micro(z) for z in r["z"]), sd=QUARTERS[delta])
            else:
                a, b = trial(layer(0, ident, kw), seed), trial(layer(0, swap12, kw), seed)
                q = {}
                for v in verts:
                    in_a = {a["body"][m]: m for m in group[v]}
                    in_b = {b["body"][m]: m for m in group[v]}
                    for k in (2, 3, 4):
                        q[in_a[k]] = a["val"][in_a[k]]
                    # body 2 shows what body 1 holds
                    q[in_a[1]] = b["val"][in_b[2]]
                    if any(in_a[k] != in_b[k] for k in in_a):
                        raise ValueError("body indices depend on the network")
                res.update(q=[micro(q[m]) for m in micros], probed=True)
            return res

        ev.update(guarded(go, None, 90))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    chk.model("ReduceModel", CFG % ("2, 6" if chk.quick else "1, 2, 3, 5, 6, 7"),
              label="one vertex, four neighbours")
    cases = []
    for code, ec in codes.KINDS:
        for s in ([(2, 2, 2)] + rng.sample(codes.shapes(2, 3), 2 if chk.quick else 8)
                  + codes.long_shapes(rng, 1 if chk.quick else 3, 12)):
            cases.append((list(s), code, ec))
    cases = [{"id": codes.label(s, c, e, k), "dims": s, "code": c, "ec": e, "seed": rng.random(),
              "perfect": k % 4 == 3, "n": 10 if chk.quick else 60}
             for k, (s, c, e) in enumerate(cases)]
    res = pmap(drive, cases, seconds=1500, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "perfect")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["trials"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("ReduceTrace", traces, cost=lambda t: 20 + len(t.get("pts", [])), timeout=3000)
    chk.assumptions += ["edge weights of plus or minus one", "outcomes compared to within 20 millionths"]
