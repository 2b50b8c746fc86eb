"""C23: a trial depends on its settings and its random draws, not on earlier trials."""

import random

import numpy as np

from harness import codes, lemon
from harness.core import guarded, pmap
from harness.props.c22 import digest, named, plain

CFG = """SPECIFICATION Spec
INVARIANT Fresh
CONSTANTS
  Trials = %d
  Mixed = %s
CHECK_DEADLOCK FALSE
"""


def settings(rng, kind, n):
    """Arguments of a noise object."""
    if kind == "iid":
        return [rng.choice([0.05, 0.1, 0.2, 0.5, 0, 1])], {}
    kw = {"delta": rng.choice([0.05, 0.1, 0.3, 1.0])}
    pick = rng.random()
    if pick < 0.5:
        kw["p_swap"] = rng.choice([1 / n, 1 / n, 1.5 / n, 1 - 1 / n, 0.1, 0.3, 0.6, 0.9, 1])
    elif pick < 0.8:
        kw["states"] = {"p": np.array(sorted(rng.sample(range(n), rng.randint(0, n))), dtype=int)}
    if kind == "cv" and rng.random() < 0.4:
        kw["sampling_order"] = rng.choice(["initial", "two-step"])
    return [], kw


def noise_for(kind, code, args):
    from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise

    cls = {"iid": IidNoise, "cv": CVLayer, "macro": CVMacroLayer}[kind]
    kw = {k: ({a: b.copy() for a, b in v.items()} if k == "states" else v)
          for k, v in args[1].items()}
    return cls(code, *args[0], **kw)


def options(rng, kind, delta, graph_backend):
    decoder = rng.choice(["MWPM", "MWPM", "UF"])
    opts = {}
    method = "uniform"
    if decoder == "MWPM" and kind != "iid" and rng.random() < 0.6:
        method = "blueprint"
        opts = {"method": method, "integer": True, "multiplier": rng.choice([1, 10, 100]),
                "prob_precomputed": kind == "macro", "delta": delta}
    elif rng.random() < 0.5:
        opts = {"method": "uniform"}
    extra = {"backend": rng.choice(["networkx", "rustworkx", "lemon"])} if decoder == "MWPM" else {}
    return decoder, method, opts, extra


def trial(code, noise, ec, seed, how, meanwhile=lambda: None):
    """Run one trial and list what it computed; meanwhile, something happens to other codes."""
    from flamingpy.decoders import decoder as dec
    from flamingpy.decoders.mwpm.algos import mwpm_decoder
    from flamingpy.decoders.unionfind.algos import uf_decoder

    decoder, _, opts, extra = how
    noise.apply_noise(np.random.default_rng(seed))
    meanwhile()
    g = code.graph
    sg = codes.stab_graph(code, ec)
    qubits = codes.syndrome_qubits(code, ec)
    bits = [plain(g.nodes[v]["bit_val"]) for v in qubits]
    where = sorted(g.nodes)
    dec.assign_weights(code, decoder, **opts)
    meanwhile()
    listed = {
        "bit": digest(bits),
        "label": digest([plain(g.nodes[v].get("state")) for v in where]),
        "outcome": digest([plain(g.nodes[v].get("hom_val_p")) for v in qubits]),
        "prob": digest([plain(g.nodes[v].get("p_phase_cond")) for v in qubits]),
        "weight": digest([plain(g.nodes[v]["weight"]) for v in qubits]),
        "edge": digest(sorted((sorted([named(e[0]), named(e[1])]), plain(sg.edge_data(*e).get("weight")))
                              for e in sg.edges())),
    }
    meanwhile()
    odd = sorted(digest(sorted(s.coords())) for s in sg.odd_parity_stabilizers())
    flips = (mwpm_decoder if decoder == "MWPM" else uf_decoder)(code, ec, **extra)
    # ties between recoveries may be broken either way
    total = sum(g.nodes[q]["weight"] for q in flips) if decoder == "MWPM" else 0
    dec.recovery(flips, code, ec)
    ok = not list(sg.odd_parity_stabilizers())
    dec.check_correction(code)
    return {"error": "", "vars": listed, "odd": odd, "total": int(round(total)), "cleared": bool(ok)}


def drive(case):
    import warnings

    warnings.simplefilter("ignore")
    lemon.install()
    from flamingpy.decoders import decoder as dec

    rng = random.Random(case["seed"])
    kind, ec = case["noise"], case["ec"]
    new = lambda: codes.build(case["dims"], case["code"], ec, case["backend"])
    used, other = new(), codes.build([2, 2, 3], "open", ec, "networkx")
    twin = new()  # a code of the same kind
    probe = codes.syndrome_qubits(twin, ec)[0]
    n = used.graph.number_of_nodes()
    if kind == "macro":
        n = used.graph.macronize(used.bound_str != "periodic").number_of_nodes()
    out = {"events": []}
    layer = args = None
    for _ in range(case["n"]):
        if layer is None or rng.random() < 0.15:
            args, layer = settings(rng, kind, n), None
        seed = rng.randrange(2**31)
        how = options(rng, kind, args[1].get("delta"), case["backend"])
        np.random.seed(rng.randrange(2**31))  # not the generator supplied

        busy = random.Random(seed)

        def meanwhile():
            # pylint: disable=cell-var-from-loop
            if busy.random() < 0.3 or "bit_val" not in twin.graph.nodes[probe]:
                noise_for(kind, twin, args).apply_noise(np.random.default_rng(busy.randrange(2**31)))
            if busy.random() < 0.3:
                opts = options(busy, kind, args[1].get("delta"), case["backend"])
                dec.correct(twin, opts[0], opts[2])

        def on_used(_):
            # pylint: disable=cell-var-from-loop
            nonlocal layer
            layer = layer or noise_for(kind, used, args)
            return trial(used, layer, ec, seed, how, meanwhile)

        def on_fresh(_):
            # pylint: disable=cell-var-from-loop
            code = new()
            return trial(code, noise_for(kind, code, args), ec, seed, how)

        def between(_):
            # pylint: disable=cell-var-from-loop
            what = rng.random()
            if what < 0.4:  # trials that are not observed
                other_kind = rng.choice(["iid", "cv"])
                m = other.graph.number_of_nodes()
                gen = np.random.default_rng(rng.randrange(2**31))
                noise_for(other_kind, other, settings(rng, other_kind, m)).apply_noise(gen)
                dec.correct(other, rng.choice(["MWPM", "UF"]))
                layer.apply_noise(gen)
                if rng.random() < 0.5:
                    dec.correct(used, rng.choice(["MWPM", "UF"]))
            elif what < 0.6:
                used.graph.macronize()
                used.graph.adj_generator(sparse=rng.random() < 0.5)
            return {}

        runs = [("used", on_used), ("fresh", on_fresh)]
        rng.shuffle(runs)
        ev = {"noise": kind, "decoder": how[0], "method": how[1]}
        for name, fn in runs:
            ev[name] = guarded(fn, None, 60)
            ev[name].pop("tb", None)
        out["events"].append(ev)
        if layer is None:
            break
        guarded(between, None, 60)
    return out


def run(chk):
    lemon.install()
    rng = random.Random(chk.seed)
    q = chk.quick
    chk.model("TrialModel", CFG % (3 if q else 6, "FALSE"), workers=4, label="trials with one kind of noise")
    r = chk.model("TrialModel", CFG % (2, "TRUE"), expect_violation=True,
                  label="changing kinds of noise (refuted)")
    assert r.violated
    cases = []
    for code, ec in codes.KINDS:
        for noise in ("iid", "cv", "macro"):
            for k in range(2 if q else 12):
                dims = rng.choice([[2, 2, 2], [2, 3, 2], [3, 3, 3], [2, 2, 4]]
                                  + [list(s) for s in codes.long_shapes(rng, 3)])
                if noise == "macro" and q:
                    dims = [2, 2, 2]
                cases.append({"id": f"{noise} {codes.label(dims, code, ec)} {k}", "dims": dims,
                              "code": code, "ec": ec, "noise": noise, "seed": rng.random(),
                              "backend": ("networkx", "rustworkx")[k % 2], "n": (24 if noise == "cv" else 10) if q else 40})
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{"id": c["id"], **r} for c, r in zip(cases, res)]
    chk.extra["trials"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("TrialTrace", traces, timeout=3000)
    chk.assumptions += ["one kind of noise per code object", "integer weights, so that the minimum is determined"]
