"""C10: IID noise sets each bit by one draw compared with the error probability."""

import random

import numpy as np

from harness import codes
from harness.core import guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Right Never Always
CONSTANTS
  N = %d
  TOP = %d
CHECK_DEADLOCK FALSE
"""


def drive(case):
    from flamingpy.noise import IidNoise

    rng = random.Random(case["seed"])
    code = codes.build(case["dims"], case["code"], case["ec"])
    nodes = sorted(code.graph.nodes)
    n = len(nodes)
    out = {"nodes": n, "events": []}
    kept = {}
    if rng.random() < 0.4:  # what other noise models take for perfect
        code.graph.graph["perfect_points"] = rng.sample(nodes, rng.randint(1, n))
    for _ in range(case["groups"]):
        seed, skip = rng.randrange(2**31), rng.choice([0, 0, 1, 2])
        ref = np.random.default_rng(seed)
        stream = [ref.random() for _ in range(n * (skip + 1) + 1)]
        draws, after = stream[n * skip : n * (skip + 1)], stream[-1]
        # positions: draw of rank r at 2r + 1, so that 2r is just below it
        order = {u: 2 * r + 1 for r, u in enumerate(sorted(draws))}
        top = 2 * n + 1
        ranks = sorted(rng.sample(range(n), min(case["ladder"], n)))
        ps = [(0, rng.choice([0, 0.0]))]
        sd = sorted(draws)
        for r in ranks:
            if rng.random() < 0.5:
                ps.append((2 * r + 1, sd[r]))  # exactly a draw
            else:
                lo = sd[r - 1] if r else 0.0
                ps.append((2 * r, (lo + sd[r]) / 2))
        ps.append((top, rng.choice([1, 1.0])))
        again = rng.choice(ps)
        ev = {"kind": "runs", "draws": [order[u] for u in draws], "top": top, "error": "",
              "next": int(after * 2**30), "runs": []}

        def go(_):
            for pos, p in ps + [again]:
                gen = np.random.default_rng(seed)
                noise = kept.get(p) or IidNoise(code, p)
                kept[p] = noise
                for _ in range(skip + 1):
                    for v in nodes:  # stale bits of any kind
                        code.graph.nodes[v]["bit_val"] = rng.randint(0, 1)
                    noise.apply_noise(gen)
                bits = [code.graph.nodes[v]["bit_val"] for v in nodes]
                ev["runs"].append({
                    "p": pos, "bits": [int(b) for b in bits],
                    "ints": all(isinstance(b, (int, np.integer)) and not isinstance(b, bool)
                                for b in bits),
                    "next": int(gen.random() * 2**30)})
            return {}

        ev.update(guarded(go, None, 60))
        ev.pop("tb", None)
        # the repeated run at the end only serves reproducibility
        out["events"].append(ev)
    for p in (-1e-9, -1, 1 + 1e-9, 2, float("inf"), float("-inf"), -5.0):
        ev = {"kind": "refuse", "p": str(p), "error": ""}
        ev.update(guarded(lambda _: IidNoise(code, p) and {}, None, 10))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    chk.model("IidModel", CFG % (3, 3), label="3 nodes")
    if not chk.quick:
        chk.model("IidModel", CFG % (4, 4), label="4 nodes")
    cases = []
    for code, ec in codes.KINDS:
        rect = [s for s in codes.shapes(2, 4) if np.prod(s) <= 40]
        long = codes.long_shapes(rng, 1 if chk.quick else 6)
        big = [rng.choice([(8, 8, 8), (30, 5, 5), (6, 16, 8)])]
        for s in [(2, 2, 2), (3, 3, 3)] + big + long + rng.sample(rect, 2 if chk.quick else 10):
            cases.append({"id": codes.label(s, code, ec), "dims": list(s), "code": code, "ec": ec,
                          "seed": rng.random(),
                          "groups": 1 if s in big else 3 if chk.quick else 12,
                          "ladder": 3 if s in big else 12 if chk.quick else 60})
    res = pmap(drive, cases, seconds=600, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "groups", "ladder")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["applications"] = sum(len(e.get("runs", [])) for t in traces
                                    for e in t.get("events", []))
    chk.validate("IidTrace", traces, cost=lambda t: 20 + t.get("nodes", 0), timeout=3000)
    chk.assumptions += ["which node takes which draw of the generator is left open"]
