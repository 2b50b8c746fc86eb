"""C04: MWPM clears every syndrome."""

import random

import numpy as np

from harness import codes, decode, lemon
from harness.core import pmap


def run(chk):
    lemon.install()
    rng = random.Random(chk.seed)
    cases = []
    for code, ec in codes.KINDS:
        for backend in ("networkx", "rustworkx"):
            rect = [s for s in codes.shapes(2, 5) if np.prod(s) <= (48 if chk.quick else 100)]
            long = codes.long_shapes(rng, 2 if chk.quick else 8)
            long.append(codes.thin_shape(rng))
            for s in [(2, 2, 2), (3, 3, 3)] + long + rng.sample(rect, 4 if chk.quick else 25):
                plan = []
                for _ in range(8 if chk.quick else 20):
                    kind = rng.choice(["random", "random", "walk", "few", "chain"])
                    size = {"random": rng.choice([0.02, 0.08, 0.2, 0.5, 0.9]),
                            "walk": rng.randint(1, 12), "few": 8, "chain": rng.randint(1, 40)}[kind]
                    plan.append(
                        [rng.choice(["ones", "twos", "small", "wide", "huge", "close", "skewed", "again"]), kind, size,
                         rng.choice(["networkx", "rustworkx", "rustworkx", "lemon"]),
                         rng.random() < 0.6]
                    )
                plan.append(["ones", "few", 0, rng.choice(["networkx", "rustworkx", "lemon"]), True])
                cases.append({"id": codes.label(s, code, ec, backend), "dims": list(s),
                              "code": code, "ec": ec, "backend": backend, "seed": rng.random(),
                              "plan": plan, "judge": ["basic"]})
    res = pmap(decode.mwpm_session, cases, seconds=600, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "plan")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["decodes"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("DecodeTrace", traces, cost=lambda t: len(t.get("qubits", [])) * 10 + 50,
                 timeout=3000)
    chk.assumptions += ["positive whole weights, or dyadic ones with networkx", "dimensions of at least 2 in every direction"]
