"""C05: MWPM recovery has minimum total weight."""

import random

import numpy as np

from harness import codes, decode, lemon
from harness.core import pmap

CFG = """SPECIFICATION Spec
INVARIANTS OracleIsMinimum OracleIsAttained
CONSTANTS
  Dims <- %s
  Name = "%s"
  Ec = "%s"
  Styles = {0, 1, 2}
CHECK_DEADLOCK FALSE
"""


def run(chk):
    lemon.install()
    rng = random.Random(chk.seed)
    # The oracle itself, against every recovery there is.
    for name, ec, dims in [("open", "primal", "D222"), ("open", "dual", "D222")] + (
        [] if chk.quick else [("toric", "primal", "D222"), ("open", "primal", "D322"),
                              ("open", "dual", "D232")]
    ):
        chk.model("OptimumModel", CFG % (dims, name, ec), workers=4, timeout=1500,
                  label=f"{name}/{ec}/{dims}")
    cases = []
    for code, ec in codes.KINDS:
        for backend in ("networkx", "rustworkx"):
            rect = [s for s in codes.shapes(2, 5) if np.prod(s) <= (36 if chk.quick else 80)]
            long = codes.long_shapes(rng, 1 if chk.quick else 8)
            for s in [(2, 2, 2), (3, 3, 3)] + long + rng.sample(rect, 3 if chk.quick else 25):
                plan = []
                for match in ["networkx", "rustworkx", "lemon"] * (4 if chk.quick else 10):
                    kind = rng.choice(["random", "walk", "few", "few", "chain"])
                    size = {"random": rng.choice([0.03, 0.1, 0.5]),
                            "walk": rng.randint(1, 10), "few": 6, "chain": rng.randint(1, 12)}[kind]
                    style = rng.choice(["ones", "small", "small", "wide", "huge", "close",
                                        "skewed", "again", "again", "fine"])
                    if s == (2, 2, 2) and rng.random() < 0.5:
                        style = "fine"
                    plan.append([style, kind, size, match, True])
                cases.append({"id": codes.label(s, code, ec, backend), "dims": list(s),
                              "code": code, "ec": ec, "backend": backend, "seed": rng.random(),
                              "plan": plan, "judge": ["basic", "match"],
                              "max_odd": 8 if chk.quick else 10})
            big = rng.choice([(4, 4, 4), (5, 4, 4), (4, 5, 5), (3, 5, 6)] + [(6, 6, 6), (5, 6, 7)] * (not chk.quick))
            plan = [[rng.choice(["ones", "small", "wide", "close", "again"]), "random",
                     rng.choice([0.03, 0.06, 0.1, 0.2]), match, True]
                    for match in ["networkx", "rustworkx", "lemon", "rustworkx"] * (1 if chk.quick else 4)]
            cases.append({**cases[-1], "id": codes.label(big, code, ec, backend), "dims": list(big),
                          "seed": rng.random(), "plan": plan, "max_odd": 0})
    res = pmap(decode.mwpm_session, cases, seconds=900, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "plan")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["decodes"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("DecodeTrace", traces,
                 cost=lambda t: sum(20 + len(e.get("pairs", [])) * len(t.get("qubits", []))
                                    for e in t.get("events", [])), timeout=6000)
    chk.assumptions += [
        "positive whole weights of at most 2^25, or dyadic ones with networkx",
        "with more than %d odd stabilizers, the recovery is compared with one found independently "
        "rather than with the optimum over all pairings" % (8 if chk.quick else 10)]
