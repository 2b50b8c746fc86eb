"""C07: errors within the correction radius are always corrected."""

import random

import numpy as np

from harness import codes, decode, lemon
from harness.core import MachineryError, pmap, tlc

DIST = """SPECIFICATION Spec
INVARIANTS %s
CONSTANTS
  Dims <- %s
  Name = "%s"
  Ec = "%s"
CHECK_DEADLOCK FALSE
"""
UF = """SPECIFICATION Spec
INVARIANTS RadiusTheorem AllSatisfied
CONSTRAINT InRadius
CONSTANTS
  Dims <- %s
  Name = "%s"
  Ec = "%s"
  MaxFlips = %d
  MaxErased = %d
CHECK_DEADLOCK FALSE
"""
# shapes small in volume but long in the direction that protects
LONG = {("open", "primal"): [(4, 2, 2), (5, 2, 2), (6, 2, 3), (7, 2, 2), (5, 3, 2), (9, 2, 2)],
        ("open", "dual"): [(2, 4, 2), (2, 5, 2), (3, 6, 2), (2, 7, 2), (2, 5, 3), (2, 9, 2)],
        "toric": [(4, 4, 2), (5, 5, 2), (4, 5, 2), (6, 6, 2)],
        "periodic": [(4, 4, 4), (3, 4, 5), (5, 5, 5)]}


def models(chk):
    insts = [("D333", n, e) for n, e in codes.KINDS] + [
        ("D342", "open", "primal"), ("D342", "open", "dual"), ("D522", "open", "primal")]
    if not chk.quick:
        insts += [(d, n, e) for d in ("D444", "D433", "D345", "D432", "D223", "D222")
                  for n, e in codes.KINDS]
    for d, n, e in insts:
        chk.model("DistanceModel", DIST % ("DistanceHolds EveryQubitChecked", d, n, e), workers=1,
                  timeout=1500, label=f"{n}/{e}/{d}")
    for d, n, e in insts[:: 4 if chk.quick else 1]:
        # the distance is attained: a violation of NotTight is expected
        r = chk.model("DistanceModel", DIST % ("NotTight", d, n, e), workers=1, timeout=1500,
                      expect_violation=True, label=f"{n}/{e}/{d} attained")
        if not r.violated:
            raise MachineryError(f"distance of {n}/{e}/{d} not attained")
    insts = [("D322", "open", "primal", 2, 2)] if chk.quick else [
        ("D322", "open", "primal", 2, 2), ("D232", "open", "dual", 2, 2),
        ("D422", "open", "primal", 3, 3), ("D242", "open", "dual", 2, 2),
        ("D522", "open", "primal", 2, 1)]
    for a in insts:
        chk.model("UFModel", UF % a, workers=8, timeout=3000, label=f"radius {a}")


def run(chk):
    lemon.install()
    rng = random.Random(chk.seed)
    models(chk)
    cases = []

    def add(s, code, ec, backend, n, exhaustive=False):
        cases.append({"id": codes.label(s, code, ec, backend, "all" if exhaustive else "picked"),
                      "dims": list(s), "code": code, "ec": ec, "backend": backend,
                      "seed": rng.random(), "n": n, "exhaustive": exhaustive,
                      "judge": ["basic", "radius"]})

    for code, ec in codes.KINDS:
        for backend in ("networkx", "rustworkx"):
            small = [(2, 2, 2), (3, 3, 3)] if code == "periodic" else (
                [(2, 2, 2), (3, 3, 2)] + ([] if chk.quick else [(3, 3, 3), (4, 4, 2)]))
            if chk.quick and backend == "networkx":
                small = small[:1]
            for s in small:
                add(s, code, ec, backend, 0, True)
            for s in LONG.get((code, ec)) or LONG[code]:
                n = int(np.prod(s))
                if chk.quick and n > 64:
                    continue
                add(s, code, ec, backend, max(20, 1500 // n) if chk.quick else 8000 // n)
    res = pmap(decode.radius_session, cases, seconds=1500, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "n")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["decodes"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("DecodeTrace", traces,
                 cost=lambda t: 20 + len(t.get("events", [])) * len(t.get("qubits", [])),
                 timeout=6000)
    chk.assumptions += [
        "the distance of a code is that found by the walker model on the sizes it explored, and "
        "the formula of Decoding.CodeDistance elsewhere"]
