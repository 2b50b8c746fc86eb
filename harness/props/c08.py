"""C08: the verdict of error correction is the logical class of the residual error."""

import contextlib
import io
import random

import numpy as np

from harness import codes
from harness.core import guarded, pmap, pt
from harness.decode import Session, line, plane_axes

CFG = """SPECIFICATION Spec
INVARIANTS Closed VerdictIsClass Parallel
CONSTANTS
  Dims <- %s
  Name = "%s"
  Ec = "%s"
  Complete = %s
CHECK_DEADLOCK FALSE
"""


def loops(s):
    """Syndrome qubits around each vertex of the opposite complex."""
    out, syn = [], set(s.qubits)
    for u, data in s.code.graph.nodes(data=True):
        if data["type"] != s.ec:
            around = [s.index[q] for q in s.code.graph.neighbors(u) if q in syn]
            if around:
                out.append((u, around))
    return out


def drive(case):
    from flamingpy.decoders import decoder as dec

    s = Session(case)
    rng = s.rng
    sites = loops(s)
    axes = plane_axes(s.case["code"], s.ec)
    for _ in range(case["n"]):
        ev = {"kind": "check", "error": "", "ops": []}
        ones = set()
        for _ in range(rng.choice([0, 1, 2, 3, 6, 12, min(len(sites), 150)])):
            if rng.random() < 0.8:
                u, around = rng.choice(sites)
                ev["ops"].append({"op": "loop", "at": pt(u)})
                ones ^= set(around)
            else:
                axis = rng.choice(axes)
                ln = line(s, axis, rng)
                ev["ops"].append({"op": "line", "axis": axis + 1, "at": pt(s.qubits[ln[0] - 1])})
                ones ^= set(ln)
        codes.set_bits(s.code, [q for q in s.others if rng.random() < 0.5])
        s.bit = rng.choice([int, np.int64, np.int8])
        s.put(ones)

        def go(_):
            verdict = [bool(v) for v in dec.check_correction(s.code)]
            v2, planes = dec.check_correction(s.code, sanity_check=True)
            (planes,) = planes
            return {"verdict": verdict, "verdict2": [bool(v) for v in v2],
                    "planes": {k: [bool(x) for x in v] for k, v in planes.items()}}

        ev.update(guarded(go, None, 30))
        ev["ones"] = s.ones()
        s.out["events"].append(ev)
    for _ in range(case["n"] // 4):  # recoveries, right or wrong, and the report about them
        s.put(s.random_ones(rng.choice([0.0, 0.02, 0.3])))
        ev = {"kind": "recover", "error": "", "ones": s.ones(), "said": rng.random() < 0.8}
        ev["rec"] = s.random_ones(rng.choice([0.0, 0.02, 0.5]))
        if rng.random() < 0.5:  # what remains is closed
            ev["rec"] = sorted(set(ev["ones"]) ^ set(rng.choice(sites)[1] if rng.random() < 0.5 else []))
        rest = s.rest()
        coll = rng.choice([set, list, tuple, frozenset])

        def recover(_):
            # pylint: disable=cell-var-from-loop
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                dec.recovery(coll(s.qubits[k - 1] for k in ev["rec"]), s.code, s.ec,
                             sanity_check=ev["said"])
            text = text.getvalue()
            return {"good": "succeeded" in text, "listed": text.count("Stabilizer at")}

        ev.update(guarded(recover, None, 30))
        ev.pop("tb", None)
        ev.update(after=s.ones(), others=s.rest() == rest)
        s.out["events"].append(ev)
    for _ in range(case["n"] // 2):
        s.put(s.random_ones(rng.choice([0.05, 0.2, 0.5] if max(case["dims"]) < 50 else [0.02])))
        name = rng.choice(["MWPM", "UF"]) if max(case["dims"]) < 50 else "UF"
        ev = {"kind": "correct", "error": ""}
        sane = rng.random() < 0.5
        ev.update(guarded(
            lambda _: {"result": bool(dec.correct(s.code, name, sanity_check=sane))}, None, 60))
        ev["after"] = s.ones()
        ev.pop("tb", None)
        s.out["events"].append(ev)
    return s.out


def run(chk):
    rng = random.Random(chk.seed)
    insts = [("D222", "open", "primal", "TRUE"), ("D222", "open", "dual", "TRUE")]
    if not chk.quick:
        insts += [("D222", n, e, "FALSE") for n in ("toric", "periodic")
                  for e in ("primal", "dual")] + [("D322", "open", "primal", "FALSE"),
                                                  ("D232", "open", "dual", "FALSE")]
    for a in insts:
        chk.model("HomologyModel", CFG % a, workers=8, timeout=3000, label="/".join(a))
    cases = []
    for code, ec in codes.KINDS:
        rect = [s for s in codes.shapes(2, 5) if np.prod(s) <= (48 if chk.quick else 100)]
        some = [(2, 2, 2), (3, 3, 3)] + codes.long_shapes(rng, 3 if chk.quick else 8)
        some += [codes.thin_shape(rng, 12, 20), codes.thin_shape(rng, 64, 70)]
        for k, s in enumerate(some + rng.sample(rect, 8 if chk.quick else 28)):
            backend = ("networkx", "rustworkx")[k % 2]
            cases.append({"id": codes.label(s, code, ec, backend), "dims": list(s), "code": code,
                          "ec": ec, "backend": backend, "seed": rng.random(),
                          "n": (16 if chk.quick else 60) if max(s) < 12 else 4 if max(s) < 50 else 2})
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "n")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["patterns"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("VerdictTrace", traces, cost=lambda t: 20 + len(t.get("qubits", [])), timeout=6000)
    chk.assumptions += ["dimensions of at least 2 in every direction"]
