"""C20: the results file gains exactly one aligned row per simulation."""

import os
import pathlib
import random
import shutil
import tempfile

import numpy as np

from harness import codes
from harness.core import guarded, pmap
from harness.ranks import World, installed

CFG = """SPECIFICATION Spec
INVARIANTS Table Kept Aligned
CONSTANTS
  Alphabet = {97, 44, 34, 10}
  MaxLen = %d
  Cols = %d
  Runs = %d
  NoQuotes = %s
CHECK_DEADLOCK FALSE
"""


def chars(text):
    return [ord(c) for c in text]


def content(path):
    if not os.path.exists(path):
        return [-1]
    with open(path, newline="", encoding="utf8") as f:
        return chars(f.read())


def polarity(edge):
    return 1


class Scripted:
    """A noise model with any arguments, whose trials fail as prescribed."""

    fates, log = [], []

    def __init__(self, code, **kwargs):
        self.code = code

    def apply_noise(self, rng=None):
        g = self.code.graph
        for _, d in g.nodes(data=True):
            d["bit_val"] = 0
        fail = Scripted.fates[len(Scripted.log) % len(Scripted.fates)]
        Scripted.log.append(fail)
        if fail:  # a logical operator through every plane
            ec = self.code.ec[0]
            par, axis = (0, 0) if ec == "primal" else (1, 1)
            syn = sorted(set(getattr(self.code, ec + "_syndrome_coords")))
            on = [q for q in syn if q[axis] % 2 == par
                  and all(q[i] % 2 == 1 - par for i in range(3) if i != axis)]
            rest = [i for i in range(3) if i != axis]
            for q in on:
                if all(q[i] == on[0][i] for i in rest):
                    g.nodes[q]["bit_val"] = 1


VALUES = [
    lambda r: r.choice([0, 1, -3, 0.09, 1e-05, True, None, "", " ", "a b"]),
    lambda r: (1, 2, 3),
    lambda r: [0.5, "x"],
    lambda r: {"a": 1, "b": (2, 3)},
    lambda r: 'she said "no", twice',
    lambda r: '"',
    lambda r: ",",
    lambda r: "two\nlines",
    lambda r: np.arange(6).reshape(2, 3),
    lambda r: np.float64(0.25),
    lambda r: {"nested": {"deep": [1, "it's", None]}},
    lambda r: "it's",
    lambda r: "δ = ½ \u2603 \U0001f600",
    lambda r: ("naïve", "\u00a0"),
]


def arguments(rng, kind, noises):
    """One setting per file: names and order of the arguments stay the same."""
    from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise

    code_names = ["distance", "ec", "boundaries"] + rng.sample(["polarity", "backend"],
                                                              rng.randint(0, 2))
    rng.shuffle(code_names)
    noise = {"cv": CVLayer, "macro": CVMacroLayer, "iid": IidNoise}.get(kind, Scripted)
    names = {"cv": ["delta", "p_swap"], "macro": ["delta", "p_swap"] + rng.choice([[], ["bs_network"]]),
             "iid": ["error_probability"]}.get(kind) or [f"arg{k}" for k in range(rng.randint(0, 4))]
    extra = rng.choice([[], [], ["label"]])
    dec_names = rng.choice([["weight_opts"] + extra, extra + ["weight_opts"]])
    return code_names, noise, names, dec_names




def choose(rng, kind, code_names, names, dec_names):
    pick = {"distance": lambda: rng.choice([2, 3, (2, 3, 2), [2, 2, 3], np.array([2, 2, 2])]),
            "ec": lambda: rng.choice(["primal", "dual"]),
            "boundaries": lambda: rng.choice(["open", "toric", "periodic"]),
            "polarity": lambda: rng.choice([None, polarity]),
            "backend": lambda: rng.choice(["networkx", "rustworkx"]),
            "delta": lambda: rng.choice([0.05, 0.3, 1e-05]),
            "p_swap": lambda: rng.choice([0, 0.25, 1]),
            "bs_network": lambda: rng.choice([None, network()]),
            "error_probability": lambda: rng.choice([0, 0.1, 1])}
    code_args = {n: pick[n]() for n in code_names}
    noise_args = {n: pick[n]() if n in pick else rng.choice(VALUES)(rng) for n in names}
    decoder = rng.choice(["MWPM", "UF"])
    opts = rng.choice([{}, {"method": "uniform"}, {"method": "uniform", "integer": True},
                       None, {"method": "uniform", "multiplier": 3, "delta": 0.1},
                       {"method": "uniform", "delta": rng.choice(VALUES)(rng), "note": 'it\'s "so"'}])
    if kind == "macro" and decoder == "MWPM" and rng.random() < 0.5:
        # the default matching graph takes integer weights only
        opts = {"method": "blueprint", "prob_precomputed": True,
                "integer": code_args.get("backend") == "networkx"}
    dec_args = {n: opts if n == "weight_opts" else rng.choice(VALUES)(rng) for n in dec_names}
    return code_args, noise_args, decoder, dec_args


def network():
    from flamingpy.cv.ops import splitter_symp

    return splitter_symp()


def simulate(rng, case, path, kind, noise, code_args, noise_args, decoder, dec_args, pathtype):
    """One call of run_ec_simulation per rank; the event that describes it."""
    from flamingpy import simulations
    from flamingpy.codes import SurfaceCode

    trials = rng.choice([0, 1, 2, 4, 7])
    size = rng.choice([1, 1, 2, 3])
    mpi = size > 1 or rng.random() < 0.3
    apart = size > 1 and rng.random() < 0.5  # other ranks are given other files
    Scripted.fates, Scripted.log = [rng.random() < 0.5 for _ in range(7)], []
    cols = ["code", *code_args, "noise", *noise_args, "decoder", *dec_args, "errors", "trials",
            "current_time", "simulation_time", "mpi_size"]
    want = ["SurfaceCode", *code_args.values(), noise.__name__, *noise_args.values(), decoder,
            *dec_args.values()]
    fields = [chars(str(v)) for v in want]
    fields += [[-2], chars(str(trials)), [-1], [-2], chars(str(size))]
    ev = {"error": "", "before": content(path), "after": [-1], "others": 0,
          "columns": [chars(c) for c in cols], "fields": fields, "size": size}
    ins = {n: dict(d) for n, d in (("c", code_args), ("n", noise_args), ("d", dec_args))}

    def one(rank, _comm=None):
        target = pathtype(path if not (apart and rank) else f"{path}.rank{rank}")
        if case["default"]:
            target = None
        simulations.run_ec_simulation(trials, SurfaceCode, ins["c"], noise, ins["n"], decoder,
                                      ins["d"], **({} if target is None else {"fname": target}))

    def go(_):
        if mpi:
            world = World(size, rng.sample(range(size), size), rng.random() < 0.5)
            with installed(world):
                world.run(one)
        else:
            one(0)
        return {}

    ev.update(guarded(go, None, 120))
    ev.pop("tb", None)
    if kind == "script":
        fields[-5] = chars(str(sum(Scripted.log)))
    ev["after"] = content(path)
    ev["others"] = sum(os.path.exists(f"{path}.rank{r}") for r in range(1, size))
    return ev


def drive(case):
    rng = random.Random(case["seed"])
    scratch = tempfile.mkdtemp(prefix="c20-")
    here = os.getcwd()
    out = {"events": []}
    try:
        os.chdir(scratch)
        os.makedirs("flamingpy/.sims_data")
        path = os.path.join(scratch, "flamingpy/.sims_data/sims_results.csv"
                            if case["default"] else "results.csv")
        kind = case["kind"]
        setup = arguments(rng, kind, None)
        for step in range(case["runs"]):
            code_names, noise, names, dec_names = setup
            if case.get("mixed") == "noise" and step:
                kind = "iid"
                noise, names = arguments(rng, kind, None)[1:3]
            if case.get("mixed") == "order" and step:
                code_names = code_names[::-1]
            args = choose(rng, kind, code_names, names, dec_names)
            out["events"].append(simulate(
                rng, case, path, kind, noise, *args, pathtype=rng.choice([str, pathlib.Path])))
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    q = chk.quick
    for a in ((2, 2, 1), (1, 2, 2)) if q else ((3, 2, 1), (1, 2, 3), (2, 1, 3)):
        chk.model("ResultsModel", CFG % (*a, "FALSE"), workers=8, timeout=3000,
                  label=f"all fields: length {a[0]}, {a[1]} columns, {a[2]} runs")
    r = chk.model("ResultsModel", CFG % (1, 1, 1, "TRUE"), expect_violation=True,
                  label="fields written as they are (refuted)")
    assert r.violated
    cases = []
    for k in range(24 if q else 200):
        kind = ("script", "script", "cv", "script", "macro", "iid")[k % 6]
        cases.append({"id": f"{kind} {k}", "kind": kind, "runs": 4 if q else 6,
                      "default": k % 8 == 7, "seed": rng.random()})
    cases += [{"id": f"mixed {m}", "kind": "cv", "runs": 2, "default": False, "mixed": m,
               "seed": m} for m in ("noise", "order")]
    res = pmap(drive, cases, seconds=600, chunk=1)
    traces = [{"id": c["id"], **r} for c, r in zip(cases, res)]
    chk.extra["simulations"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("ResultsTrace", traces, timeout=3000)
    chk.assumptions += ["a file that exists ends with a line break",
                        "weight options are the documented ones"]
