"""C26: the command line runs the simulation it asks for."""

import inspect
import os
import random
import runpy
import shutil
import subprocess
import sys
import tempfile

from harness.core import guarded, pmap
from harness.props.c20 import chars, content

CFG = """SPECIFICATION Spec
INVARIANTS Table Names Stable
CONSTANT Runs = %d
CHECK_DEADLOCK FALSE
"""
GOOD = ["MWPM", "mwpm", "Mwpm", "minimum weight perfect matching", "Minimum Weight Perfect Matching",
        "UF", "uf", "Uf", "unionfind", "UnionFind", "union-find", "Union-Find", "union find", "UNION FIND"]
BAD = ["", "MWP", "mwpm ", "minimum-weight perfect matching", "union_find", "U F", "ufo", "lemon"]
RESULTS = "flamingpy/.sims_data/sims_results.csv"


def script():
    from flamingpy import simulations

    return simulations.__file__


def settings(rng, names):
    """A well-formed command line with these names of arguments."""
    value = {"distance": lambda: rng.choice([2, 3, (2, 3, 2), [2, 2, 3]]),
             "ec": lambda: rng.choice(["primal", "dual"]),
             "boundaries": lambda: rng.choice(["open", "toric", "periodic"]),
             "backend": lambda: rng.choice(["networkx", "rustworkx"]),
             "error_probability": lambda: rng.choice([0, 0.0, 1e-300, 0.3]),
             "delta": lambda: rng.choice([0.01, 0.3]),
             "p_swap": lambda: rng.choice([0, 0.5, 1])}
    make = lambda which: {n: value[n]() for n in names[which]}
    line = {"code": "SurfaceCode", "code_args": make("code"), "noise": names["model"],
            "noise_args": make("noise"), "decoder": rng.choice(GOOD), "trials": rng.choice([1, 2, 5])}
    opts = rng.choice([{}, {"method": "uniform"}, {"method": "uniform", "integer": True,
                                                   "multiplier": rng.randint(1, 9)}, None])
    line["decoder_args"] = {"weight_opts": opts}
    return line


ARGS = ("code_args", "noise_args", "decoder_args")


def illiteral(value, form):
    """A text that is not a literal, most of which evaluate to this dictionary."""
    pairs = ", ".join(f"{k}={v!r}" for k, v in value.items())
    return [f"dict({pairs})", repr(value)[:-1], "", "{**" + repr(value) + "}",
            f"(lambda: {value!r})()", "{k: v for k, v in " + repr(list(value.items())) + "}",
            f"{value!r} or 1", f"[{value!r}][0]", f"(x := {value!r})", f"eval({repr(value)!r})",
            f"__import__('copy').copy({value!r})"][form]


def spoil(rng, line, texts, without=None):
    """Make the command line one to be refused; its description."""
    facts = {"known": True, "literal": True}
    if isinstance(without, int):
        which, form = ARGS[without % 3], without // 3
        texts[which] = illiteral(line[which], form)
        facts["literal"] = False
        return facts
    if without:
        del texts[without]
        return facts
    kind = rng.choice(["decoder", "decoder", "missing", "missing", "code", "noise", "literal",
                       "literal", "literal", "trials"])
    if kind == "decoder":
        texts["decoder"] = rng.choice(BAD)
    elif kind == "missing":
        del texts[rng.choice(sorted(texts))]
    elif kind in ("code", "noise"):
        texts[kind] = rng.choice(["NoSuchThing", "surfacecode", "iidnoise", ""])
        facts["known"] = False
    elif kind == "trials":
        texts["trials"] = rng.choice(["many", "1.5", ""])
        facts["literal"] = False
    else:
        which = rng.choice(ARGS)
        texts[which] = illiteral(line[which], rng.randrange(11))
        facts["literal"] = False
    return facts


class Watch:
    """Looks on while a script runs in this process."""

    def __init__(self, fates):
        self.fates, self.calls, self.noises = fates, [], []

    def __enter__(self):
        from flamingpy.decoders import decoder
        from flamingpy import noise

        self.module, self.correct = decoder, decoder.correct
        self.classes = {c: c.apply_noise for c in (noise.IidNoise, noise.CVLayer)}
        sig = inspect.signature(self.correct)
        watch = self

        def correct(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            watch.calls.append((b.arguments["decoder"], b.arguments["weight_options"],
                                b.arguments["code"]))
            watch.correct(*a, **kw)
            return not watch.fates[(len(watch.calls) - 1) % len(watch.fates)]

        def apply_noise(real):
            def wrapped(obj, *a, **kw):
                watch.noises.append(obj)
                return real(obj, *a, **kw)
            return wrapped

        decoder.correct = correct
        for c, real in self.classes.items():
            c.apply_noise = apply_noise(real)
        return self

    def __exit__(self, *_):
        self.module.correct = self.correct
        for c, real in self.classes.items():
            c.apply_noise = real

    def as_asked(self, line):
        from flamingpy.codes import SurfaceCode

        want = SurfaceCode(**line["code_args"])
        ok = len(self.noises) == len(self.calls)
        for _, opts, code in self.calls:
            ok = ok and (opts or {}) == (line["decoder_args"]["weight_opts"] or {})
            ok = ok and set(code.graph.nodes) == set(want.graph.nodes)
            ok = ok and list(code.ec) == list(want.ec) and code.bound_str == want.bound_str
            stab = lambda c: getattr(c, c.ec[0] + "_stab_graph")
            ok = ok and type(stab(code)) is type(stab(want))
        for obj in self.noises:
            ok = ok and type(obj).__name__ == line["noise"]
            for k, v in line["noise_args"].items():
                seen = [x for n, x in vars(obj).items() if n.strip("_") == k]
                ok = ok and (not seen or seen[0] == v)
        return bool(ok)


def drive(case):
    rng = random.Random(case["seed"])
    scratch = tempfile.mkdtemp(prefix="c26-")
    here, argv = os.getcwd(), sys.argv
    out = {"events": []}
    model = rng.choice(["IidNoise", "IidNoise", "CVLayer"])
    names = {"model": model,
             "code": rng.sample(["distance", "ec", "boundaries"] + ["backend"] * rng.randint(0, 1),
                                3 + 0) if rng.random() < 0.3 else
             rng.sample(["distance", "ec", "boundaries"], 3),
             "noise": ["error_probability"] if model == "IidNoise" else
             rng.sample(["delta", "p_swap"], 2)}
    if "distance" not in names["code"]:
        names["code"].append("distance")
    try:
        os.chdir(scratch)
        os.makedirs(os.path.dirname(RESULTS))
        path = os.path.join(scratch, RESULTS)
        for _ in range(case["runs"]):
            line = settings(rng, names)
            outside = case["outside"]
            if outside and model == "IidNoise":
                line["noise_args"]["error_probability"] = 0
            texts = {k: v if isinstance(v, str) else repr(v) for k, v in line.items()}
            asked = dict(texts)
            facts = {"known": True, "literal": True}
            without = case["without"].pop() if case["without"] else None
            if without is not None or rng.random() < 0.45:
                facts = spoil(rng, line, texts, without)
            words = []
            for k in rng.sample(sorted(texts), len(texts)):
                words += [f"-{k}={texts[k]}"] if rng.random() < 0.3 else [f"-{k}", texts[k]]
            if not words:
                continue
            fates = [rng.random() < 0.5 for _ in range(20)]
            cols = ["code", *line["code_args"], "noise", *line["noise_args"], "decoder", "weight_opts",
                    "errors", "trials", "current_time", "simulation_time", "mpi_size"]
            fields = [chars(line["code"]), *[chars(str(v)) for v in line["code_args"].values()],
                      chars(model), *[chars(str(v)) for v in line["noise_args"].values()], [-3],
                      chars(str(line["decoder_args"]["weight_opts"]))]
            if outside:
                failed = chars("0") if model == "IidNoise" else [-2]
            else:
                failed = chars(str(sum(fates[:line["trials"]])))
            fields += [failed, chars(asked["trials"]), [-1], [-2], chars("1")]
            ev = {"error": "", "before": content(path), "columns": [chars(c) for c in cols],
                  "fields": fields, "trials": line["trials"], "observed": not outside,
                  "line": {"parts": sorted(texts), "decoder": chars(texts.get("decoder", "")), **facts}}
            watch = Watch(fates)

            def go(_):
                # pylint: disable=cell-var-from-loop
                if outside:
                    p = subprocess.run([sys.executable, "-W", "ignore", script(), *words], check=False,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100)
                    return {"refused": p.returncode != 0}
                sys.argv = [script(), *words]
                err, sys.stderr = sys.stderr, open(os.devnull, "w")
                try:
                    with watch:
                        runpy.run_path(script(), run_name="__main__")
                except (Exception, SystemExit):  # pylint: disable=broad-except
                    return {"refused": True}
                finally:
                    sys.stderr.close()
                    sys.stderr = err
                return {"refused": False}

            ev.update(guarded(go, None, 120))
            ev.pop("tb", None)
            ev["after"] = content(path)
            ev["calls"] = len(watch.calls)
            ev["used"] = [chars(str(c[0])) for c in watch.calls]
            same = guarded(lambda _: {"ok": watch.as_asked(line)}, None, 60)  # pylint: disable=cell-var-from-loop
            ev["same"] = bool(same.get("ok"))
            out["events"].append(ev)
    finally:
        sys.argv = argv
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    q = chk.quick
    chk.model("CliModel", CFG % (3 if q else 5), workers=4, timeout=1200, label="sequences of command lines")
    cases = [{"id": f"{'process' if k % 4 == 3 else 'script'} {k}", "outside": k % 4 == 3,
              "runs": 3 if k % 4 == 3 else (8 if q else 20), "seed": rng.random()}
             for k in range(32 if q else 160)]
    parts = ["code", "code_args", "noise", "noise_args", "decoder", "decoder_args", "trials"]
    for k, c in enumerate(cases):  # every option is left out, in this process and outside
        c["without"] = [parts[k // 4 % 7]] if c["outside"] else rng.sample(parts, 2) if k % 2 else \
            [parts[k // 2 % 7]]
    forms = rng.sample(range(33), 33)
    for k, form in enumerate(forms):  # and every kind of text that is no literal takes each place
        cases[k % len(cases)]["without"].append(form)
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{"id": c["id"], **r} for c, r in zip(cases, res)]
    chk.extra["command_lines"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("CliTrace", traces, timeout=3000)
    chk.assumptions += ["the directory of the results file exists, as it does in the repository"]
