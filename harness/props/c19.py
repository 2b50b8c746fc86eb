"""C19: Monte Carlo counts the failed trials, each run once, across any number of ranks."""

import itertools as it
import random

import numpy as np

from harness import codes
from harness.core import as_int, guarded, pmap
from harness.decode import Session, line, plane_axes
from harness.ranks import World, installed

CFG = """SPECIFICATION Spec
INVARIANTS Once Shares Partition Counted
PROPERTY Ends
CONSTANTS
  MaxT = %d
  MaxR = %d
  Eager = TRUE
CHECK_DEADLOCK FALSE
"""
KINDS = ["clean", "logical", "pair", "swap", "round", "hom"]
SETTINGS = [("UF", {}, "plain"), ("UF", {"method": "uniform"}, "plain"), ("UF", None, "plain"),
            ("MWPM", None, "plain"), ("MWPM", {"method": "uniform"}, "plain"),
            ("MWPM", {"method": "blueprint", "prob_precomputed": True}, "pre"),
            ("MWPM", {"method": "blueprint", "prob_precomputed": True, "integer": True}, "pre"),
            ("MWPM", {"method": "blueprint", "prob_precomputed": True, "integer": True,
                      "multiplier": 2}, "pre"),
            ("MWPM", {"method": "blueprint", "prob_precomputed": True, "integer": True,
                      "multiplier": 10}, "pre"),
            ("MWPM", {"method": "blueprint", "delta": 0.05}, "hom"),
            ("MWPM", {"method": "blueprint", "delta": 0.05, "integer": True, "multiplier": 100},
             "hom")]


def setting(decoder, opts):
    opts = opts or {}
    return {"decoder": decoder, "method": opts.get("method", "uniform"),
            "integer": opts.get("integer", False), "mult": opts.get("multiplier", 1),
            "pre": opts.get("prob_precomputed", False)}


class Scene:
    """A code on which the scripted kinds of noise are set up."""

    def __init__(self, case, seed):
        s = Session({**case, "seed": seed})
        self.code, self.s = s.code, s
        axis = plane_axes(case["code"], case["ec"])[0]
        for _ in range(200):
            self.line = [s.qubits[k - 1] for k in line(s, axis, s.rng)]
            pairs = [self.lonely(self.line[k]) for k in (0, 2)]
            self.squeezed = self.choose(pairs)
            if self.squeezed:
                return
        raise RuntimeError("no line with room for swap-outs")

    def lonely(self, q):
        """Pairs of neighbours whose only common syndrome qubit is q."""
        g, syn = self.code.graph, set(self.s.qubits)
        return [(a, b) for a, b in it.combinations(sorted(g[q]), 2)
                if set(g[a]) & set(g[b]) & syn == {q}]

    def choose(self, pairs):
        g = self.code.graph
        ends = {self.line[0], self.line[2]}
        for p, q in it.product(*pairs):
            sq = set(p) | set(q)
            twice = {v for v in self.s.qubits if sum(w in sq for w in g[v]) > 1}
            if twice == ends:
                return sq
        return None

    def apply(self, kind):
        g = self.code.graph
        ends, mid = {self.line[0], self.line[2]}, self.line[1]
        ones = {"clean": set(), "logical": set(self.line)}.get(kind, ends)
        p_end, p_mid = {"pair": (0.4, 1e-6), "round": (np.exp(-1.4), np.exp(-2.6)),
                        "hom": (1e-6, 0.4)}.get(kind, (1e-6, 1e-6))
        hom = 0.95 * np.sqrt(np.pi) / 2 if kind == "hom" else 0.0
        for v, d in g.nodes(data=True):
            d["bit_val"] = int(v in ones)
            d["state"] = "p" if kind == "swap" and v in self.squeezed else "GKP"
            d["p_phase_cond"] = p_end if v in ends else p_mid if v == mid else 1e-6
            d["hom_val_p"] = hom if v in ends else 0.0


class Scripted:
    """A noise layer whose noise is one of the scripted kinds, drawn from the generator."""

    def __init__(self, scene, kinds):
        self.scene, self.kinds = scene, kinds
        self.log, self.draws = [], []

    def apply_noise(self, rng=None):
        draw = int(rng.integers(0, 2**30)) if rng is not None else 0
        self.draws.append(draw)
        kind = self.kinds[draw % len(self.kinds)]
        self.log.append(kind)
        self.scene.apply(kind)


class Listed(Scripted):
    """The kinds of noise are prescribed one by one, whichever rank asks."""

    def apply_noise(self, rng=None):
        self.draws.append(int(rng.integers(0, 2**30)) if rng is not None else 0)
        kind = self.kinds.pop(0) if self.kinds else "clean"
        self.log.append(kind)
        self.scene.apply(kind)


class Counting:
    """Many trials: every m-th of all ranks together leaves a logical error behind."""

    applied = failed = every = 0
    draws = None

    def __init__(self, code, ec):
        axis = plane_axes("open", ec)[0]
        par = 0 if ec == "primal" else 1
        self.g, qubits = code.graph, sorted(set(getattr(code, ec + "_syndrome_coords")))
        on = [v for v in qubits if v[axis] % 2 == par and all(v[i] % 2 == 1 - par for i in range(3) if i != axis)]
        rest = [i for i in range(3) if i != axis]
        self.line = [v for v in on if all(v[i] == on[0][i] for i in rest)]
        for _, d in self.g.nodes(data=True):
            d["bit_val"] = 0

    def apply_noise(self, rng=None):
        if Counting.draws is not None:
            Counting.draws.append("%x" % rng.integers(0, 2**62))
        bad = Counting.applied % Counting.every == 0
        Counting.applied += 1
        Counting.failed += bad
        for v in self.line:
            self.g.nodes[v]["bit_val"] = int(bad)


class Watched:
    """A real noise layer; what is on the code before each application is kept."""

    def __init__(self, s, layer):
        self.s, self.layer, self.left, self.count, self.noise = s, layer, [], 0, []

    def apply_noise(self, rng=None):
        if self.count:
            self.left.append(self.s.ones())
        self.count += 1
        if rng is None:
            self.layer.apply_noise()
        else:
            self.layer.apply_noise(rng)
        self.noise.append(self.s.ones())


def monte_carlo(trials, layers, codes_, decoder, opts, rng, mpi):
    """The error count at the root, and the ranks' layers have seen everything."""
    from flamingpy import simulations

    size = len(layers)
    args = {"weight_opts": opts}
    if not mpi:
        return as_int(simulations.ec_monte_carlo(trials, codes_[0], layers[0], decoder, args))
    order = rng.sample(range(size), size)
    world = World(size, order, eager=rng.random() < 0.5)
    with installed(world):
        out = world.run(lambda r, comm: simulations.ec_monte_carlo(
            trials, codes_[r], layers[r], decoder, args, comm, r, size))
    return as_int(out[0])


def seeded(seed):
    """Fix the seed, if the module has one."""
    from flamingpy import simulations

    if hasattr(simulations, "int_time"):
        simulations.int_time = seed
        return True
    return False


def script(case):
    rng = random.Random(case["seed"])
    scenes = [Scene(case, rng.random()) for _ in range(case["maxsize"])]
    out = {"qubits": [], "events": []}
    for trials, size, mpi, kinds, (decoder, opts, _) in case["plan"]:
        ev = {"kind": "script", "trials": trials, "size": size, "error": "",
              "setting": setting(decoder, opts)}
        seed = rng.randrange(10**16)

        def go(_):
            res = {}
            for name in ("first", "again"):
                ok = seeded(seed)
                layers = [Scripted(sc, kinds) for sc in scenes[:size]]
                errors = monte_carlo(trials, layers, [sc.code for sc in scenes[:size]], decoder,
                                     opts, rng, mpi)
                res[name] = {"errors": errors, "ranks": [x.log for x in layers],
                             "streams": [x.draws for x in layers]}
                res["seeded"] = ok
            return res

        ev.update(guarded(go, None, 120))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def outcomes(case):
    """Every outcome of every trial, for the numbers of trials and ranks of the model."""
    rng = random.Random(case["seed"])
    scenes = [Scene(case, rng.random()) for _ in range(case["maxsize"])]
    out = {"qubits": [], "events": []}
    for trials, size in it.product(range(case["maxtrials"] + 1), range(1, case["maxsize"] + 1)):
        for fate in it.product(["clean", "logical"], repeat=trials):
            ev = {"kind": "script", "trials": trials, "size": size, "error": "",
                  "setting": setting("UF", {})}

            def go(_):
                queue = list(fate)
                layers = [Listed(sc, queue) for sc in scenes[:size]]
                errors = monte_carlo(trials, layers, [sc.code for sc in scenes[:size]], "UF", {},
                                     rng, size > 1 or rng.random() < 0.5)
                res = {"errors": errors, "ranks": [x.log for x in layers],
                       "streams": [x.draws for x in layers]}
                return {"first": res, "again": res, "seeded": False}

            ev.update(guarded(go, None, 120))
            ev.pop("tb", None)
            out["events"].append(ev)
    return out


def long(case):
    """Many trials; only how many there were and failed is kept."""
    rng = random.Random(case["seed"])
    out = {"qubits": [], "events": []}
    for trials, size, every, decoder in case["plan"]:
        ev = {"kind": "long", "trials": trials, "size": size, "error": ""}

        def go(_):
            Counting.applied, Counting.failed, Counting.every = 0, 0, every
            Counting.draws = [] if size > 4 else None
            cs = [codes.build(case["dims"], case["code"], case["ec"]) for _ in range(size)]
            layers = [Counting(c, case["ec"]) for c in cs]
            errors = monte_carlo(trials, layers, cs, decoder, {}, rng, size > 1)
            return {"errors": errors, "applied": Counting.applied, "failed": Counting.failed,
                    "draws": Counting.draws or []}

        ev.update(guarded(go, None, 400))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def real(case):
    from flamingpy.noise import CVLayer, CVMacroLayer, IidNoise

    rng = random.Random(case["seed"])
    out = {"qubits": None, "events": []}
    for trials, size, mpi, decoder, opts in case["plan"]:
        ev = {"kind": "real", "trials": trials, "size": size, "error": "",
              "noise": case["noise"], "setting": setting(decoder, opts)}
        seed = rng.randrange(10**16)
        p = rng.choice([0.02, 0.1, 0.3])
        delta, swap = rng.choice([0.05, 0.12, 0.3]), rng.choice([0, 0.2, 0.5])

        def go(_):
            res = {}
            for name in ("noise", "noise2"):
                ok = seeded(seed)
                sessions = [Session({**case, "seed": 1}) for _ in range(size)]
                out["qubits"] = sessions[0].out["qubits"]
                layers = []
                for s in sessions:
                    layer = {"iid": lambda c: IidNoise(c, p),
                             "cv": lambda c: CVLayer(c, delta=delta, p_swap=swap),
                             "macro": lambda c: CVMacroLayer(c, delta=delta, p_swap=swap),
                             }[case["noise"]](s.code)
                    layers.append(Watched(s, layer))
                errors = monte_carlo(trials, layers, [s.code for s in sessions], decoder, opts,
                                     rng, mpi)
                left = []
                for w in layers:
                    if w.count:
                        w.left.append(w.s.ones())
                    left += w.left
                res.update(left=left, errors=errors, seeded=ok)
                res[name] = [w.noise for w in layers]
            # (which of several lightest corrections is found may depend on memory addresses)
            return res

        ev.update(guarded(go, None, 300))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def drive(case):
    return {"script": script, "long": long, "outcomes": outcomes, "real": real}[case["kind"]](case)


def run(chk):
    rng = random.Random(chk.seed)
    q = chk.quick
    chk.model("MonteCarloModel", CFG % ((3, 3) if q else (5, 3)), workers=8, timeout=3000,
              label="interleavings of ranks")
    cases = []
    for code, ec in codes.KINDS:
        axis = plane_axes(code, ec)[0]
        for k in range(1 if q else 6):
            dims = [rng.randint(3, 4) for _ in range(3)]
            dims[axis] = 3
            plan = []
            backend = ("rustworkx", "networkx")[k % 2]
            for s in SETTINGS:
                if backend == "networkx" and not setting(*s[:2])["integer"] and "blue" in str(s):
                    continue  # the default matching graph takes integer weights only
                for kinds in (KINDS, rng.sample(KINDS, 2), rng.sample(KINDS, 3)):
                    size = rng.choice([1, 1, 2, 3, 4])
                    plan.append((rng.choice([0, 1, 2, 5, 9, 12]), size,
                                 size > 1 or rng.random() < 0.4, kinds, s))
            cases.append({"id": f"script {codes.label(dims, code, ec)} {k}", "kind": "script",
                          "dims": dims, "code": code, "ec": ec, "maxsize": 4, "plan": plan,
                          "backend": backend})
    for code, ec in (("open", "primal"), ("toric", "dual")) if q else codes.KINDS:
        cases.append({"id": f"outcomes {code}/{ec}", "kind": "outcomes", "dims": [3, 3, 3],
                      "code": code, "ec": ec, "maxsize": 3 if q else 4,
                      "maxtrials": 4 if q else 6, "backend": "rustworkx"})
    few = [(rng.randint(129, 300), 1), (rng.randint(2049, 2100), 2), (rng.randint(257, 700), 3)]
    many = [(33000, 1)] if q else [(33000, 2), (66000, 3), (150001, 1)]
    for ec in ("primal", "dual"):
        plan = [(trials, size, rng.choice([1, 3, 50, 10**9]), rng.choice(["MWPM", "UF"]))
                for trials, size in few]
        plan += [(trials, size, every, "MWPM") for (trials, size), every in zip(many, (7, 1, 1000))]
        plan += [(rng.randint(size - 2, 3 * size), size, rng.choice([1, 3, 10**9]), "UF")
                 for size in ((rng.randint(9, 40), rng.choice([64, 65, 100])) if q else
                              (rng.randint(5, 20), rng.randint(20, 60), 100, 256, 300))]
        cases.append({"id": f"many trials {ec}", "kind": "long", "dims": [2, 2, 2], "code": "open",
                      "ec": ec, "plan": plan})
    for noise in ("iid", "cv", "macro"):
        for code, ec in rng.sample(codes.KINDS, 3) if q else codes.KINDS:
            dims = [rng.randint(2, 3) for _ in range(3)]
            plan = []
            for _ in range(3 if q else 8):
                opts = [("UF", {}), ("MWPM", {})]
                if noise != "iid":
                    opts += [("MWPM", {"method": "blueprint", "integer": rng.random() < 0.5,
                                       "multiplier": 100, "prob_precomputed": noise == "macro",
                                       "delta": 0.1})] * 2
                size = rng.choice([1, 2, 3])
                plan.append((rng.choice([1, 4, 7]), size, size > 1, *rng.choice(opts)))
            cases.append({"id": f"real {noise} {codes.label(dims, code, ec)}", "kind": "real",
                          "noise": noise, "dims": dims, "code": code, "ec": ec, "plan": plan,
                          "backend": "rustworkx"})
    for c in cases:
        c["seed"] = rng.random()
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{**{k: c[k] for k in ("id", "dims", "code", "ec")}, **r} for c, r in zip(cases, res)]
    chk.extra["simulations"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("MonteCarloTrace", traces, timeout=3000, cost=lambda t: len(t.get("events", [])))
    chk.assumptions += [
        "MPI is a stand-in: ranks run one at a time and exchange values at collective calls",
        "ranks leave a reduction as soon as MPI lets them, or not before all have entered it"]
