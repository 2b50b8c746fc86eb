"""C01: the RHG lattice."""

import itertools as it
import random

import numpy as np

from harness import codes
from harness.core import as_int, pmap, pt

BT = ("primal", "dual", "periodic")
NAMED = {
    "open_primal": ["primal", "dual", "primal"],
    "open_dual": ["primal", "dual", "dual"],
    "primal": ["primal"] * 3,
    "dual": ["dual"] * 3,
    "periodic": ["periodic"] * 3,
    "periodic_primal": ["periodic", "periodic", "primal"],
    "periodic_dual": ["periodic", "periodic", "dual"],
}


def sym_polarity(edge):
    (a, b, c), (d, e, f) = edge
    return ((a + d + 2 * (b + e) + 3 * (c + f)) % 5) - 2


def half_polarity(edge):
    return sym_polarity(edge) / 2


def dump(graph, scale=1):
    nodes = [{"p": pt(p), "type": str(d.get("type"))} for p, d in graph.nodes(data=True)]
    edges = [
        {
            "p": pt(p),
            "q": pt(q),
            "w": as_int(scale * d["weight"], "edge weight"),
            "periodic": bool(d.get("periodic", False)),
        }
        for p, q, d in graph.edges(data=True)
    ]
    return nodes, edges


def build(case):
    from flamingpy.codes import SurfaceCode, alternating_polarity
    from flamingpy.codes.surface_code import RHG_graph

    pol = {"none": None, "alternating": alternating_polarity, "symmetric": sym_polarity}[
        case["polarity"]
    ]
    scale = 1
    if pol is sym_polarity and len(case["id"]) % 2:
        pol, scale = half_polarity, 2  # weights that are no integers
    out = {k: v for k, v in case.items() if k not in ("arg_dims", "arg_bounds")}
    dims = case["dims"]
    arg = {
        "int": lambda: dims[0],
        "tuple": lambda: tuple(dims),
        "list": lambda: list(dims),
        "array": lambda: np.array(dims),
        "npint": lambda: np.int64(dims[0]),
    }[case["arg_dims"]]()
    if "code" in case:
        code = SurfaceCode(
            arg, ec=case["ec"], boundaries=case["code"], polarity=pol, backend=case["backend"]
        )
        out["got_dims"] = [as_int(x) for x in code.dims]
        out["got_bounds"] = [str(b) for b in code.boundaries]
        out["got_ec"] = list(code.ec)
        graph = code.graph
        if case["twin"]:
            codes.spoil_graph(graph)
            graph = SurfaceCode(arg, ec=case["ec"], boundaries=case["code"], polarity=pol,
                                backend=case["backend"]).graph
    else:
        b = case["bounds"]
        argb = {
            "name": lambda: case["name"],
            "list": lambda: list(b),
            "tuple": lambda: tuple(b),
            "array": lambda: np.array(b),
        }[case["arg_bounds"]]()
        graph = RHG_graph(arg, boundaries=argb, polarity=pol)
        if case["twin"]:
            codes.spoil_graph(graph)
            graph = RHG_graph(arg, boundaries=argb, polarity=pol)
    out["nodes"], out["edges"] = dump(graph, scale)
    rng = random.Random(repr(case))
    out["slices"] = []
    for _ in range(3):
        axis = rng.randint(0, 2)
        number = rng.choice([0, 1, 2 * dims[axis] - 1, 2 * dims[axis], rng.randint(0, 2 * dims[axis])])
        for _ in range(2):
            got = graph.slice_coords("xyz"[axis], number)
            out["slices"].append({"axis": axis + 1, "number": number, "coords": [pt(p) for p in got]})
            if isinstance(got, list):  # the list is the caller's
                got.append((9, 9, 9))
                got.reverse()
    return out


def request(case):
    """Good and bad requests for codes and lattices."""
    from flamingpy.codes import SurfaceCode
    from flamingpy.codes.surface_code import RHG_graph

    rng = random.Random(case["seed"])
    out = {"id": case["id"], "requests": []}
    for _ in range(case["n"]):
        what = rng.choice(["code", "lattice"])
        n = rng.choice([1, 1, 3, 3, 3, 2, 4, 0])
        sizes = [rng.randint(2, 3) for _ in range(n)]
        arg = sizes[0] if n == 1 else rng.choice([tuple, list, np.array])(sizes)
        if n == 0 and rng.random() < 0.6:  # no sizes at all
            arg = rng.choice([None, 2.5, "3", "234", {2: 3}, {2, 3, 4}, b"333", object(), 3 + 0j])
        r = {"what": what, "sizes": sizes, "ec": "primal", "backend": "networkx"}
        if what == "code":
            r["ec"] = rng.choice(["primal", "dual", "primal", "dual", "both", "Primal", "", "open"])
            r["bounds"] = [rng.choice(["open", "toric", "periodic"] * 2 + ["open_primal", "closed", "Open"])]
            r["backend"] = rng.choice(["networkx", "rustworkx"] * 3 + ["retworkx", "lemon", ""])
            call = lambda: SurfaceCode(arg, ec=r["ec"], boundaries=r["bounds"][0], backend=r["backend"])
        else:
            k = rng.choice([1, 1, 3, 3, 2, 4])
            names = list(BT) * 3 + ["open", "toric"] + (list(NAMED) if k == 1 else [""])
            r["bounds"] = [rng.choice(names) for _ in range(k)]
            b = r["bounds"][0] if k == 1 else rng.choice([tuple, list, np.array])(r["bounds"])
            call = lambda: RHG_graph(arg, boundaries=b)
        try:
            call()
            r["refused"] = False
        except Exception:  # pylint: disable=broad-except
            r["refused"] = True
        out["requests"].append(r)
    return out


def cases(chk):
    rng = random.Random(chk.seed)
    top = 4 if chk.quick else 6
    shapes = [(d, d, d) for d in range(2, top + 1)]
    rect = [s for s in it.product(range(2, top + 1), repeat=3) if len(set(s)) > 1]
    pols = ("none", "alternating", "symmetric")
    res = []
    n = 0

    def add(**kw):
        nonlocal n
        n += 1
        dims = kw["dims"]
        label = kw.get("code", "x".join(x[:4] for x in kw.get("bounds", [])))
        kw["id"] = f"{label}/{kw.get('ec', '')}/{'x'.join(map(str, dims))}/{kw['polarity']}/" + (
            kw["arg_dims"] + "/" + kw.get("arg_bounds", kw.get("backend", ""))
        )
        kw["dims"] = list(dims)
        kw["twin"] = n % 4 == 0
        res.append(kw)

    for name in ("open", "toric", "periodic"):
        for ec in ("primal", "dual"):
            long = codes.long_shapes(rng, 3 if chk.quick else 12)
            big = [(5, 5, 5)] if chk.quick else [(6, 7, 8)]
            big.append(codes.thin_shape(rng))
            for s in shapes + long + big + rng.sample(rect, 6 if chk.quick else 40):
                cube = len(set(s)) == 1
                add(
                    code=name, ec=ec, dims=s, polarity=rng.choice(pols),
                    arg_dims=rng.choice(["int", "npint"] if cube else ["tuple", "list", "array"]),
                    backend=rng.choice(["networkx", "rustworkx"]),
                )
    # Every combination of boundary types on its own lattice.
    for b in it.product(BT, repeat=3):
        long = codes.long_shapes(rng, 3 if chk.quick else 12)
        for s in [(2, 2, 2), (3, 3, 3)] + long + rng.sample(rect, 2 if chk.quick else 12):
            if any(x == "dual" or x == "primal" for x in b) and min(s) < 2:
                continue
            name = next((k for k, v in NAMED.items() if v == list(b)), None)
            kinds = ["array", "list", "tuple"] + (["name"] * 3 if name else [])
            cube = len(set(s)) == 1
            add(
                bounds=list(b), dims=s, polarity=rng.choice(pols), name=name or "",
                arg_dims=rng.choice(["int", "tuple"] if cube else ["tuple", "list", "array"]),
                arg_bounds=rng.choice(kinds),
            )
    return res


def run(chk):
    traces = []
    cs = cases(chk)
    for c, r in zip(cs, pmap(build, cs, seconds=120)):
        if "error" in r:
            r = {**{k: v for k, v in c.items()}, "error": r["error"]}
        traces.append(r)
    chk.extra["constructions"] = len(traces)
    asks = [{"id": f"requests {k}", "seed": f"{chk.seed}/{k}", "n": 100} for k in range(8 if chk.quick else 40)]
    for c, r in zip(asks, pmap(request, asks, seconds=120)):
        traces.append(r if "error" not in r else {"id": c["id"], "error": r["error"]})
    chk.validate("LatticeTrace", traces, cost=lambda t: len(t.get("edges", [])) + 50)
    chk.assumptions += ["dimensions of at least 2 in every direction"]
