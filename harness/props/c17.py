"""C17: LC equivalence."""

import itertools as it
import random

import numpy as np

from harness.core import as_int, guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Certified Involution Isolated OnlyOrbit
CONSTANTS
  N = %d
  Converse = %s
CHECK_DEADLOCK FALSE
"""


ALGEBRA = """SPECIFICATION Spec
INVARIANTS Ends Prefix Size
CONSTANTS
  Rows = %d
  Cols = %d
CHECK_DEADLOCK FALSE
"""


def pairs(n):
    return list(it.combinations(range(1, n + 1), 2))


def complement(g, v):
    nb = [x for e in g if v in e for x in e if x != v]
    return g ^ {tuple(sorted(p)) for p in it.combinations(nb, 2)}


def random_graph(rng, n):
    kind = rng.random()
    if kind < 0.3:  # several components, possibly isolated vertices
        part = [rng.randint(0, max(1, n // 3)) for _ in range(n)]
        return {e for e in pairs(n) if part[e[0] - 1] == part[e[1] - 1] and rng.random() < 0.7}
    p = rng.choice([0.2, 0.4, 0.6, 0.8])
    return {e for e in pairs(n) if rng.random() < p}


def egraph(rng, n, edges):
    """An EGraph whose i-th vertex in index order is vertex i."""
    from flamingpy.codes import EGraph

    g = EGraph()
    pts = set()
    while len(pts) < n:
        pts.add(tuple(rng.choice([rng.randint(-5, 5), rng.random()]) for _ in range(3)))
    pts = sorted(pts)
    mixed = list(pts)
    rng.shuffle(mixed)
    g.add_nodes_from(mixed)
    edges = list(edges)
    rng.shuffle(edges)
    plain_edges = rng.random() < 0.6  # otherwise of either polarity
    for a, b in edges:
        if rng.random() < 0.5:
            a, b = b, a
        kw = {} if plain_edges else {"weight": rng.choice([1, -1])}
        g.add_edge(pts[a - 1], pts[b - 1], **kw)
    return g


def shake(rng, g):
    """Put the graph's caches in any state."""
    for _ in range(rng.randint(0, 2)):
        # networkx has no sparse matrix without nodes
        rng.choice([lambda: g.adj_generator(sparse=bool(g.order())), lambda: g.adj_generator(sparse=False),
                    g.index_generator])()


def facts(g):
    return (sorted(g.nodes), {frozenset(e) for e in g.edges})


def plain(m):
    return [[as_int(x) for x in row] for row in np.asarray(m).tolist()]


def compare(rng, n, ge, m, he, keep):
    from flamingpy.utils.linalg import are_lc_equivalent

    g = keep if rng.random() < 0.5 else egraph(rng, n, ge)
    h = egraph(rng, m, he)
    if n == m and ge == he and rng.random() < 0.5:
        h = g
    shake(rng, g)
    shake(rng, h)
    before = facts(g), facts(h)

    def ask(form):
        kw = {} if form == "tensor" and rng.random() < 0.5 else {"clifford_form": form}
        call = rng.choice([are_lc_equivalent, lambda a, b, **k: a.is_lc_equivalent(b, **k)])
        return call(g, h, **kw)

    got, tensor = ask("tensor")
    got2, glob = ask("global")
    res = {"got": bool(got), "got2": bool(got2),
           "boolean": all(isinstance(x, (bool, np.bool_)) for x in (got, got2)),
           "none": tensor is None and glob is None, "tensor": [], "global": [],
           "same": (facts(g), facts(h)) == before}
    if got and tensor is not None:
        res["tensor"] = [sum(plain(b), []) for b in tensor]
    if got2 and glob is not None:
        res["global"] = plain(glob)
    return res


def drive(case):
    rng = random.Random(case["seed"])
    n, ge = case["n"], {tuple(e) for e in case["g"]}
    out = {"events": []}
    keep = egraph(rng, n, ge)
    others = [(n, {tuple(e) for e in h}, None) for h in case["hs"]]
    for _ in range(case["walks"]):
        h, path = set(ge), []
        for _ in range(rng.randint(0, 2 * n)):
            v = rng.randint(1, n)
            h = complement(h, v)
            path.append(v)
        others.append((n, h, path))
    for _ in range(2):
        m = rng.choice([0, n + 1, n - 1, n + 3])
        others.append((max(0, m), {e for e in ge if max(e) <= m}, None))
    for m, h, path in others:
        ev = {"error": "", "n": m, "h": sorted(h), "path": path or [], "walked": path is not None}
        ev.update(guarded(lambda _: compare(rng, n, ge, m, h, keep), None, 60))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def algebra(case):
    """Row reductions and null spaces of binary matrices."""
    from flamingpy.utils.linalg import nullspace_basis, reduce_RREform_mod2

    rng = random.Random(case["seed"])
    out = {"events": []}
    for k in range(case["count"]):
        most = rng.choice([3, 8, case["top"]]) if k else 80
        rows, cols = [rng.randint(most // 2 if most == 80 else 1, most) for _ in range(2)]
        p = rng.choice([0.1, 0.3, 0.5, 0.8])
        kind = rng.random()
        m = np.array([[int(rng.random() < p) for _ in range(cols)] for _ in range(rows)])
        if kind < 0.25:  # of low rank
            half = m[: rng.randint(1, rows)]
            m = np.array([(half[rng.randrange(len(half))] + half[rng.randrange(len(half))]) % 2
                          for _ in range(rows)])
        elif kind < 0.4:  # a permutation
            m = np.eye(rows, dtype=int)[rng.sample(range(rows), rows)]
        rows, cols = m.shape
        upto = rng.choice([None, None, cols, rng.randint(0, cols)])
        ev = {"error": "", "cols": cols, "upto": cols if upto is None else upto,
              "m": [[j + 1 for j in range(cols) if row[j]] for row in m.tolist()]}

        def go(_):
            a = m.astype(rng.choice([int, int, "int8", "uint8", float]))
            r, p = reduce_RREform_mod2(a, **({} if upto is None else {"max_cols": upto}))
            null = nullspace_basis(a)
            binary = all(x in (0, 1) for y in (r, null) for x in np.asarray(y).flatten().tolist())
            return {"r": [[j + 1 for j, x in enumerate(row) if x] for row in plain(r)],
                    "p": as_int(p), "binary": binary, "same": bool((a == m).all()),
                    "null": [[j + 1 for j, x in enumerate(row) if x] for row in plain(null)]}

        ev.update(guarded(go, None, 30))
        ev.pop("tb", None)
        out["events"].append(ev)
    return out


def run(chk):
    rng = random.Random(chk.seed)
    for a in [(2, 4), (3, 3)] + ([] if chk.quick else [(3, 4), (4, 3), (2, 6)]):
        chk.model("Gf2Model", ALGEBRA % a, workers=4, label="%d x %d matrices" % a)
    chk.model("LCModel", CFG % (3, "TRUE"), label="3 vertices, with converse")
    chk.model("LCModel", CFG % (4, "FALSE"), label="4 vertices")
    if not chk.quick:
        chk.model("LCModel", CFG % (4, "TRUE"), workers=8, timeout=3000,
                  label="4 vertices, with converse")
        chk.model("LCModel", CFG % (5, "FALSE"), workers=8, timeout=3000, label="5 vertices")
    cases = []

    def add(n, g, hs, walks):
        cases.append({"id": f"{n} vertices {sorted(g)} #{len(cases)}", "n": n, "g": sorted(g),
                      "hs": [sorted(h) for h in hs], "walks": walks, "seed": rng.random()})

    for n in (1, 2, 3, 4):  # every pair
        every = [set(s) for k in range(len(pairs(n)) + 1) for s in it.combinations(pairs(n), k)]
        for g in every:
            add(n, g, every, 1)
    q = chk.quick
    for n, graphs, hs, walks in ((5, 40 if q else 300, 20 if q else 200, 8),
                                 (6, 24 if q else 150, 20 if q else 150, 8),
                                 (7, 16 if q else 80, 0, 8), (8, 16 if q else 80, 0, 8),
                                 (10, 8 if q else 60, 0, 6), (12, 6 if q else 40, 0, 6),
                                 (17, 3 if q else 12, 0, 3), (24, 2 if q else 8, 0, 2),
                                 (34, 1 if q else 4, 0, 1)):
        for _ in range(graphs):
            add(n, random_graph(rng, n), [random_graph(rng, n) for _ in range(hs)], walks)
    res = pmap(drive, cases, seconds=900, chunk=1)
    some = [{"id": f"algebra {k}", "n": 0, "g": [], "top": 16 + 8 * (k % 4), "seed": rng.random(),
             "count": 30 if q else 120} for k in range(8 if q else 32)]
    res += pmap(algebra, some, seconds=900, chunk=1)
    cases += some
    traces = [{**{k: v for k, v in c.items() if k not in ("seed", "hs")}, **r}
              for c, r in zip(cases, res)]
    chk.extra["comparisons"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("LCTrace", traces, cost=lambda t: 3000 if not t["n"] else 10 * t["n"] ** 3 if t["n"] in (5, 6) else
                 len(t.get("events", [])) * t["n"] ** 2 / 8, timeout=3000)
    chk.assumptions += ["non-equivalence judged up to 6 vertices; beyond, certificates and walks"]
