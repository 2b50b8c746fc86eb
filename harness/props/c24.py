"""C24: CZ gates, four-splitters and permutations of the quadratures."""

import random

import numpy as np
import scipy.sparse as sp

from harness.core import as_int, guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Symplectic Rigid Commute Undo
CONSTANTS
  N = %d
  Depth = %d
CHECK_DEADLOCK FALSE
"""
FORMS = [np.array, sp.csr_array, sp.csr_matrix, sp.csc_array]


def edges_for(rng, n):
    left = {i: 3 for i in range(n)}
    res = {}
    for _ in range(rng.randint(0, 2 * n)):
        a, b = rng.sample(range(n), 2) if n > 1 else (0, 0)
        if a != b and left[a] and left[b] and (a, b) not in res and (b, a) not in res:
            res[a, b] = rng.choice([-2, -1, 1, 2, 2])
            left[a] -= 1
            left[b] -= 1
    return [[a, b, w] for (a, b), w in sorted(res.items())]


def integral(y, s):
    return [as_int(float(v) * 2**s, lim=2**53) for v in np.asarray(y).tolist()]


def limbs(v):
    """v = 2**24 hi + lo; gates are linear, so each half goes through them by itself."""
    hi = (v + 2**23) // 2**24
    return hi, v - 2**24 * hi


def half(out, k):
    return {"x": [limbs(v)[k] for v in out["x"]],
            "events": [{**e, "xs": [[limbs(v)[k] for v in xs] for xs in e["xs"]]} for e in out["events"]]}


def by_weight(out, k, n):
    """One CZ event with weights of two limbs: p gains each of them times q."""
    ev = out["events"][0]
    if ev["error"]:
        return out
    edges = [[a, b, limbs(w)[k]] for a, b, w in ev["edges"]]
    xs = [y[:n] + [limbs(v)[k] for v in y[n:]] for y in ev["xs"]]
    return {"x": out["x"][:n] + [limbs(v)[k] for v in out["x"][n:]],
            "events": [{**ev, "edges": edges, "xs": xs}]}


def drive(case):
    from flamingpy.cv.ops import SCZ_apply, SCZ_mat, invert_permutation, splitter_symp

    rng = random.Random(case["seed"])
    n, s = case["n"], 0
    x = np.array([rng.randint(-9, 9) + 2**24 * rng.randint(-9, 9) * case["wide"] for _ in range(2 * n)])
    if rng.random() < 0.5:
        x = x.astype(float)
    out = {"x": integral(x, 0), "events": []}
    for _ in range(1 if case["fine"] else rng.randint(1, 5)):
        kind = "cz" if case["fine"] else rng.choice(["cz", "cz", "perm"] + ["split"] * 3 * (n % 4 == 0) + ["refuse"] * (n < 4))
        ev = {"kind": kind, "error": "", "raised": False}
        given = x.copy()

        def cz(_):
            # pylint: disable=cell-var-from-loop
            adj = np.zeros((n, n))
            ev["edges"] = edges_for(rng, n)
            if case["fine"]:
                ev["edges"] = [[a, b, w + 2**25 * rng.randint(-9, 9)] for a, b, w in ev["edges"]]
            for a, b, w in ev["edges"]:
                adj[a, b] = adj[b, a] = w / 2
            if not (adj % 1).any() and rng.random() < 0.5:
                adj = adj.astype(int)
            ys = []
            for form in FORMS:
                a = form(adj)
                if rng.random() < 0.3:  # the same object, with other weights before
                    a *= 2
                    SCZ_apply(a, given, one_shot=rng.random() < 0.5)
                    if isinstance(a, np.ndarray):
                        a[:] = adj
                    else:
                        a.data[:] = a.data // 2 if a.dtype.kind == "i" else a.data / 2
                ys += [SCZ_apply(a, given, one_shot=o) for o in (True, False)]
                ys += [SCZ_apply(a, given)]
                ys += [SCZ_mat(a, sparse=o) @ given for o in (True, False)]
                # as the diagonal block of a two-dimensional array: S M S^T with M = v w^T
                w = np.array([rng.randint(-2, 2) for _ in range(2 * n)])
                one = rng.randrange(n if case["fine"] else 2 * n)
                w[one] = 1
                for o in (True, False):
                    m = SCZ_apply(a, np.outer(given, w), one_shot=o)
                    sw = np.asarray(SCZ_apply(a, w.astype(float)))
                    k = one if case["fine"] else int(np.argmax(np.abs(sw)))
                    ys.append(np.asarray(m)[:, k] / sw[k])
            return ys

        def perm(_):
            # pylint: disable=cell-var-from-loop
            p = rng.sample(range(n), n)
            full = np.array(p + [n + k for k in p])
            inv = invert_permutation(np.array(p))
            ev["perm"], ev["inv"] = p, [as_int(k) for k in inv]
            y = given[full]
            back = invert_permutation(full)
            assert sorted(np.asarray(back).tolist()) == list(range(2 * n)), "not a permutation"
            z = np.empty_like(given)
            z[back] = given
            return [y, z]

        def split(_):
            # pylint: disable=cell-var-from-loop
            mat = splitter_symp(n) if n > 4 or rng.random() < 0.5 else splitter_symp()
            mat = np.asarray(mat, dtype=float)
            assert mat.shape == (2 * n, 2 * n), "shape"
            mat = np.round(mat * 2, 5) / 2  # single precision
            if n == 4:
                return [mat @ given]
            order = np.array([k for i in range(n) for k in (i, n + i)])
            return [(mat @ given[order])[invert_permutation(order)]]

        def refuse(_):
            # pylint: disable=cell-var-from-loop
            try:
                splitter_symp(n)
            except Exception:  # pylint: disable=broad-except
                ev["raised"] = True
            return [given]

        def go(_):
            # pylint: disable=cell-var-from-loop
            ys = {"cz": cz, "perm": perm, "split": split, "refuse": refuse}[kind](None)
            return {"ys": ys}

        before = x.copy()
        got = guarded(go, None, 30)
        ys = got.get("ys", [])
        s += kind in ("cz", "split")
        ev["error"] = got.get("error", "")
        ev["xs"] = [integral(y, s) for y in ys]
        ev["same"] = bool((given == before).all() and given.dtype == before.dtype)
        out["events"].append(ev)
        if not ys:
            break
        x = np.array([v / 2**s for v in ev["xs"][0]])
        if not (x % 1).any() and rng.random() < 0.5:
            x = x.astype(int)
    return out


def large(case):
    from flamingpy.cv.ops import invert_permutation

    p = list(range(case["len"]))
    random.Random(case["seed"]).shuffle(p)
    ev = {"kind": "large", "perm": p, "inv": [], "xs": [], "same": True, "error": ""}

    def go(_):
        given = np.array(p)
        inv = invert_permutation(given)
        return {"inv": [as_int(k) for k in inv], "same": given.tolist() == p}

    ev.update(guarded(go, None, 60))
    ev.pop("tb", None)
    return {"id": case["id"], "n": 1, "x": [0, 0], "error": "", "events": [ev]}


def run(chk):
    rng = random.Random(chk.seed)
    chk.model("GatesModel", CFG % (4, 2), workers=4, label="circuits of two gates on four modes")
    if not chk.quick:
        chk.model("GatesModel", CFG % (4, 3), workers=8, timeout=3000, label="three gates")
    cases = []
    for n in (1, 2, 3, 4, 4, 5, 8, 8, 12, 16) + (() if chk.quick else (6, 7, 20, 24, 40)):
        cases += [{"id": f"{n} modes #{k}", "n": n, "seed": rng.random(), "wide": k % 4 == 2,
                   "fine": k % 4 == 3}
                  for k in range(16 if chk.quick else 100)]
    cases += [{"id": f"{n} modes #{k}", "n": n, "seed": rng.random(), "wide": False, "fine": False}
              for n in (132, 200) for k in range(2 if chk.quick else 8)]
    res = pmap(drive, cases, seconds=300)
    traces = []
    for c, r in zip(cases, res):
        halves = [r]
        if "events" in r and (c["wide"] or c["fine"]):
            halves = [by_weight(r, k, c["n"]) if c["fine"] else half(r, k) for k in (0, 1)]
        traces += [{"id": f"{c['id']} {part}", "n": c["n"], **h} for part, h in zip(("", "low"), halves)]
    big = [{"id": f"permutation of {k}", "len": k, "seed": rng.random()} for k in
           [130, 257, rng.randint(33000, 40000)] + ([] if chk.quick else [66000, 100000])]
    traces += [r if "id" in r else {"id": c["id"], "n": 1, "x": [0, 0], "events": [], **r}
               for c, r in zip(big, pmap(large, big, seconds=300))]
    chk.extra["gates_applied"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("GatesTrace", traces, timeout=3000)
    chk.assumptions += ["weights that are multiples of a half, whole initial quadratures",
                        "four-splitter entries compared after rounding single precision"]
