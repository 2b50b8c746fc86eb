"""C13: GKP binning and conditional phase error probabilities."""

import math
import random

import numpy as np

from harness.core import as_int, guarded, pmap

CFG = """SPECIFICATION Spec
INVARIANTS Unique Edge Periodic
PROPERTY Steps
CONSTANTS
  A = %d
  X = %d
CHECK_DEADLOCK FALSE
"""
NONE = -2_000_000_000
ROOT = math.sqrt(math.pi)


def nano(p):
    p = float(p)
    return round(p * 1e9) if -2 < p < 2 else (NONE if p != p else int(math.copysign(2e9, p)))


def flat(x):
    return np.ravel(np.asarray(x)).tolist()


def snap(rng):
    from flamingpy.cv.gkp import integer_fractional

    scale = rng.choice([1, 1, 0.5, 0.25, 2**-10, 8, 2.0**-30])
    a = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 16, 100, 101, rng.randint(1, 10**6)])
    n = rng.choice([1, 1, 2, 5, 12, 100]) if rng.random() < 0.97 else 2000
    xs = []
    for _ in range(n):
        m = rng.choice([rng.randint(-3, 3), rng.randint(-500, 500)])
        kind = rng.random()
        if kind < 0.3 and a % 2 == 0:
            xs.append(m * a + a // 2 + rng.choice([0, 0, 1, -1]))  # on and near an edge
        elif kind < 0.5:
            xs.append(m * a + rng.choice([0, 1, -1]))
        else:
            xs.append(rng.randint(-20 * a, 20 * a))
    xs = [max(-10**9, min(10**9, x)) for x in xs]
    ev = {"kind": "snap", "a": a, "x": xs, "error": ""}
    # the same, a whole number of bins further away (only where that is exact)
    far = [rng.choice([0, 1, -1]) * rng.randint(0, 2**45 // a) if a & (a - 1) == 0 and rng.random() < 0.5
           else 0 for _ in xs]
    shape = rng.choice(["scalar", "numpy scalar", "array", "array", "list", "matrix"])

    def go(_):
        vals = [(x + m * a) * scale for x, m in zip(xs, far)]
        if shape in ("scalar", "numpy scalar"):
            cast = float if shape == "scalar" else np.float64
            if scale == 1 and rng.random() < 0.5:
                cast = lambda v: v
            res = [integer_fractional(cast(v), a * scale) for v in vals]
            ns, fs = [r[0] for r in res], [r[1] for r in res]
            ok = all(np.ndim(v) == 0 for v in ns + fs)
        else:
            arg = list(vals) if shape == "list" else np.array(vals)
            if shape == "matrix":
                arg = arg.reshape((n // 2, 2) if n % 2 == 0 else (1, n))
            ns, fs = integer_fractional(arg, a * scale)
            ok = np.shape(ns) == np.shape(arg) == np.shape(fs)
            ns, fs = flat(ns), flat(fs)
        return {"n": [as_int(v - m) for v, m in zip(ns, far)], "f": [as_int(v / scale) for v in fs],
                "shape": bool(ok)}

    ev.update(guarded(go, None, 20))
    return ev


def binner(rng):
    from flamingpy.cv.gkp import GKP_binner

    n = rng.choice([0, 1, 2, 5, 40]) if rng.random() < 0.95 else rng.choice([1200, 3000])
    ms = [rng.choice([rng.randint(-3, 3), rng.randint(-2000, 2000), rng.randint(-10**6, 10**6)])
          for _ in range(n)]
    rs = [rng.choice([0, 499999, 500001, -499999, -500001, 250000, -250000,
                      rng.randint(-499999, 499999)]) for _ in range(n)]
    far = [0] * n
    if rng.random() < 0.3:  # an even number of bins further away, and no closer to an edge than rounding
        far = [2 * rng.randint(-2**31, 2**31) for _ in range(n)]
        rs = [max(-499000, min(499000, r)) for r in rs]
    ev = {"kind": "bin", "m": ms, "r": rs, "tol": 20 if any(far) else 2, "error": ""}

    def go(_):
        x = [(m + f + r / 1e6) * ROOT for m, f, r in zip(ms, far, rs)]
        kind = rng.choice(["array", "list", "scalar"])
        if kind == "scalar" and n <= 40:
            res = [GKP_binner(y, return_fraction=True) for y in x]
            bits, fr = [r[0] for r in res], [r[1] for r in res]
            only = [GKP_binner(y) for y in x]
            ok = all(np.ndim(b) == 0 for b in bits)
        else:
            arg = np.array(x) if kind == "array" else x
            bits, fr = GKP_binner(arg, return_fraction=True)
            only = GKP_binner(arg)
            ok = np.shape(bits) == np.shape(arg)
        bits, only = [as_int(b) for b in bits], [as_int(b) for b in only]
        return {"bit": bits, "frac": [round(f / ROOT * 1e6) for f in fr],
                "shape": bool(ok and bits == only)}

    ev.update(guarded(go, None, 20))
    return ev


def ask(rng, var, r, window):
    """Z_err_cond at distance r (millionths of a bin), asked in several ways."""
    from flamingpy.cv.gkp import Z_err_cond

    kw = {} if window == 10 else {"var_num": window}
    x = r / 1e6 * ROOT
    if rng.random() < 0.1:
        kw["replace_undefined"] = rng.choice([0, 0.5, "bin_location"])
    shifts = [0, rng.randint(-4, 4), rng.randint(-500, 500)]
    # exactly on an edge, rounding decides the bin but not the probability
    ys = [s * x + m * ROOT for m in shifts for s in (1, -1)]
    got = [Z_err_cond(var, x, **kw), Z_err_cond(np.float64(var), np.float64(-x), **kw)]
    got += flat(Z_err_cond(np.full(len(ys), var), np.array(ys), **kw))
    got += flat(Z_err_cond(var, np.array(ys), **kw))
    got += flat(Z_err_cond(np.array([var, var]), x, **kw))
    got += flat(Z_err_cond(np.array([var]), np.array([-x]), **kw))
    mixed = np.array([0.17, var, 0.4, var])
    res = flat(Z_err_cond(mixed, np.array([0.3, x, 0.1, -x]), **kw))
    got += [res[1], res[3]]
    got += flat(Z_err_cond(list([var] * 2), [x, x + ROOT], **kw))
    if var <= 1.5 and window >= 10:  # the whole outcome, within the window
        m = rng.randint(-4, 4)
        got.append(Z_err_cond(var, x + m * ROOT, use_hom_val=True, **kw))
        got += flat(Z_err_cond(np.full(2, var), np.array([m * ROOT - x, x]), use_hom_val=True, **kw))
    return got


def table(rng):
    window = rng.choice([10, 10, 10, 5, 20])
    top = {10: 80000, 5: 15000, 20: 200000}[window]
    # small variances only where the sums do not underflow: r^2 pi / v < 600
    vs = sorted(rng.sample([15, 20, 50, 100, 200, 500, 900, 1500, 2000, 3000, 5000, 8000, 12000,
                            15000, 25000, 40000, 45000, 50000, 60000, 80000, 150000], 9))
    vs = [v for v in vs if v <= top] + [rng.randint(15, top)]
    vs = sorted(set(vs))
    rs = [0, 500000] + [100 * rng.randint(1, 4999) for _ in range(5)] + [250000]
    rs = sorted(set(rs))
    ev = {"kind": "table", "v": vs, "r": rs, "error": ""}

    def go(_):
        p, lo, hi = [], [], []
        for v in vs:
            row, l, h = [], [], []
            for r in rs:
                got = ask(rng, v / 1e4, r, window)
                row.append([nano(y) for y in got])
                y = float(got[0])
                l.append(NONE if not (v <= 2000 and 200000 <= r and 0 < y < 1
                                     and math.pi * (1 - r / 1e6) ** 2 / (v / 1e4) < 650)
                         else round((math.log(y) - math.log1p(-y)) * v / 1e4 * 1e6))
                c = math.cos(math.pi * r / 1e6)
                h.append(NONE if not (40000 <= v <= 50000 and r <= 400000 and window >= 10
                                      and 0 < y < 0.5)
                         else round(-math.log((1 - 2 * y) / 2 / c) * 4e4 / v * 1e6))
            p.append(row)
            lo.append(l)
            hi.append(h)
        return {"p": p, "lo": lo, "hi": hi}

    ev.update(guarded(go, None, 60))
    return ev


def hole(rng):
    from flamingpy.cv.gkp import Z_err_cond

    n = rng.choice([2, 3, 6, 20])
    mode = rng.choice(["default", "value", "bin_location"])
    value = rng.choice([0.5, 0.25, 1, 0])
    kw = {"default": {}, "value": {"replace_undefined": value},
          "bin_location": {"replace_undefined": "bin_location"}}[mode]
    rs = [1000 * rng.randint(250, 499) * rng.choice([1, -1]) for _ in range(n)]
    under = [rng.random() < 0.5 for _ in range(n)]
    var = [1e-6 if u else 0.3 for u in under]
    ev = {"kind": "hole", "mode": mode, "value": round(value * 1e9), "r": rs, "under": under,
          "error": ""}

    def go(_):
        x = np.array([(r / 1e6 + rng.randint(-3, 3)) * ROOT for r in rs])
        return {"p": [nano(p) for p in flat(Z_err_cond(np.array(var), x, **kw))],
                "one": [nano(Z_err_cond(v, float(y), **kw)) for v, y in zip(var, x)]}

    ev.update(guarded(go, None, 20))
    return ev


def pairs(rng):
    """Array calls next to scalar ones: the relative difference in units of 1e-12."""
    from flamingpy.cv.gkp import Z_err_cond

    n = rng.choice([2, 3, 8, 30])
    kw = {"use_hom_val": True} if rng.random() < 0.4 else {}
    vs = [10 ** rng.uniform(-2, 0.2) for _ in range(n)]
    if rng.random() < 0.3:
        vs = vs[:1] * n
    xs = [rng.uniform(-1, 1) * rng.choice([1, 3, 0.1]) for _ in range(n)]
    ev = {"kind": "pairs", "error": ""}

    def go(_):
        var = vs[0] if len(set(vs)) == 1 and rng.random() < 0.5 else np.array(vs)
        many = [float(p) for p in flat(Z_err_cond(var, np.array(xs), **kw))]
        one = [float(Z_err_cond(v, x, **kw)) for v, x in zip(vs, xs)]
        ok = len(many) == len(one)
        return {"gap": [0 if a == b or max(a, b) < 1e-300 else
                        round(min(1e9, abs(a - b) / max(abs(a), abs(b)) * 1e12))
                        for a, b in zip(many, one)] if ok else [10**9]}

    ev.update(guarded(go, None, 20))
    return ev


def mean(rng):
    # the sum in the specification converges from 0.32 on
    vs = sorted(rng.uniform(0.35, rng.choice([1, 2, 4, 8])) for _ in range(rng.choice([1, 2, 5, 9])))
    return unconditional("mean", vs)


def unconditional(kind, vs):
    ev = {"kind": kind, "error": "", "t": [round(3e4 * math.exp(-math.pi * v / 4)) for v in vs],
          "w": [round(3e4 * math.exp(-math.pi * v * v / 4)) for v in vs]}

    def go(_):
        return {"p": [nano(p) for p in flat(Z_err(np.array(vs)))],
                "one": [nano(flat(Z_err(np.array([v])))[0]) for v in vs]}

    from flamingpy.cv.gkp import Z_err
    ev.update(guarded(go, None, 20))
    return ev


def drive(case):
    rng = random.Random(case["seed"])
    events = []
    with np.errstate(all="ignore"):
        for _ in range(case["n"]):
            events += [f(rng) for f in (snap, snap, snap, binner, binner, hole, mean, pairs)]
        events += [table(rng) for _ in range(case["tables"])]
    for e in events:
        e.pop("tb", None)
    return {"events": events}


def run(chk):
    rng = random.Random(chk.seed)
    for a in (1, 2, 5, 6):
        chk.model("GkpModel", CFG % (a, 30 if chk.quick else 200), workers=1,
                  label=f"bins of width {a}")
    k = 16 if chk.quick else 64
    cases = [{"id": f"batch {i}", "seed": rng.random(), "n": 12 if chk.quick else 120,
              "tables": 6 if chk.quick else 40} for i in range(k)]
    res = pmap(drive, cases, seconds=900, chunk=1)
    traces = [{"id": c["id"], **r} for c, r in zip(cases, res)]
    with np.errstate(all="ignore"):
        known = unconditional("known", [0.4, 0.5, 0.7, 1.5, 2.0])
    known.pop("tb", None)
    traces.append({"id": "unconditional probabilities", "events": [known], "error": ""})
    chk.extra["calls_recorded"] = sum(len(t.get("events", [])) for t in traces)
    chk.validate("GkpTrace", traces, timeout=3000)
    chk.assumptions += ["variances between 0.0015 and 8 (20 with a wider window) for probabilities",
                        "probabilities compared to within 1e-7"]
