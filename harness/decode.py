"""Drives decoders on the real code and records what they did."""

import itertools as it
import random

import numpy as np

from harness import codes
from harness.core import as_int, guarded, pt, pts


class Session:
    """One code object, and a history of decodes on it."""

    def __init__(self, case):
        self.case = case
        self.rng = random.Random(case["seed"])
        self.ec = case["ec"]
        self.code = codes.build(case["dims"], case["code"], self.ec, case["backend"])
        self.qubits = codes.syndrome_qubits(self.code, self.ec)
        self.index = {q: k + 1 for k, q in enumerate(self.qubits)}
        self.others = [q for q in self.code.graph.nodes if q not in self.index]
        self.graph = codes.stab_graph(self.code, self.ec)
        self.out = {k: v for k, v in case.items() if k not in ("seed", "plan")}
        self.out["qubits"] = pts(self.qubits)
        self.out["events"] = []
        codes.set_bits(self.code, [q for q in self.others if self.rng.random() < 0.5])

    # ---- state of the code ------------------------------------------------
    def ones(self):
        return [self.index[q] for q in self.qubits if self.code.graph.nodes[q]["bit_val"] == 1]

    def rest(self):
        return [self.code.graph.nodes[q]["bit_val"] for q in self.others]

    def put(self, ones):
        ones = set(ones)
        for k, q in enumerate(self.qubits):
            self.code.graph.nodes[q]["bit_val"] = self.bit(1 if k + 1 in ones else 0)

    bit = int

    def weigh(self, weights):
        codes.set_weights(self.code, self.qubits, weights, self.ec)

    # ---- error patterns ---------------------------------------------------
    def random_ones(self, p):
        return [k + 1 for k in range(len(self.qubits)) if self.rng.random() < p]

    def few(self, lo, hi):
        n = self.rng.randint(lo, min(hi, len(self.qubits)))
        return [k + 1 for k in self.rng.sample(range(len(self.qubits)), n)]

    def walk(self, steps):
        """A connected chain of errors: errors that share checks."""
        ones, stab = set(), self.rng.choice(self.graph.stabilizers)
        for _ in range(steps):
            q = self.rng.choice(sorted(set(stab.coords())))
            ones ^= {self.index[q]}
            nxt = [s for s in self.graph.stabilizers if q in s.coords() and s is not stab]
            stab = self.rng.choice(nxt) if nxt else self.rng.choice(self.graph.stabilizers)
        return sorted(ones)

    def chain(self, steps):
        """A straight chain of errors, in the longest direction more often than not."""
        dims = self.case["dims"]
        axis = dims.index(max(dims)) if self.rng.random() < 0.7 else self.rng.randrange(3)
        on = line(self, axis, self.rng)
        if not on:
            return []
        n = min(steps, len(on))
        k = self.rng.randint(0, len(on) - n)
        return on[k : k + n]

    def errors(self, kind, size):
        return {"random": self.random_ones, "walk": self.walk, "chain": self.chain,
                "few": lambda n: self.few(0, n)}[kind](size)

    # ---- one decode -------------------------------------------------------
    def decode(self, decoder, seconds=60, **extra):
        """decoder(code, ec) -> recovery; then the real recovery step."""
        from flamingpy.decoders import decoder as dec

        before, rest = self.ones(), self.rest()

        def go(_):
            rec = list(decoder())
            idx = [self.index.get(q) for q in rec]
            if None in idx:
                bad = [q for q, k in zip(rec, idx) if k is None][0]
                raise ValueError(f"recovery contains {bad!r}, not a syndrome qubit")
            dec.recovery(rec, self.code, self.ec)
            return idx

        idx = guarded(go, None, seconds)
        ev = {"ones": before, "error": "", "rec": [], "after": [], "others": True, "odd_after": 0}
        ev.update(extra)
        if isinstance(idx, dict):
            ev["error"] = idx["error"]
            self.put([])
        else:
            ev["rec"] = idx
            ev["after"] = self.ones()
            ev["others"] = self.rest() == rest
            ev["odd_after"] = len(list(self.graph.odd_parity_stabilizers()))
        self.out["events"].append(ev)
        return ev


def weights_of(style, n, rng):
    return {
        "ones": lambda: [1] * n,
        "twos": lambda: [2] * n,
        "small": lambda: [rng.randint(1, 3) for _ in range(n)],
        "wide": lambda: [rng.randint(1, 9999) for _ in range(n)],
        "huge": lambda: [rng.randint(1, 10 ** 6) for _ in range(n)],
        "fine": lambda: [min(2 ** 25, 9 * 10 ** 8 // n) + rng.randint(-4, 4) for _ in range(n)],
        "close": lambda: [9 * 10 ** 6 + rng.randint(0, 9) for _ in range(n)],
        "skewed": lambda: [rng.choice([1, 1, 1, 7, 200]) for _ in range(n)],
    }[style]()


def coords_of(node):
    """The coordinates a matching-graph node stands for."""
    if isinstance(node, tuple) and len(node) == 2 and isinstance(node[0], tuple):
        return [pt(node[0])]  # a virtual point: (boundary point, number)
    return pts(node.coords())


def rival(s, ws):
    """Some light recovery, found without the code under test; the specification judges it."""
    import networkx as nx

    checks = {}
    for n, stab in enumerate(s.graph.stabilizers):
        for q in stab.coords():
            checks.setdefault(q, []).append(n)
    g = nx.Graph()
    for q, k in s.index.items():
        a, b = (checks[q] + ["out"])[:2]
        if not g.has_edge(a, b) or g.edges[a, b]["weight"] > ws[k - 1]:
            g.add_edge(a, b, weight=ws[k - 1], qubit=k)
    odd = [n for n, stab in enumerate(s.graph.stabilizers)
           if sum(int(s.code.graph.nodes[q]["bit_val"]) for q in stab.coords()) % 2]
    inner = g.subgraph([v for v in g if v != "out"])
    m, ways = nx.Graph(), {}
    out = nx.single_source_dijkstra(g, "out") if "out" in g else None
    for i in odd:
        far, path = nx.single_source_dijkstra(inner, i)
        for j in odd:
            if i < j and j in far:
                m.add_edge((i, 0), (j, 0), weight=int(far[j]))
                ways[(i, 0), (j, 0)] = path[j]
            if i < j and out:
                m.add_edge((i, 1), (j, 1), weight=0)
        if out:
            m.add_edge((i, 0), (i, 1), weight=int(out[0][i]))
            ways[(i, 0), (i, 1)] = out[1][i]
    res = set()
    for e in nx.min_weight_matching(m):
        way = ways.get(e) or ways.get((e[1], e[0])) or []
        for a, b in zip(way, way[1:]):
            res ^= {g.edges[a, b]["qubit"]}
    return sorted(res)


def mwpm_session(case):
    from flamingpy.decoders.mwpm.algos import build_match_graph, mwpm_decoder

    import flamingpy.decoders.mwpm.matching as mm

    class OwnNx(mm.NxMatchingGraph):
        """A matching graph of the caller's own."""

    class OwnRx(mm.RxMatchingGraph):
        """Another one."""

    types = {"networkx": ["networkx", mm.NxMatchingGraph, OwnNx],
             "rustworkx": ["rustworkx", mm.RxMatchingGraph, OwnRx],
             "lemon": ["lemon", mm.LemonMatchingGraph]}
    s = Session(case)
    rng = s.rng
    ws = None
    for style, kind, size, backend, fresh in case["plan"]:
        if style == "again" and ws:  # the same weights on other qubits
            ws = rng.sample(ws, len(ws))
        else:
            ws = weights_of("small" if style == "again" else style, len(s.qubits), rng)
        s.bit = rng.choice([int, int, np.int64, np.int8, bool])
        scale = 1
        if case["backend"] == backend == "networkx" and rng.random() < 0.5:
            scale = rng.choice([2, 4, 1024])  # weights that are no integers
        s.weigh([rng.choice([int, np.int64])(w) if scale == 1 else w / scale for w in ws])
        given = types[backend][0 if rng.random() < 0.7 else -1]
        if rng.random() < 0.1:
            given = types[backend][1]
        ones = s.errors(kind, size)
        if not fresh:
            ones = sorted(set(ones) ^ set(s.ones()))
        s.put(ones)
        extra = {}
        if "match" in case["judge"]:
            def look(_):
                mg = build_match_graph(s.code, s.ec, given)
                m = [tuple(e) for e in mg.min_weight_perfect_matching()]
                ends = [v for e in m for v in e]
                virt = [v for v in ends if v in mg.virtual_points] if ends else []
                return {
                    "pairs": [{"u": coords_of(u), "v": coords_of(v)} for u, v in m],
                    "total": as_int(scale * mg.total_weight_of(m), "total weight"),
                    "virtual_ok": len(virt) == len(set(virt)) == len(mg.virtual_points),
                }

            odd = len(list(s.graph.odd_parity_stabilizers()))
            extra = guarded(look, None, 120)
            if "error" in extra:
                s.out["events"].append({"error": extra["error"], "ones": ones})
                continue
            extra["w"] = ws
            extra["rival"] = rival(s, ws)
            extra["exact"] = odd <= case["max_odd"]
        s.decode(lambda: mwpm_decoder(s.code, s.ec, backend=given), match=backend, **extra)
    return s.out


def uf_session(case):
    from flamingpy.decoders.unionfind import uf_decoder

    s = Session(case)
    rng = s.rng
    for kind, size, erase, fresh in case["plan"]:
        s.bit = rng.choice([int, int, np.int64, np.int8, bool])
        era = {"none": lambda: [], "sparse": lambda: s.few(0, 6),
               "random": lambda: s.random_ones(rng.choice([0.1, 0.25, 0.5])),
               "walk": lambda: s.walk(rng.randint(2, 12)),
               "all": lambda: list(range(1, len(s.qubits) + 1))}[erase]()
        s.weigh([-1 if k + 1 in set(era) else 2 for k in range(len(s.qubits))])
        ones = s.errors(kind, size)
        if rng.random() < 0.5:
            # flips mostly where the erasure is, as in a real heralded loss
            ones = sorted({k for k in era if rng.random() < 0.5} ^ set(ones[: rng.randint(0, 2)]))
        if not fresh:
            ones = sorted(set(ones) ^ set(s.ones()))
        s.put(ones)
        s.decode(lambda: uf_decoder(s.code, s.ec), erased=era, seconds=20)
    return s.out


# ---- error patterns within the correction radius ---------------------------

PLANE_AXES = {("open", "primal"): [0], ("open", "dual"): [1], "toric": [0, 1],
              "periodic": [0, 1, 2]}


def plane_axes(code, ec):
    return PLANE_AXES.get((code, ec)) or PLANE_AXES[code]


def distance(dims, code, ec):
    """Only used to choose patterns; the specification checks the radius itself."""
    return min(dims[i] for i in plane_axes(code, ec))


def line(session, axis, rng):
    """The numbers of the syndrome qubits on a straight logical operator."""
    par = 0 if session.ec == "primal" else 1
    on = [q for q in session.qubits if q[axis] % 2 == par
          and all(q[i] % 2 == 1 - par for i in range(3) if i != axis)]
    if not on:
        return []
    base = rng.choice(on)
    keep = [q for q in on if all(q[i] == base[i] for i in range(3) if i != axis)]
    return [session.index[q] for q in sorted(keep)]


def radius_patterns(s, n):
    """(flips, erased) pairs with 2 t + |erased| < d, and the decoder, if it matters."""
    rng, d = s.rng, distance(s.case["dims"], s.case["code"], s.ec)
    allq = list(range(1, len(s.qubits) + 1))
    if s.case.get("exhaustive"):
        if d >= 3:
            yield from (([k], [], None) for k in allq)
        if d >= 2:
            for k in allq:
                yield [], [k], None
                yield [k], [k], None
        pairs = [(a, b) for a in allq for b in allq if a < b] if d >= 3 else []
        for a, b in pairs if len(pairs) < 2500 else rng.sample(pairs, 2500):
            yield rng.choice([[a], [b], [a, b]]), [a, b], None
        return
    # as many flips as can be corrected, in all ways along a shortest logical operator
    for axis in plane_axes(s.case["code"], s.ec):
        pool = line(s, axis, rng)
        if len(pool) == d:
            subsets = list(it.combinations(pool, (d - 1) // 2))
            for sub in rng.sample(subsets, min(len(subsets), s.case["n"] + 15)):
                yield list(sub), [], "UF"
    for _ in range(n):
        style = rng.choice(["line", "line", "line", "near", "walk", "random"])
        t = rng.randint(0, (d - 1) // 2)
        m = d - 1 - 2 * t
        if rng.random() < 0.2:
            m = rng.randint(0, m)
        pool = allq
        if style in ("line", "near"):
            pool = line(s, rng.choice(plane_axes(s.case["code"], s.ec)), rng)
            if rng.random() < 0.3:
                pool = pool[: t + m] if rng.random() < 0.5 else pool[-(t + m):]
            if style == "near" and len(pool) > 1:
                pool = pool[:-1] + rng.sample(allq, 2)
        elif style == "walk":
            pool = s.walk(t + m + 2)
        pool = list(dict.fromkeys(pool))
        if len(pool) < t + m:
            pool = allq
        pick = rng.sample(pool, t + m)
        era = pick[t:]
        flips = pick[:t] + [k for k in era if rng.random() < 0.6]
        yield flips, era, None


def radius_session(case):
    from flamingpy.decoders import decoder as dec
    from flamingpy.decoders.unionfind import uf_decoder

    s = Session(case)
    rng = s.rng
    for flips, era, name in radius_patterns(s, case["n"]):
        for q in s.qubits:
            s.code.graph.nodes[q]["weight"] = rng.choice([-1, 2, 3, 77])  # stale
        s.put(flips)
        name = name or ("UF" if era else rng.choice(["UF", "MWPM", "MWPM"]))
        ev = {"ones": sorted(flips), "erased": sorted(era), "decoder": name, "error": ""}

        def go(_):
            if era:
                s.weigh([-1 if k + 1 in set(era) else 2 for k in range(len(s.qubits))])
                dec.recovery(uf_decoder(s.code, s.ec), s.code, s.ec)
                return {"result": bool(np.all(dec.check_correction(s.code)))}
            opts = {"backend": rng.choice(["networkx", "rustworkx", "lemon"])}
            return {"result": bool(dec.correct(s.code, name, decoder_opts=opts))}

        ev.update(guarded(go, None, 30))
        ev["after"] = s.ones()
        ev["rec"] = sorted(set(ev["after"]) ^ set(ev["ones"]))
        ev["others"], ev["odd_after"] = True, len(list(s.graph.odd_parity_stabilizers()))
        ev.pop("tb", None)
        s.out["events"].append(ev)
    return s.out
