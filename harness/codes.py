"""Helpers the drivers share: building codes, naming nodes, choosing sizes."""

import functools
import itertools as it
import zlib

from harness.core import pt

KINDS = [(b, ec) for b in ("open", "toric", "periodic") for ec in ("primal", "dual")]


def label(dims, code, ec, *rest):
    return "/".join([code, ec, "x".join(map(str, dims))] + [str(r) for r in rest])


def shapes(lo, hi, cubic=False):
    if cubic:
        return [(d, d, d) for d in range(lo, hi + 1)]
    return list(it.product(range(lo, hi + 1), repeat=3))


def long_shapes(rng, n, hi=9):
    """Lattices much longer in one direction than in the others, along each axis in turn."""
    res, first = [], rng.randrange(3)
    for k in range(n):
        s = [2, 2, 2]
        if rng.random() < 0.3:
            s[(first + k + 1) % 3] = 3
        s[(first + k) % 3] = rng.randint(5, hi)
        res.append(tuple(s))
    return res


def thin_shape(rng, lo=64, hi=70):
    """A lattice with coordinates beyond a signed byte, small in two directions."""
    s = [2, 2, 2]
    s[rng.randrange(3)] = rng.randint(lo, hi)
    return tuple(s)


def spoil_graph(g):
    """Another user has done as they liked with a graph of their own."""
    for _, d in g.nodes(data=True):
        d.update(bit_val=1, state="p", weight=9, type="spoilt")
    for _, _, d in g.edges(data=True):
        d.update(weight=9, periodic=True)
    g.graph["perfect_points"] = []
    for v in sorted(g.nodes)[::3]:
        g.remove_node(v)
    for d in (g.to_points, g.to_indices):
        if d is not None:
            d.clear()


def spoil(code):
    spoil_graph(code.graph)
    for name, value in vars(code).items():
        if any(x in name for x in ("syndrome", "bound_points", "stabilizers")):
            for x in value if "stabilizers" in name and isinstance(value, list) else ():
                if isinstance(getattr(x, "physical", None), list):
                    x.physical.clear()
            if isinstance(value, (list, set, dict)):
                value.clear()


def build(dims, code, ec, backend="rustworkx", polarity=None):
    """A code; every other one is built after a twin that has been taken apart since."""
    from flamingpy.codes import SurfaceCode

    new = lambda: SurfaceCode(tuple(dims), ec=ec, boundaries=code, backend=backend, polarity=polarity)
    if zlib.crc32(repr((tuple(dims), code, ec, backend)).encode()) % 2 and max(dims) < 6:
        spoil(new())
    return new()


def negative(edge):  # pylint: disable=unused-argument
    """A polarity of its own."""
    return -1


@functools.lru_cache(maxsize=8)
def cached(dims, code, ec, backend="rustworkx"):
    """One code object per worker and configuration, reused by later cases."""
    return build(dims, code, ec, backend)


def stab_graph(code, ec):
    return getattr(code, ec + "_stab_graph")


def syndrome_qubits(code, ec):
    """Syndrome qubits in a fixed order, as the code's own node objects."""
    return sorted(set(getattr(code, ec + "_syndrome_coords")))


def flipped(code, qubits):
    return [pt(q) for q in qubits if code.graph.nodes[q]["bit_val"] == 1]


def set_bits(code, ones, typ=int):
    ones = set(ones)
    for q, d in code.graph.nodes(data=True):
        d["bit_val"] = typ(1) if q in ones else typ(0)


def set_weights(code, qubits, weights, ec):
    for q, w in zip(qubits, weights):
        code.graph.nodes[q]["weight"] = w
    stab_graph(code, ec).assign_weights(code)


class Namer:
    """Numbers the nodes of a stabilizer graph by their identity.

    A node is described to the specification by the set of coordinates it
    stands for: the qubits of a stabilizer, the point of a boundary node, and
    a reserved coordinate for the two connectors.
    """

    LOW, HIGH = [-1, -1, -1], [-2, -2, -2]

    def __init__(self):
        self.ids, self.table = {}, []

    def __call__(self, node):
        key = node if isinstance(node, (str, tuple)) else id(node)
        if key not in self.ids:
            if node == "low":
                val = [self.LOW]
            elif node == "high":
                val = [self.HIGH]
            elif isinstance(node, tuple):
                val = [pt(node)]
            else:
                val = [pt(q) for q in node.coords()]
            self.table.append(val)
            self.ids[key] = len(self.table)
        return self.ids[key]
