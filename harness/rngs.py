"""Generators that remember what they gave."""

import numpy as np


class Recorder(np.random.Generator):
    """numpy.random.default_rng(seed), noting every standard normal draw."""

    def __init__(self, seed):
        super().__init__(np.random.PCG64(seed))
        self.z = []

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else size
        return np.asarray(loc) + np.asarray(scale) * self.standard_normal(shape)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        z = super().standard_normal(size=size, dtype=dtype, out=out)
        self.z += np.ravel(z).tolist()
        return z


def micro(x, lim=2 * 10**9):
    """x in millionths, clipped to what fits an integer of the specification."""
    y = round(float(x) * 1e6) if np.isfinite(x) else lim
    return int(max(-lim + 1, min(lim - 1, y)))
