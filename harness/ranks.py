"""MPI ranks without MPI: threads of which exactly one runs at a time.

A rank runs until it finishes or has to wait in a collective call; then the
next rank that can go on, in a given order, takes over.  Ranks other than the
root may leave Reduce before the others reach it ("eager") or wait for them.
"""

import threading

import numpy as np


class Deadlock(Exception):
    pass


class World:
    def __init__(self, size, order, eager):
        self.size, self.order, self.eager = size, order, eager
        self.waits = [None] * size  # what a rank waits for
        self.done = [False] * size
        self.go = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.rounds = []  # contributions to each collective call
        self.calls = [0] * size
        self.errors = {}
        self.stop = False
        self.here = None

    def comm(self, rank):
        return Comm(self, rank)

    def pause(self, rank, pred):
        if pred():
            return
        self.waits[rank] = pred
        self.back.release()
        self.go[rank].acquire()
        if self.stop:
            raise Deadlock()

    def collective(self, rank, value, wait):
        """Contribute to this rank's next collective call; its contributions."""
        k = self.calls[rank]
        self.calls[rank] += 1
        while len(self.rounds) <= k:
            self.rounds.append({})
        self.rounds[k][rank] = value
        if wait:
            self.pause(rank, lambda: len(self.rounds[k]) == self.size)
        return [self.rounds[k].get(r) for r in range(self.size)]

    def run(self, job):
        out = [None] * self.size

        def body(rank):
            self.go[rank].acquire()
            try:
                if not self.stop:
                    out[rank] = job(rank, self.comm(rank))
            except BaseException as exc:  # pylint: disable=broad-except
                self.errors[rank] = exc
            self.done[rank] = True
            self.back.release()

        threads = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in threads:
            t.start()
        while not all(self.done):
            ready = [r for r in self.order if not self.done[r]
                     and (self.waits[r] is None or self.waits[r]())]
            if not ready or self.errors:
                self.stop = True
                err = next(iter(self.errors.values()), Deadlock("ranks wait for each other"))
                for r in range(self.size):
                    self.go[r].release()
                raise err
            r = ready[0]
            self.waits[r] = None
            self.here = r
            self.go[r].release()
            self.back.acquire()
        if self.errors:
            raise next(iter(self.errors.values()))
        return out


def buf(x):
    """The array of an mpi4py buffer argument."""
    return x[0] if isinstance(x, (list, tuple)) else x


class Comm:
    """The part of an mpi4py communicator that a reduction may need."""

    def __init__(self, world, rank):
        self.world, self.rank, self.size = world, rank, world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _gather(self, value, root):
        return self.world.collective(self.rank, value,
                                     wait=self.rank == root or not self.world.eager)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        vals = self._gather(np.array(buf(sendbuf), copy=True), root)
        if self.rank == root:
            buf(recvbuf)[...] = sum(vals[1:], vals[0])

    def Allreduce(self, sendbuf, recvbuf, op=None):
        vals = self.world.collective(self.rank, np.array(buf(sendbuf), copy=True), True)
        buf(recvbuf)[...] = sum(vals[1:], vals[0])

    def reduce(self, obj, op=None, root=0):
        vals = self._gather(obj, root)
        return sum(vals[1:], vals[0]) if self.rank == root else None

    def allreduce(self, obj, op=None):
        vals = self.world.collective(self.rank, obj, True)
        return sum(vals[1:], vals[0])

    def gather(self, obj, root=0):
        vals = self._gather(obj, root)
        return vals if self.rank == root else None

    def allgather(self, obj):
        return self.world.collective(self.rank, obj, True)

    def bcast(self, obj, root=0):
        return self.world.collective(self.rank, obj, True)[root]

    def Barrier(self):
        self.world.collective(self.rank, None, True)

    barrier = Barrier


class FakeMPI:
    """Stands for the module mpi4py.MPI while ranks run."""

    SUM = "sum"
    DOUBLE = "double"

    def __init__(self, world):
        self._world = world

    @property
    def COMM_WORLD(self):
        return self._world.comm(self._world.here)


class installed:
    """Within this context flamingpy.simulations believes that it runs under MPI."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        from flamingpy import simulations

        self.old = simulations.__dict__.get("MPI")
        if self.world is not None:
            simulations.MPI = FakeMPI(self.world)

    def __exit__(self, *_):
        from flamingpy import simulations

        if self.world is not None:
            if self.old is None:
                del simulations.MPI
            else:
                simulations.MPI = self.old
