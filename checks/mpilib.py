"""Simulated MPI processes, without threads.

`run(size, f)` calls f(rank, comm) for every rank.  A collective call whose
contributions are not all known yet suspends the rank (exception); the ranks are
executed again from the start until all collectives are resolved, replaying
the contributions already recorded.  The functions must therefore be free of side effects.
"""
import pickle

import numpy as np


class Pending(BaseException):
    pass


class MPIError(Exception):
    """What a real MPI library reports by aborting."""


class World:
    def __init__(self, size):
        self.size = size
        self.groups = {}


class Group:
    def __init__(self, ranks):
        self.ranks = list(ranks)        # world ranks, in group order
        self.steps = []                 # per collective: {group rank: (kind, contribution)}
        self.children = {}


def _copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    return x


class Comm:
    def __init__(self, group, rank):
        self._g = group
        self.rank = rank
        self.size = len(group.ranks)
        self._n = 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _step(self, kind, x):
        k = self._n
        self._n += 1
        g = self._g
        if k == len(g.steps):
            g.steps.append({})
        s = g.steps[k]
        if self.rank not in s:
            s[self.rank] = (kind, _copy(x))
        if len(s) < self.size:
            raise Pending()
        kinds = {v[0] for v in s.values()}
        if len(kinds) > 1:
            raise MPIError(f'processes call different collectives: {sorted(kinds)}')
        return [s[r][1] for r in range(self.size)]

    def allgather(self, sendobj=None, recvobj=None):
        return list(self._step('allgather', sendobj))

    def gather(self, sendobj=None, recvobj=None, root=0):
        r = list(self._step('gather', sendobj))
        return r if self.rank == root else None

    def bcast(self, obj=None, root=0):
        return self._step('bcast', obj)[root]

    def allreduce(self, sendobj=None, recvobj=None, op=None):
        return _reduce(self._step('allreduce', sendobj), op)

    def Allreduce(self, i, o, op=None):
        from pyoperators import MPI
        if isinstance(o, (list, tuple)):
            o = o[0]
        if isinstance(i, (list, tuple)):
            i = i[0]
        x = o if isinstance(i, int) and i == MPI.IN_PLACE else i
        o[...] = _reduce(self._step('Allreduce', x), op)

    def Allgatherv(self, i, o, op=None):
        from pyoperators import MPI
        buf, (counts, offsets) = o[0], o[1][:2]
        assert not (isinstance(i, int) and i == MPI.IN_PLACE)
        if isinstance(i, (list, tuple)):
            i = i[0]
        if not i.flags.c_contiguous:
            raise MPIError('the send buffer is not contiguous')
        parts = self._step('Allgatherv', i)
        flat = buf.reshape(-1)
        if not np.shares_memory(flat, buf) and flat.size:
            raise MPIError('the receive buffer is not contiguous')
        for r, p in enumerate(parts):
            p = p.ravel()
            if p.size != counts[r]:
                raise MPIError(f'process {r} sends {p.size} elements, {counts[r]} are expected')
            if offsets[r] < 0 or offsets[r] + p.size > flat.size:
                raise MPIError('receive buffer overrun')
            flat[offsets[r]:offsets[r] + p.size] = p

    def Barrier(self):
        self._step('Barrier', None)

    def Dup(self):
        k = ('dup', self._n)
        self._step('Dup', None)
        g = self._g.children.setdefault(k, Group(self._g.ranks))
        return Comm(g, self.rank)

    def Split(self, color=0, key=0):
        n = self._n
        all_ = self._step('Split', (color, key))
        members = sorted((kk, r) for r, (c, kk) in enumerate(all_) if c == color)
        ranks = [r for _, r in members]
        g = self._g.children.setdefault(('split', n, color), Group([self._g.ranks[r] for r in ranks]))
        return Comm(g, ranks.index(self.rank))

    def Free(self):
        pass

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _reduce(parts, op):
    from pyoperators import MPI
    f = {MPI.SUM: lambda a, b: a + b, MPI.MAX: np.maximum, MPI.MIN: np.minimum, MPI.PROD: lambda a, b: a * b,
         None: lambda a, b: a + b}[op]
    out = parts[0]
    for p in parts[1:]:
        out = f(out, p)
    return out


def run(size, f):
    """-> [f(rank, comm) for each rank]"""
    root = Group(range(size))
    results = [None] * size
    done = [False] * size
    for _ in range(200):
        progress = False
        before = _count(root)
        for r in range(size):
            if done[r]:
                continue
            try:
                results[r] = f(r, Comm(root, r))
                done[r] = progress = True
            except Pending:
                pass
        if all(done):
            return results
        if not progress and _count(root) == before:
            raise MPIError('deadlock: the processes do not call the same collectives')
    raise MPIError('too many collectives')


def _count(g):
    return sum(len(s) for s in g.steps) + sum(_count(c) for c in g.children.values())
