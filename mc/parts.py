"""Tables whose rows lie in several partitions.

The table interface (computing/_computing.py) promises no more than that mapPartitions is
applied to each partition and that mapReducePartitions reduces over all of them; DTable
happens to hold everything in one.  PartTable is a DTable that keeps the promise with the
partition of every key chosen by the check, so that merging is really exercised.
"""
from computing.d_table import DTable


class PartTable(DTable):
    def __init__(self, include_key, data=None, part=None, n=1):
        """part: {key: partition number}; unknown keys lie in partition 0."""
        super().__init__(include_key, data)
        self._part, self._n = dict(part or {}), n

    def _like(self, t):
        out = PartTable(True, list(t.collect()), self._part, self._n)
        out.schema = t.schema
        return out

    def _chunks(self):
        ps = [{} for _ in range(self._n)]
        for k, v in self.collect():
            ps[self._part.get(k, 0)][k] = v
        return [p.items() for p in ps]

    def map(self, func):
        return self._like(super().map(func))

    def mapValues(self, func):
        return self._like(super().mapValues(func))

    def filter(self, func):
        return self._like(super().filter(func))

    def join(self, other, *a, **kw):
        return self._like(super().join(other, *a, **kw))

    def union(self, other, *a, **kw):
        return self._like(super().union(other, *a, **kw))

    def subtractByKey(self, other):
        return self._like(super().subtractByKey(other))

    def mapPartitions(self, func):
        out = []
        for c in self._chunks():
            out.extend(func(c))
        return DTable(False, out)

    def mapReducePartitions(self, mapper, reducer, **kw):
        out = {}
        for c in self._chunks():
            mine = {}
            for k, v in mapper(c):
                mine[k] = reducer(mine[k], v) if k in mine else v
            for k, v in mine.items():
                out[k] = reducer(out[k], v) if k in out else v
        return DTable(True, list(out.items()))
