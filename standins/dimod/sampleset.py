"""A sample set: rows of samples with their energies."""
from collections import namedtuple


class SampleView(dict):
    """one sample, variable -> value"""


class SampleSet:
    """Ordered rows (sample, energy, num_occurrences)"""

    def __init__(self, rows, vartype="BINARY", info=None, variables=None):
        self._rows = list(rows)
        self.vartype = vartype
        self.info = {} if info is None else info
        if variables is None:
            variables = list(self._rows[0][0]) if self._rows else []
        self.variables = variables

    @classmethod
    def from_samples(cls, samples_like, vartype, energy, info=None, num_occurrences=None,
                     aggregate_samples=False, sort_labels=True, **vectors):
        samples, labels = as_samples(samples_like)
        try:
            energies = list(energy)
        except TypeError:
            energies = [energy]
        if len(energies) == 1 and len(samples) > 1:
            energies = energies * len(samples)
        if len(energies) != len(samples):
            raise ValueError("energy and samples lengths differ")
        occ = [1] * len(samples) if num_occurrences is None else list(num_occurrences)
        rows = [(SampleView(zip(labels, s)), e, n) for s, e, n in zip(samples, energies, occ)]
        return cls(rows, vartype, info, list(labels))

    @classmethod
    def from_samples_bqm(cls, samples_like, bqm, **kwargs):
        samples, labels = as_samples(samples_like)
        energies = [bqm.energy(dict(zip(labels, s))) for s in samples]
        return cls.from_samples((samples, labels), bqm.vartype, energies, **kwargs)

    @property
    def first(self):
        return next(self.data(sorted_by="energy"))

    def __len__(self):
        return len(self._rows)

    def __iter__(self):
        return iter(self.samples(sorted_by=None))

    def _order(self, sorted_by):
        idx = list(range(len(self._rows)))
        if sorted_by == "energy":
            idx.sort(key=lambda i: self._rows[i][1])
        elif sorted_by == "num_occurrences":
            idx.sort(key=lambda i: self._rows[i][2])
        return idx

    def samples(self, n=None, sorted_by="energy"):
        idx = self._order(sorted_by)
        if n is not None:
            idx = idx[:n]
        return [SampleView(self._rows[i][0]) for i in idx]

    def data(self, fields=None, sorted_by="energy", name="Sample", reverse=False,
             sample_dict_cast=True, index=False):
        if fields is None:
            fields = ["sample", "energy", "num_occurrences"]
        row_type = namedtuple(name or "Sample", fields)
        idx = self._order(sorted_by)
        if reverse:
            idx = idx[::-1]
        for i in idx:
            s, e, n = self._rows[i]
            full = {"sample": dict(s) if sample_dict_cast else SampleView(s),
                    "energy": e, "num_occurrences": n}
            yield row_type(*(full[f] for f in fields))

    @property
    def record(self):
        class _Record:
            pass
        r = _Record()
        r.energy = [e for _, e, _ in self._rows]
        r.num_occurrences = [n for _, _, n in self._rows]
        r.sample = [[s[v] for v in self.variables] for s, _, _ in self._rows]
        return r

    def aggregate(self):
        return self

    def resolve(self):
        return None


def as_samples(samples_like, *args, **kwargs):
    """(list of rows, labels)"""
    if isinstance(samples_like, SampleSet):
        labels = list(samples_like.variables)
        return [[s[v] for v in labels] for s in samples_like.samples(sorted_by=None)], labels
    if isinstance(samples_like, tuple) and len(samples_like) == 2:
        rows, labels = samples_like
        if isinstance(rows, dict):
            raise TypeError("mapping with labels")
        rows = list(rows)
        if rows and not hasattr(rows[0], "__len__"):
            rows = [rows]
        return [list(r) for r in rows], list(labels)
    if isinstance(samples_like, dict):
        samples_like = [samples_like]
    samples_like = list(samples_like)
    if not samples_like:
        return [], []
    if isinstance(samples_like[0], dict):
        labels = list(samples_like[0])
        for s in samples_like:
            if set(s) != set(labels):
                raise ValueError("inconsistent sample variables")
        return [[s[v] for v in labels] for s in samples_like], labels
    if not hasattr(samples_like[0], "__len__"):
        samples_like = [samples_like]
    return [list(s) for s in samples_like], list(range(len(samples_like[0])))


def append_data_vectors(sampleset, **vectors):
    return sampleset


def concatenate(samplesets):
    rows = []
    for ss in samplesets:
        rows.extend(ss._rows)
    return SampleSet(rows)
