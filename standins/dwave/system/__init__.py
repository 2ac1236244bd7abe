"""Stand-in for dwave.system: records every request, answers from a backend.

``calls`` records every request; ``backend(kind, model, params)`` returns a
dimod sample set.
"""
calls = []
backend = None


class DWaveSampler:
    def __init__(self, *args, **kwargs):
        self.properties = {}
        self.parameters = {}


class EmbeddingComposite:
    def __init__(self, child, *args, **kwargs):
        self.child = child
        self.properties = {}

    def sample(self, bqm, **params):
        calls.append(("qpu", bqm, params))
        return backend("qpu", bqm, params)


class LeapHybridSampler:
    def __init__(self, *args, **kwargs):
        self.properties = {"minimum_time_limit": [[1, 3.0], [1024, 3.0]]}

    def min_time_limit(self, bqm):
        return 3.0

    def sample(self, bqm, time_limit=None, **params):
        params = dict(params, time_limit=time_limit)
        calls.append(("hybrid", bqm, dict(params, properties=dict(self.properties))))
        return backend("hybrid", bqm, params)


class LeapHybridCQMSampler:
    def __init__(self, *args, **kwargs):
        self.properties = {"minimum_time_limit_s": 5, "maximum_time_limit_hrs": 24.0}

    def min_time_limit(self, cqm):
        return self.properties["minimum_time_limit_s"]

    def sample_cqm(self, cqm, time_limit=None, label="", **params):
        params = dict(params, time_limit=time_limit)
        calls.append(("cqm", cqm, dict(params, properties=dict(self.properties))))
        return backend("cqm", cqm, params)
