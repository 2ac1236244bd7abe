"""Stand-in for dwave-neal: a deterministic backend chosen by the harness.

``calls`` records every request; ``backend(bqm, params)`` returns the rows to
hand back as a list of samples (dictionaries), or a sample set.
"""
import dimod

calls = []
backend = None


class SimulatedAnnealingSampler:
    parameters = {}
    properties = {}

    def sample(self, bqm, beta_range=None, num_reads=None, num_sweeps=None,
               num_sweeps_per_beta=1, beta_schedule_type="geometric", seed=None, **kwargs):
        params = dict(beta_range=beta_range, num_reads=num_reads, num_sweeps=num_sweeps,
                      num_sweeps_per_beta=num_sweeps_per_beta,
                      beta_schedule_type=beta_schedule_type, seed=seed, **kwargs)
        calls.append(("neal", bqm, params))
        rows = backend(bqm, params)
        if isinstance(rows, dimod.SampleSet):
            return rows
        ss = dimod.SampleSet.from_samples_bqm(rows, bqm)
        ss.info = {"beta_range": beta_range, "beta_schedule_type": beta_schedule_type,
                   "timing": {}}
        return ss
