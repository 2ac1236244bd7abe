"""Stand-in for dwave.samplers: the annealer is the one of neal."""
from neal import SimulatedAnnealingSampler
