"""Stand-in for the parts of dimod 0.12 the repository uses, see DESIGN.md."""
from .models import (
    Binary, Integer, Spin, BinaryQuadraticModel, QuadraticModel, BQM, QM, Comparison,
    binary_encoding, quicksum, Vartype, BINARY, SPIN, INTEGER, as_bqm, Binaries, Integers,
)
from .sampleset import SampleSet, as_samples, append_data_vectors, concatenate
from .constrained import ConstrainedQuadraticModel, CQM, cqm_to_bqm
from . import sampleset, constrained

__version__ = "0.12.3"
