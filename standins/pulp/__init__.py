"""Stand-in for PuLP 2.5.1 (modelling layer only), see DESIGN.md."""
from .constants import *  # noqa: F401,F403
from .pulp import *  # noqa: F401,F403
from .pulp import (
    LpElement, LpVariable, LpAffineExpression, LpConstraint, LpProblem,
    lpSum, lpDot, value, valueOrDefault, getSolver, listSolvers, set_backend,
    PULP_CBC_CMD, CPLEX_CMD, GUROBI_CMD, GLPK_CMD, LpSolver,
)
from . import constants, pulp

__version__ = "2.5.1"
VERSION = __version__
