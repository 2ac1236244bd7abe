"""Runs the check of one property:  python run.py C01 [--replay FILE]

Exit 0: the property held on everything explored.  Exit 1 and a line
`VIOLATION property=<id> replay=<path>`: it is broken.  Anything else: the
check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.dont_write_bytecode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

# stand-ins for the optional libraries first, then the working tree of the repository
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path[:0] = [os.path.join(HERE, "standins"), HERE, REPO]

from mc import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:], HERE, REPO))
