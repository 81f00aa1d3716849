"""Imports the code under test with settings that work in this sandbox, quietly."""
import sys
import warnings

warnings.simplefilter("ignore")

import casadi as ca  # noqa: E402
import numpy as np  # noqa: E402

# 'erised' (objects living in other processes) is not installed: vfw.remote stands in for it, running the
# messages of each proxy in order and the proxies in an order drawn by the workload.
if "erised" not in sys.modules:
    try:
        import erised  # noqa: F401
    except ImportError:
        from vfw import remote

        sys.modules["erised"] = remote

from yaocptool import config  # noqa: E402

config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.linear_solver"] = "mumps"
config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.print_level"] = 0
config.SOLVER_OPTIONS["nlpsol_options"]["print_time"] = False
config.SOLVER_OPTIONS["nlpsol_options"]["ipopt.sb"] = "yes"


def dm(v):
    return ca.DM(np.array(v, dtype=float))


def names(v):
    return [v[i].name() for i in range(v.numel())]


def same_symbols(v, elems):
    """v is exactly the vector of the symbols `elems`, in this order."""
    if v.numel() != len(elems):
        return False
    return all(ca.is_equal(v[i], e, 0) for i, e in enumerate(elems))


def SX_sym(name, n=1):
    """A column of n symbols (no sharing with anything the library creates)."""
    if n == 1:
        return ca.SX.sym(name)
    return ca.SX.sym(name, n)
