"""Rational momenta shared by the suites of forces and pushers (Vec.tla)."""
import numpy as np
import scipy.constants as ct

from vlib import OFF

DIRS = [(2, 3, 6, 7), (-1, 2, 2, 3), (4, -4, 7, 9), (-2, -6, 9, 11),
        (6, 2, 3, 7), (0, 0, 1, 1), (0, 3, 4, 5), (-3, 0, 4, 5)]
ENER = [(3, 4, 5), (4, 3, 5), (12, 5, 13), (15, 8, 17), (24, 7, 25)]


def momentum(p):
    d, e = DIRS[p['d'] - 1], ENER[p['e'] - 1]
    return [e[0] / e[1] * d[k] / d[3] for k in range(3)]


def den(p):
    return ENER[p['e'] - 1][2] * DIRS[p['d'] - 1][3]


def code(a, tol=0.2):
    """Nearest integer, or OFF."""
    a = float(a)
    if not np.isfinite(a) or abs(a) > 2**30 or abs(a - round(a)) > tol:
        return OFF
    return int(round(a))
