"""np.log evaluated the way the mode under test evaluates it (compiled or interpreted): exact-equality boundaries stay exact."""
import numpy as np
from numba import njit


@njit(nogil=True)
def log(x):
    return np.log(x)
