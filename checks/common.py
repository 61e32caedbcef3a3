"""Independent reference formulas and builders shared by the checks."""
import jax.numpy as jnp

DAY = 86400.0
GM_SUN = 1.3271244e20
R_SUN = 6.957e8
AU = 1.49597870700e11
# gravitational constant in R_sun^3 / (M_sun day^2)
GRAV = GM_SUN * DAY**2 / R_SUN**3


def mag(q, unit=None):
    """plain number of a quantity in the given unit"""
    if q is None:
        return None
    if hasattr(q, "to"):
        return q.to(unit).magnitude if unit is not None else q.magnitude
    return q


def mags(v, unit):
    return tuple(mag(x, unit) for x in v)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
