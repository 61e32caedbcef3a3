"""Derivatives of the Kepler solver: the implicit derivatives of Kepler's equation."""
import jax
import jax.numpy as jnp

from jaxoplanet.core.kepler import kepler
from jsym.ob import Ob

BOUNDS = "every mean anomaly in [-20,20], eccentricity in [0,0.999], every tangent and cotangent; scalars, arrays of two, one argument alone; first derivatives (forward and reverse), second derivatives"
ASSUMPTIONS = ["the derivatives are decided for every angle the solver may return (that it is the true anomaly is decided by C01); the pair it returns lies on the unit circle (decided here)"]
V = {"M": (-20, 20), "e": (0, 0.999), "dM": (-3, 3), "de": (-3, 3)}


def implicit(s, c, e):
    """df/dM and df/de from E - e sin E = M and the relation of the true anomaly f to E"""
    r = jnp.sqrt(1 - e * e)
    cE, sE = (e + c) / (1 + e * c), r * s / (1 + e * c)
    E_M, E_e = 1 / (1 - e * cE), sE / (1 - e * cE)
    # cos f = (cos E - e) / (1 - e cos E), differentiated; sin f = r sin E / (1 - e cos E)
    f_E = r / (1 - e * cE)
    f_e = sE / (r * (1 - e * cE))
    return f_E * E_M, f_E * E_e + f_e


def unit(s, c):
    return {"unit circle": (s * s + c * c, 1.0)}


def forward(M, e, dM, de):
    (s, c), (ds, dc) = jax.jvp(kepler, (M, e), (dM, de))
    fM, fe = implicit(s, c, e)
    f = fM * dM + fe * de
    return dict(eq={"sin": (ds, c * f), "cos": (dc, -s * f)}, abstract=[(s, c)])


def circle(M, e):
    s, c = kepler(M, e)
    return dict(eq=unit(s, c))


def alone(M, e, dM, de):
    (s, c), (ds, dc) = jax.jvp(lambda m: kepler(m, e), (M,), (dM,))
    _, (ds2, dc2) = jax.jvp(lambda x: kepler(M, x), (e,), (de,))
    fM, fe = implicit(s, c, e)
    return dict(eq={"sin M": (ds, c * fM * dM), "cos M": (dc, -s * fM * dM), "sin e": (ds2, c * fe * de), "cos e": (dc2, -s * fe * de)}, abstract=[(s, c)])


def reverse(M, e, dM, de):
    (s, c), vjp = jax.vjp(kepler, M, e)
    gM, ge = vjp((dM, de))
    fM, fe = implicit(s, c, e)
    k = dM * c - de * s
    h = jax.grad(lambda m, x: kepler(m, x)[0], argnums=(0, 1))(M, e)
    return dict(eq={"M": (gM, k * fM), "e": (ge, k * fe), "grad M": (h[0], c * fM), "grad e": (h[1], c * fe)}, abstract=[(s, c)])


def arrays(M, e, dM, de):
    (s, c), (ds, dc) = jax.jvp(kepler, (M, e), (dM, de))
    fM, fe = implicit(s, c, e)
    f = fM * dM + fe * de
    J = jax.jacfwd(kepler)(M, e)[0]
    return dict(eq={"sin": (ds, c * f), "cos": (dc, -s * f), "jacobian": (J, jnp.diag(c * fM))}, abstract=[(s, c)])


def broadcast(M, e, dM, de):
    """several times, one eccentricity"""
    (s, c), (ds, dc) = jax.jvp(lambda m, x: jax.vmap(kepler, in_axes=(0, None))(m, x), (M, e), (dM, de))
    fM, fe = implicit(s, c, e)
    f = fM * dM + fe * de
    return dict(eq={"sin": (ds, c * f), "cos": (dc, -s * f)}, abstract=[(s, c)])


def second(M, e, dM, de):
    """second derivatives in one direction"""
    s, c = kepler(M, e)

    def first(m, x):
        return jax.jvp(kepler, (m, x), (dM, de))[1]
    _, (dds, ddc) = jax.jvp(first, (M, e), (dM, de))
    fM, fe = implicit(s, c, e)
    f = fM * dM + fe * de

    def rate(F, x):
        gM, ge = implicit(jnp.sin(F), jnp.cos(F), x)
        return gM * dM + ge * de
    # d2 f along the direction, by differentiating the implicit rate
    F = jnp.arctan2(s, c)
    _, ff = jax.jvp(rate, (F, e), (f, de))
    return dict(eq={"sin": (dds, c * ff - s * f * f), "cos": (ddc, -s * ff - c * f * f)}, abstract=[(s, c)])


def obligations(tier):
    A = {k: ((2,), *v) for k, v in V.items()}
    return [Ob("forward", forward, V), Ob("alone", alone, V), Ob("reverse", reverse, V), Ob("arrays", arrays, A), Ob("broadcast", broadcast, {**A, "e": V["e"], "de": V["de"]}),
            Ob("second", second, V), Ob("circle", circle, {"M": (-20, 20), "e": (0, 0.999)}, free_angles=True)]
