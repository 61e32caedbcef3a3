"""writes properties.jsonl (the statements live here so that they can be edited with ease)"""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=["src/jaxoplanet/" + f for f in files],
                               mechanism=[dict(name=n, where="src/jaxoplanet/" + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "The Kepler solver returns the true anomaly of Kepler's equation",
  "For every mean anomaly and every eccentricity in [0, 1), the solver returns the sine and cosine of the true anomaly belonging to the eccentric anomaly E that satisfies E - e sin E = M (mod 2 pi), including the quadrant, to the accuracy of its refinement step. The result is periodic in M and odd/even in the reflection M -> -M.",
  "every mean anomaly (several turns, both signs) and every eccentricity in the stated range",
  "the tests sample a grid of a few hundred (M, e) pairs; a wrong branch or starter constant hits a thin slice of the plane",
  ["core/kepler.py"], [("starter", "core/kepler.py:starter"), ("refine", "core/kepler.py:refine"), ("wrapping", "core/kepler.py:_kepler")],
  observe=["jaxoplanet.core.kepler.kepler"])
p("C02", "Derivatives of the Kepler solver equal the implicit derivatives",
  "The forward derivatives of the Kepler solver with respect to mean anomaly and eccentricity equal the derivatives of the true anomaly defined implicitly by Kepler's equation, for every mean anomaly and eccentricity in [0, 1).",
  "every (M, e), every tangent direction", "tests compare against finite differences at a handful of points",
  ["core/kepler.py"], [("custom JVP rule", "core/kepler.py:kepler_jvp")], observe=["jax.jvp of jaxoplanet.core.kepler.kepler"])
p("C03", "Orbital velocities are the time derivatives of positions",
  "For every set of orbital elements, time and parameterization, the velocity of the body, the velocity of the central object and their relative velocity equal the exact time derivatives of the corresponding positions, in the same frame and in consistent units.",
  "every element set (eccentric and circular, with and without longitude of node, each combination of size/shape parameters), every time",
  "tests check a few orbits at fixed times by finite differences",
  ["orbits/keplerian.py"], [("position and velocity from the same elements", "orbits/keplerian.py:OrbitalBody._get_position_and_velocity"), ("velocity amplitude", "orbits/keplerian.py:OrbitalBody.velocity")])
p("C04", "Transit and periastron times place the body at conjunction and periastron",
  "At the reference transit time of any orbit the body is at inferior conjunction: in front of the central object, with zero projected offset along the line of nodes, and with projected separation equal to the stated impact parameter times the stellar radius. At the time of periastron the separation is a(1-e) and a minimum; transit and periastron times are mutually consistent whichever was given, and everything repeats with the period.",
  "every element set and every way of specifying the epoch",
  "tests use a few orbits; special angles (omega exactly +-90 degrees) are not sampled",
  ["orbits/keplerian.py"], [("true/eccentric anomaly at transit", "orbits/keplerian.py:OrbitalBody.__init__"), ("periastron time", "orbits/keplerian.py")])
p("C05", "Orbits obey Kepler's laws",
  "For every orbit, the relative trajectory lies on the ellipse of the given semi-major axis and eccentricity with the central object in its focus, sweeps equal areas in equal times, and conserves angular momentum and energy. Period, semi-major axis and total mass are related by Kepler's third law, whichever of them were given, and the mass, radius and density of the central object are consistent with each other.",
  "every element set, every time, every combination of the defining parameters accepted by the constructors",
  "tests check the third law for one or two systems", ["orbits/keplerian.py"],
  [("parameter derivation", "orbits/keplerian.py:Central.__init__"), ("parameter derivation", "orbits/keplerian.py:OrbitalBody.__init__"), ("Kepler's third law", "orbits/keplerian.py:OrbitalBody.semimajor")])
p("C06", "Barycentric frame, viewing geometry, radial velocity and parallax are consistent",
  "Relative position and velocity equal body minus central, the centre of mass stays at rest at the origin, and the angle between orbital plane and sky, the ascending node and the argument of periastron appear in the sky-plane coordinates as defined. The radial velocity of the central object equals the line-of-sight component of its velocity with the documented sign, has semi-amplitude K as given or implied by the masses, and positions given a parallax are the same vectors expressed as angles.",
  "every element set, mass ratio, parallax and time", "tests check one or two systems against other packages at sampled times",
  ["orbits/keplerian.py"], [("rotation to the observer's frame", "orbits/keplerian.py:OrbitalBody._rotate_vector"), ("mass weights", "orbits/keplerian.py:OrbitalBody.central_position"), ("radial velocity", "orbits/keplerian.py:OrbitalBody.radial_velocity")])
p("C07", "Mapping over the bodies of a system equals applying the function to each body",
  "Mapping a function over a stack of objects gives, for every combination of mapped and unmapped argument axes and output axis, exactly the stacked results of calling it on each object with its slice of the arguments, whether or not the objects have the same structure. The positions, velocities and radial velocities of a system equal, body by body and time by time, those of each body alone, however the system was assembled.",
  "every numeric content, system assembly, axis specification", "tests use one or two systems and default axes",
  ["object_stack.py", "orbits/keplerian.py"], [("vmap or loop", "object_stack.py:ObjectStack.vmap"), ("body map", "orbits/keplerian.py:System.body_vmap")], over=("inputs", "programs"))
p("C08", "Results do not depend on the units in which inputs are given",
  "Supplying an input as a quantity in any compatible unit, or as a plain number in the documented default unit, gives the same physical result; the decorated functions hand their body the converted value and raise on incompatible dimensions. Unit-carrying fields of structured inputs are converted leaf by leaf.",
  "every numeric value, every compatible unit, positional and keyword passing", "tests use a few values and units",
  ["units/decorator.py", "units/field.py", "units/registry.py"], [("conversion on call", "units/decorator.py:QuantityInput.__call__"), ("conversion on assignment", "units/field.py:field"), ("constants", "units/astro_constants_and_units.txt")], over=("inputs", "configurations"))
p("C09", "Limb-darkened flux is exact outside, inside and at the contact points",
  "For every limb-darkening coefficients, the relative flux change is zero when the bodies do not overlap, -1 when the source is completely covered, finite at and across every contact (also for equal sizes and central alignment), and depends only on the magnitude of the impact parameter.",
  "every impact parameter, radius ratio and coefficient vector", "tests sample few radius ratios and rarely the exact contact points",
  ["core/limb_dark.py"], [("contact cases", "core/limb_dark.py:solution_vector"), ("kappas", "core/limb_dark.py:kappas")])
p("C10", "Limb-darkened flux equals the integral of the intensity over the visible disk",
  "For partial overlap and full transits, the relative flux change equals the integral of the normalised polynomial limb-darkening intensity over the occulted part of the source disk, to the accuracy of the quadrature, and it is linear in the normalised basis coefficients obtained from the limb-darkening coefficients.",
  "every impact parameter and radius ratio in the stated ranges, polynomial orders up to the stated one",
  "tests only compare low orders at sampled points with the same formula or another package",
  ["core/limb_dark.py"], [("Green's basis change", "core/limb_dark.py:greens_basis_transform"), ("s0, s2", "core/limb_dark.py:s0s2"), ("line integral", "core/limb_dark.py:p_integral")])
p("C11", "Transit-parameterised orbits reproduce their period, duration, depth geometry",
  "For every period, duration or speed, transit time, impact parameter and radius ratio, the projected separation at the reference time is the impact parameter, the body is in front exactly while within half a duration of a transit time and then moves uniformly along a chord, contact (separation equal to one plus radius ratio) happens exactly half a duration from mid-transit, and the motion repeats exactly with the period. Giving the duration or the equivalent speed yields the same orbit.",
  "every parameter value and time within several periods", "tests use one parameter set",
  ["orbits/transit.py"], [("phase folding", "orbits/transit.py:TransitOrbit.relative_position"), ("chord", "orbits/transit.py:TransitOrbit.__init__")])
p("C12", "Transit timing variations place every transit at its stated time",
  "For an orbit with transit timing variations, at each listed transit time the body is at mid-transit (in front of the star, at the impact parameter), times near each transit are shifted rigidly by that transit's offset, and times beyond the first or last transit use the nearest transit's offset. Given transit times, the reference time, period and residuals are those of the least-squares line; given residuals, the transit times are the linear ephemeris plus the mean-subtracted residuals.",
  "every list of transit times or residuals within the stated sizes, every query time", "tests hardly exercise timing variations",
  ["orbits/ttv.py"], [("least squares", "orbits/ttv.py:_compute_linear_ephemeris_single"), ("time bins", "orbits/ttv.py:_compute_bin_edges_values_single"), ("warp", "orbits/ttv.py:TTVOrbit._warp_times")])
p("C13", "Expected transit times are exactly the ephemeris times inside the window",
  "The list of expected transit times of every planet contains every time t0 + n P, n integer, inside the closed window, once each and in increasing order, and nothing else.",
  "every window, period and reference time within the stated number of transits", "no test covers it",
  ["orbits/ttv.py"], [("index range", "orbits/ttv.py:compute_expected_transit_times")])
p("C14", "Light curves combine geometry and flux per body and per time",
  "The light curve of an orbit at a time equals the limb-darkened flux change at that body's projected separation and radius in units of the stellar radius when the body is in front of the star, and zero when it is behind; several bodies and arrays of times give exactly the per-body, per-time values. Emission and surface light curves apply the same rule with the roles of occultor and source exchanged for secondary eclipses, and total fluxes add up.",
  "every orbit parameters, times, limb darkening, number of bodies within the stated bounds", "tests sample a few systems and compare two code paths that share the defect",
  ["light_curves/limb_dark.py", "light_curves/emission.py", "starry/light_curves.py"], [("gating", "light_curves/limb_dark.py:light_curve"), ("emission", "light_curves/emission.py:light_curve")])
p("C15", "Exposure-time integration is the documented quadrature of the light curve",
  "The exposure-integrated light curve at a time equals the weighted mean of the underlying function at times spanning exactly one exposure centred on that time, with weights that are positive, sum to one and follow the midpoint, trapezoid or Simpson rule of the stated order; constant and linear light curves are reproduced exactly, quadratics and cubics exactly for Simpson's rule. Scalar or array times and extra arguments are passed through unchanged.",
  "every time, exposure time, every sample count and order within bounds, every underlying polynomial", "tests compare one light curve per order at a loose tolerance",
  ["light_curves/transforms.py"], [("stencil", "light_curves/transforms.py:integrate")], over=("inputs", "configurations"))
p("C16", "Interpolated light curves are the periodic linear interpolant of the original",
  "The interpolated light curve equals the original at every grid time and at all its periodic repetitions, is linear in between, stays within the range of neighbouring grid values, and is periodic with the period for every input time; outside the pre-computed window it stays between the values at the window's ends.",
  "every time, period, reference time, duration and grid size within bounds, arbitrary grid values", "no test covers it",
  ["light_curves/transforms.py"], [("folding and interpolation", "light_curves/transforms.py:interpolate")])
p("C17", "Vectorised light-curve functions apply the scalar function element by element",
  "Evaluating a light-curve function on an array of times of any shape gives, at each element, the value for that scalar time, with leading axes those of the time array, and with extra arguments passed unchanged.",
  "every array content and shapes up to rank 3", "tests use 1-d arrays",
  ["light_curves/utils.py"], [("nested map", "light_curves/utils.py:vectorize")])
p("C18", "Surface-map basis changes preserve the function on the disk",
  "The conversions between spherical harmonics, polynomial basis, Green's basis and polynomial limb darkening represent the same intensity at every point of the visible disk, and products of polynomial-basis maps are the pointwise products.",
  "every coefficient vector and every point of the disk, degrees up to the stated bound", "tests compare matrix entries with stored values for a few degrees",
  ["starry/core/basis.py", "starry/core/polynomials.py"], [("A1", "starry/core/basis.py:A1"), ("A2", "starry/core/basis.py:A2_inv"), ("limb darkening", "starry/core/basis.py:U"), ("products", "starry/core/polynomials.py")])
p("C19", "Rotating a map rotates the intensity on the sphere",
  "Rotating a map about an axis by an angle gives the map whose intensity at a point p is the original intensity at R p, R being the right-handed rotation by the angle about the axis (of any length); rotations keep the norm of every degree and the opposite angle undoes them. left_project gives the map as seen on the sky for its inclination, obliquity, phase and the position angle of the occultor, right_project is its inverse, full_rotation_axis_angle is the axis and angle of the whole rotation, however small, and fast_direct_left_project the rotation with these. Surface.intensity(lat, lon) is the amplitude times the intensity at that place of the surface, whatever its inclination and obliquity.",
  "every coefficient vector, axis and angle, degrees up to the stated bound", "tests sample a few axes and angles",
  ["starry/core/rotation.py", "starry/core/s2fft_rotation.py", "starry/surface.py"], [("axis-angle", "starry/core/rotation.py:full_rotation_axis_angle"), ("projection", "starry/core/rotation.py:left_project"), ("any axis", "starry/core/s2fft_rotation.py"), ("places on the surface", "starry/surface.py:Surface.intensity")])
p("C20", "Unocculted surface flux equals the intensity integrated over the visible disk",
  "Without occultation, the flux of a map at a rotational phase and orientation equals the integral over the visible disk of the intensity of the rotated, limb-darkened map times its amplitude.",
  "every map, limb darkening, orientation and phase, degrees up to the stated bound", "tests sample a few maps",
  ["starry/light_curves.py", "starry/core/solution.py"], [("rotation solution", "starry/core/solution.py:rT")])
p("C21", "Occulted surface flux equals the intensity integrated over the unocculted disk",
  "With an occultor at any position, the flux of a map is the integral of its intensity over the part of the visible disk not covered by the occultor: nothing changes without overlap, it vanishes when the disk is completely covered, and it is linear in the map.",
  "every occultor position and size in the stated ranges, degrees up to the stated bound", "tests sample few positions and compare with the package's own reference code",
  ["starry/core/solution.py", "starry/light_curves.py"], [("solution vector", "starry/core/solution.py:solution_vector")])
p("C22", "Spherical-harmonic containers store, combine and index coefficients faithfully",
  "The coefficients of a map survive conversion between dictionary, dense and indexed form in the documented order, normalisation divides every coefficient by the constant one, scaling multiplies every coefficient, and the product of two maps is the pointwise product of the functions they represent in orthonormal real harmonics.",
  "every coefficient vector up to the stated degree, every index set", "tests use a few fixed coefficient sets",
  ["starry/ylm.py"], [("container", "starry/ylm.py:Ylm")])
p("C23", "Radial-velocity anomaly is the flux-weighted line-of-sight velocity",
  "The radial-velocity anomaly of a rotating surface equals the intensity-weighted mean of the line-of-sight rotation velocity over the visible disk (with one occultor: over its unocculted part), including differential rotation; it is proportional to the equatorial velocity, vanishes for a uniform unocculted or non-rotating star, and does not depend on the overall brightness of the map.",
  "every map, inclination, obliquity, shear and occultor position in bounds", "tests for it are skipped or sample single values",
  ["starry/doppler.py"], [("velocity map", "starry/doppler.py:rv_map_expansion"), ("weighted mean", "starry/doppler.py:surface_radial_velocity")])
p("C24", "Spot expansions have the requested contrast, size and position",
  "A spot map is the uniform map of unit level plus the contrast times the smoothed, regularised least-squares Legendre expansion of the documented sigmoid profile (-1 inside the radius, 0 outside) sampled at equal angles; it is axially symmetric about the direction of the requested latitude and longitude, which is the place Surface.intensity(lat, lon) refers to, and linear in the contrast.",
  "every contrast, radius and position in bounds", "tests sample single spots",
  ["starry/ylm.py"], [("spot profile", "starry/ylm.py:spot_profile"), ("spot", "starry/ylm.py:ylm_spot"), ("expansion", "starry/ylm.py:Bp")])
p("C25", "High-precision reference code agrees with the production code",
  "The arbitrary-precision reference implementation gives the same basis matrices, rotations and fluxes as the production code for every input.",
  "every input, degrees up to the stated bound", "tests sample a few inputs", ["starry/multiprecision/"],
  [("reference implementation", "starry/multiprecision/")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
