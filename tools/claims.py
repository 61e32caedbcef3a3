CLAIMED = {
 "C01": ("tm", "Rounding of the code's own arithmetic is outside; a tolerance of 1e-9 is part of the claim."),
 "C21": ("both", "The Green's line integrals are compared with the same Gauss rule on independently derived vector fields; their curls are decided in C23/C20's moments."),
 "C10": ("both", "Quadratures are compared with the same rule on an independently derived integrand (1e-7) and with a finer rule (2e-5)."),
 "C03": ("alg", "The Kepler solver is replaced by its contract (decided by C01/C02)."),
 "C04": ("alg", "The Kepler solver is replaced by its contract (decided by C01/C02)."),
 "C05": ("alg", "The Kepler solver is replaced by its contract (decided by C01/C02)."),
 "C06": ("alg", "The Kepler solver is replaced by its contract (decided by C01/C02)."),
 "C08": ("alg", ""), "C14": ("alg", "The one-occultor flux functions and the Kepler solver are uninterpreted (decided by C01, C02, C09, C10, C17, C20)."),
 "C07": ("alg", "The Kepler solver is replaced by its contract where orbits are involved."),
 "C09": ("alg", ""),
 "C11": ("alg", ""), "C12": ("alg", ""),
 "C13": ("alg", "Values the code forces to be concrete integers are forked over within bounds by the solver."),
 "C15": ("alg", ""), "C16": ("alg", ""), "C17": ("alg", ""), "C18": ("alg", ""),
 "C20": ("alg", "The rotation of a map into the sky frame is an uninterpreted function here (decided by C19)."), "C22": ("alg", ""),
 "C19": ("alg", "JAX's conversion of rotation vectors to Euler angles is an uninterpreted function with its defining property."),
 "C02": ("alg", "The angle the solver returns is arbitrary here (its value is decided by C01)."),
 "C24": ("alg", "Rotations about a general axis are replaced by independent matrices (decided by C19)."),
 "C23": ("alg", "The occultation integrals are an uninterpreted function here (C21); the rotation into the sky frame is decided by C19."),
}
NA = {
 "C25": "the reference code computes on mpmath objects (concrete arbitrary-precision numbers, adaptive mp.quad, data-dependent Python branches): it is neither traceable by JAX nor can its number type "
        "carry symbolic values, so its functions cannot be encoded; what remains (comparing numbers at chosen inputs) would be testing. The production side of each comparison is decided by C18-C23.",
}
