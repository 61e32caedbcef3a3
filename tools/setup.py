"""smoke test: the solver, the engine and the code under test can be loaded"""
import os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
from jsym import smt, interp, poly, ival, ob, cuts  # noqa
import z3
import jaxoplanet
print("z3", z3.get_version_string(), "jaxoplanet", jaxoplanet.__file__)
