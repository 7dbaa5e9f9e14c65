"""Check that the tools are there (nothing is built: the checks trace /repo's current source at every run)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import symx  # noqa: F401,E402
import jax  # noqa: E402
import z3  # noqa: E402

print('jax', jax.__version__, 'z3', z3.get_version_string())
