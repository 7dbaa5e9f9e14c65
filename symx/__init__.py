"""Symbolic execution of jaxprs (the IR of the real bartz code) over z3."""
import os
import sys

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)  # at the end: only z3/cvc5 come from there
_SRC = os.environ.get('BARTZ_SRC', '/repo/src')
if _SRC not in sys.path:
    sys.path.insert(0, _SRC)  # the working tree, whatever is installed
