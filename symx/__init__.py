"""symx: symbolic execution of real numpy/xarray code over z3 terms."""
import sys as _sys
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
  import z3 as _z3  # noqa: F401
except ImportError:
  # Only z3 is wanted from there: everything else is imported from /opt/venv
  # first because the path goes at the END of sys.path.
  _sys.path.append(_VT)
  import z3 as _z3  # noqa: F401
  _sys.path.remove(_VT)
