import sys

sys.dont_write_bytecode = True
_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3 not in sys.path:
    sys.path.append(_Z3)  # z3-solver; appended, so torch's own venv wins
