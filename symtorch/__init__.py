import os, sys

# z3's Python bindings come from the pre-installed tooling venv (same
# interpreter version); appended so that torch's numpy stays first.
_Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3 not in sys.path:
    sys.path.append(_Z3)
