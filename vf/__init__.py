"""Property-based testing framework for aemcmc (see DESIGN.md)."""
import os
import sys

# Hypothesis lives in the tooling venv (same Python version as /opt/venv)
_hyp = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _hyp not in sys.path:
    sys.path.append(_hyp)
