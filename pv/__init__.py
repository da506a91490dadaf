"""Symbolic execution of the real pyotf code and proof of its contracts."""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
