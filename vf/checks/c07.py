"""C07: reading an XLSB sheet returns every stored cell, unaltered, in its place (see c06)."""
from __future__ import annotations

import importlib.util
import sys

# a second, independent instance of the C06 driver, bound to the binary writer
_spec = importlib.util.spec_from_file_location("vf.checks._c06_for_c07", __file__.replace("c07.py", "c06.py"))
_m = importlib.util.module_from_spec(_spec)
_m.__package__ = "vf.checks"
_spec.loader.exec_module(_m)
_m.CONTAINER, _m.PAD = "xlsb", True

ID = "C07"
LEVEL = "exploration"
RULE = _m.RULE
ASSUMPTIONS = ["files are written by this framework's BIFF12 writer, checked against the format text, not by Excel",
               "dense, ascending cell order inside rows as Excel writes them"]
plan, required = _m.plan, _m.required
case = _m.case
