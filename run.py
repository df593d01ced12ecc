#!/usr/bin/env python3
"""run.py <property id> [--thorough] [--only=component]: run one property's checks."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import check
m = importlib.import_module("props." + sys.argv[1])
sys.exit(check.main(sys.argv[1], m.components(), getattr(m, "LEVEL", "model_checking")))
