#!/usr/bin/env python3-vt
"""setup: the tools are there, the contracts import, and the verifier refutes planted wrong bodies (engine sanity)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import z3, cvc5
import contracts.all
from pydv.engine import CONTRACTS
print("z3", z3.get_version_string(), "contracts", len(CONTRACTS))
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, numba, jax"], capture_output=True, text=True)
print("runtime ok" if r.returncode == 0 else r.stderr)
sys.exit(r.returncode)
