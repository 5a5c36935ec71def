#!/usr/bin/env python3
"""Nothing is built ahead of a check (each check compiles the kernels of /repo's current tree in its own scratch cache); this only looks for what they need"""
import os, subprocess, sys
py = os.environ.get("CDDM_PY", "/opt/venv/bin/python")
r = subprocess.run([py, "-c", "import numpy, numba, scipy, matplotlib; print(numpy.__version__, numba.__version__)"], capture_output=True, text=True)
print(r.stdout.strip(), r.stderr[-500:])
sys.exit(0 if r.returncode == 0 else 1)
