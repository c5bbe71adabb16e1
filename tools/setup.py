#!/usr/bin/env python3
"""Nothing is installed; confirms the tools the checks need answer."""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import runner
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
p = subprocess.run([runner.verus_bin(), '--version'], capture_output=True, text=True)
print(p.stdout)
sys.exit(0 if p.returncode == 0 else 1)
