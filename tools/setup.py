#!/usr/bin/env python3
"""Checks that the tools the framework needs are there (nothing to build)."""
import subprocess
import sys
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import sys; sys.path.append('
                    '"/opt/veriftools/pyvenv/lib/python3.12/site-packages"); '
                    'import numpy, z3, mpmath; print("numpy", numpy.__version__, "z3", '
                    'z3.get_version_string())'])
sys.exit(r.returncode)
