#!/usr/bin/env python3
"""Nothing to build: check that the interpreters and solvers the checks use are there."""
import subprocess, sys
for cmd in (['/opt/venv/bin/python', '-c', 'import numpy, scipy, autograd'],
            ['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3, cvc5']):
    r = subprocess.run(cmd)
    if r.returncode:
        print('missing:', cmd)
        sys.exit(1)
print('ok')
