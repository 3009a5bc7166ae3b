#!/usr/bin/env python3
"""Checks that the tools the framework needs are there; builds nothing."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
import z3                       # noqa
for f in sorted(os.listdir(HERE)):
    if f.endswith('.py') and f not in ('jyserver.py', 'jyapi.py'):
        with open(os.path.join(HERE, f)) as src:
            compile(src.read(), f, 'exec')
out = subprocess.run(['java', '-version'], capture_output=True)
assert out.returncode == 0, 'no java'
assert os.path.exists('/usr/share/java/jython.jar'), 'no jython'
print('z3', z3.get_version_string(), 'ready')
