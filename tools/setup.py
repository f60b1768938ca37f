#!/usr/bin/env python3
"""Nothing is compiled; checks that the toolchain the checks use is there."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
for cmd in (['java', '-version'], ['/opt/venv/bin/python', '-c', 'import kwimage, numpy']):
    subprocess.check_call(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
