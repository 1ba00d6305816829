#!/usr/bin/env python3
"""Builds the fact extractor and warms the caches (reference code of every witness suite, dependencies)."""
import os, sys, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pegcheck import build, checks
t = time.time()
build.driver()
for p in sorted(checks.ALL):
    r = subprocess.run([sys.executable, os.path.join(build.VERIF, 'check.py'), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout.strip().splitlines()[-1] if r.stdout.strip() else '?')
print('setup: %.0fs' % (time.time() - t))
