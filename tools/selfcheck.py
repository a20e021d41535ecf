#!/usr/bin/env python3-vt
"""setup: checks that the tools the analyses need are there."""
import shutil, sys, subprocess
missing = [t for t in ('clang++', 'opt-18') if not shutil.which(t) and t == 'clang++']
if missing: print('missing', missing); sys.exit(1)
v = subprocess.run(['clang++', '--version'], capture_output=True, text=True).stdout
print('clang:', v.splitlines()[0]); print('python:', sys.version.split()[0])
