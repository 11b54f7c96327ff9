#!/usr/bin/env python3
"""Nothing is prebuilt: checks compile /repo themselves. This only verifies the tools."""
import subprocess, sys, os
for t in (['cbmc', '--version'], ['goto-cc', '--version'], ['goto-instrument', '--version'], ['gcc', '--version']):
    subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
print('ok')
