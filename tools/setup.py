#!/usr/bin/env python3
"""Offline set-up: nothing to install; checks the tools are there and parses the specifications."""
import glob, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ['g++', 'java']:
    if not shutil.which(t):
        sys.exit('missing ' + t)
os.makedirs(os.path.join(V, '.cache'), exist_ok=True)
print('ok')
