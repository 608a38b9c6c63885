#!/usr/bin/env python3-vt
"""checks that the tools the framework calls are there and warms the build of idlc"""
import sys, os, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import build
import z3
for t in ('cargo', 'rustc', 'clang', 'clang++', 'gcc', 'g++', 'javac', 'java', 'verus', 'cargo-kani'):
    if not shutil.which(t):
        print('missing tool:', t)
try:
    build.idlc('debug')
    print('idlc built; z3', z3.get_version_string())
except build.BuildError as e:
    print(str(e)[-800:])
