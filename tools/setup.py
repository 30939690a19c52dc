#!/usr/bin/env python3-vt
"""Builds the MIR driver and the first dump, so that the checks find them ready."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'analysis'))
sys.dont_write_bytecode = True
import build
try:
    print(build.dump())
except build.BuildFailed as e:
    print(e)
    sys.exit(1)
