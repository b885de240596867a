#!/usr/bin/env python3
"""Offline setup: nothing to install; verifies that the tools the checks need are present."""
import shutil, os, sys
for t in ("g++", "python3"):
    if not shutil.which(t): sys.exit("missing " + t)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"), exist_ok=True)
