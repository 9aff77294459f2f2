#!/usr/bin/env python3
"""Builds every driver once, so that the checks only rebuild what changed."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from checks import CHECKS
for p in CHECKS:
    for part in CHECKS[p]["parts"]:
        part["build"](build)
