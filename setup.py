#!/usr/bin/env python3
"""Builds the IR dump tool (idempotent, offline)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bsa import build
print(build.ensure_tool())
