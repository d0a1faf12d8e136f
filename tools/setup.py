#!/usr/bin/env python3
"""Builds the framework from the committed files (every check does so too if it finds it missing)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
try:
    os.makedirs(check.BUILD, exist_ok=True)
    print(check.fresh_build("harness"))
except check.ToolError as e:
    print("ERROR:", e)
    sys.exit(2)
