#!/usr/bin/env python3
"""Verifies that the tools the checks need are there and builds the engine once (each check builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
b = build.Build(print)
print("engine ok")
