#!/usr/bin/env python3
"""Builds the harness once, to show that it builds."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.dont_write_bytecode = True
from core import build_harness
print(build_harness())
from ide import build_ide
print(build_ide())
