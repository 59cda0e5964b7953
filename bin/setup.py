#!/usr/bin/env python3
"""Builds the harness once, so that a missing tool shows up here."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import Ctx, build
c = Ctx('setup', 'quick', 1)
try: build(c)
finally: c.cleanup()
