#!/usr/bin/env python3
"""Builds the IR reader; nothing outside /verif/build is touched."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import ir

print(ir.ensure_tool())
