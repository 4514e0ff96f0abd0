#!/usr/bin/env python3
"""Builds the MIR dumper and analyses the current source once, so that checks find a warm cache."""
import sys
from absint import build
print(build.dump()[0])
