#!/usr/bin/env python3
"""Builds the MIR driver and the crate's dependencies (offline)."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vlib'))
import rust
B = os.path.join(HERE, 'build')
rust.build_driver(HERE, B)
os.remove(rust.dump(HERE, B, '/repo', 'setup'))
