#!/usr/bin/env python3
"""Builds the exporter once, so that a broken installation shows before any check."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core
core.build_harness()
