#!/usr/bin/env python3
"""Offline setup: compile the TLC module override (also done on demand by every check)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import common  # noqa: E402

print("classes:", common.classes())
