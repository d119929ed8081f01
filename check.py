#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property from /repo's source."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from zkapsa.framework import main  # noqa: E402

main(sys.argv[1:])
