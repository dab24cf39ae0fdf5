#!/usr/bin/env python3
"""check.py <property id>: decide one property from /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.check import main

main(sys.argv[1])
