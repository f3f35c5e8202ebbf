#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]: decide one property of /repo against its TLA+ specification."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
from checks import CHECKS
if __name__ == "__main__":
    vf.main(CHECKS)
