#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on the current tree of /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, checks

if __name__ == "__main__":
    prop = sys.argv[1]
    vlib.main(prop, getattr(checks, prop))
