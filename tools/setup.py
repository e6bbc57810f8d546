#!/usr/bin/env python3
"""setup_cmd: build the abstract interpreter."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vf
print("engine:", vf.engine())
import rules
print("lint:", rules.mbelint())
