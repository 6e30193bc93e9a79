#!/usr/bin/env python3
"""check.py C01 [--thorough] [--cases N] [--replay FILE]"""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__":
    prop = sys.argv[1]
    from vmon import runner
    sys.exit(runner.main(prop, "vmon.props." + prop.lower(), sys.argv[2:]))
