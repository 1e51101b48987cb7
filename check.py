#!/usr/bin/env python3-vt
"""Usage: check.py <property id> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if __name__ == "__main__":
    from vlib import runner
    sys.exit(runner.run(sys.argv[1], sys.argv[2:]))
