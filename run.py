#!/usr/bin/env python3
"""Entry point of every check.

    run.py C01 --tier quick            run the check of property C01
    run.py C01 --replay FILE           evaluate one saved case again
    run.py --setup                     verify that the tools are there
"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vlib import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
