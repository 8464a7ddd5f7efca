#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

    run.py C01 [--tier quick|thorough] [--seed N]     run the check
    run.py C01 --replay FILE                          re-run one recorded failure
    run.py setup                                      verify the toolchain

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION
line: it does not.  Exit 2: the check could not be carried out.
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from vlib import main
sys.exit(main(sys.argv[1:]))
