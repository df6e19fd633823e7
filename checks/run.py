#!/usr/bin/env python3
"""Runs the check of one property:  checks/run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: no verdict."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import main  # noqa: E402

main()
