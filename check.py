#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--seed N] [--replay file]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness.core import main  # noqa: E402

sys.exit(main())
