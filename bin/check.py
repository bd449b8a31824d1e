#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.runner import main  # noqa: E402

sys.exit(main())
