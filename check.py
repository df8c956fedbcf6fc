#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from tnsa.core import main  # noqa: E402
sys.exit(main(sys.argv))
