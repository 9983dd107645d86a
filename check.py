#!/usr/bin/env python3
"""check.py <property> | check.py --replay <file>: see DESIGN.md."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "drv"))
import core
core.main()
