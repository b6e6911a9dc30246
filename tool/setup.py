#!/usr/bin/env python3-vt
"""setup_cmd: builds the IR dumper from the committed source"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
print(check.irdump_path())
