#!/usr/bin/env python3-vt
"""check.py <property id> [--thorough]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading
from wmcheck.check import main

if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    sys.exit(main())
