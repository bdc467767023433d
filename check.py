#!/usr/bin/env python3
"""check.py setup | check.py <PROPERTY> [quick|thorough] | check.py replay <file>"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import run
run.main(sys.argv[1:])
