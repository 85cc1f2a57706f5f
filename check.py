#!/usr/bin/env python3
"""python3 check.py <property id> [--thorough] | <property id> --replay FILE"""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import runner
runner.main(sys.argv[1:])
