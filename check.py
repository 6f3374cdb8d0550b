#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(core.main(sys.argv[1].lower(), tier, int(os.environ.get('VERIF_SEED', '1'))))
