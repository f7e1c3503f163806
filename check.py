#!/usr/bin/env python3-vt
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dv.run import main
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(main(sys.argv[1], tier))
