#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mbt import core, props

if __name__ == '__main__':
    sys.exit(core.main(props.REG[sys.argv[1]]()))
