#!/usr/bin/env python3
"""check.py <property> [--thorough]"""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, os.path.join(HERE, 'sa', 'props'))
import lib

if __name__ == '__main__':
    prop = sys.argv[1]
    m = importlib.import_module(prop.lower())
    sys.exit(lib.main(prop, m.run))
