#!/usr/bin/env python3-vt
"""run.py <property> [quick|thorough]: decide one property for the current /repo tree"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    m = importlib.import_module('props.' + pid.lower())
    sys.exit(m.main(tier))


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    main()
