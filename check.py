#!/usr/bin/env python3
"""check.py ID: decide one property of properties.jsonl on /repo's working tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vlib


def main():
    pid = sys.argv[1]
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        rc = mod.main()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
