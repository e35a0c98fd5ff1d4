#!/usr/bin/env python3
"""Run the static checks: check.py C01 [C02 ...] (default: all)."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tc.core as core  # noqa: E402


def registry():
    d = {}
    for fn in sorted(os.listdir(os.path.join(HERE, 'tc', 'rules'))):
        if fn.startswith('c') and fn.endswith('.py'):
            m = importlib.import_module('tc.rules.' + fn[:-3])
            d[m.PROP] = m.check
    return d


if __name__ == '__main__':
    if '--selftest' in sys.argv:
        print('%d checks available' % len(registry()))
        sys.exit(0)
    core.main(registry())
