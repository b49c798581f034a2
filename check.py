#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree."""
import importlib
import os
import shutil
import sys
if os.environ.get('PYTHONHASHSEED') != '0':        # same order of exploration on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
import core


def main():
    prop = sys.argv[1]
    ctx = core.Ctx(prop)
    try:
        m = importlib.import_module(prop.lower())
        return m.run(ctx)
    except core.Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
