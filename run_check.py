#!/usr/bin/env python
"""Entry point of every check: ``run_check.py <property id> [--tier quick|thorough] [--replay FILE]``.

Exit 0: the property held on every execution observed.  Exit 1 (and a VIOLATION line): an observed
execution broke it.  Exit 3: inconclusive (monitors not reached, watchdog on a busy process).
"""
import os
import sys

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from vlib import env

    env.reexec_if_needed()
    from vlib import core

    sys.exit(core.main(sys.argv[1:]))
