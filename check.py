#!/usr/bin/env python3
import os
import sys
try:
    import z3  # noqa: F401
except ImportError:
    v = '/opt/veriftools/pyvenv/bin/python3'
    if os.path.exists(v) and not os.environ.get('ESYM_REEXEC'):
        os.environ['ESYM_REEXEC'] = '1'
        os.execv(v, [v] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from esym import main  # noqa: E402
sys.exit(main.main(sys.argv[1:]))
