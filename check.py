#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1:] == ['--selftest']:
    from symx.core import z3
    import numpy, pandas
    x = z3.Real('x')
    s = z3.Solver()
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'pandas', pandas.__version__)
    sys.exit(0)
from symx.run import main
main()
