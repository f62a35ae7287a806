#!/opt/venv/bin/python
"""Decide one property of mpnum by deterministic simulation.

    check.py C01                 search (VERIF_TIER, VERIF_SEED)
    check.py C01 --replay FILE   re-execute a recorded violation
    check.py C01 --digests N     print the digests of the first N episodes
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
_PY = '/opt/venv/bin/python'
if not os.environ.get('VERIF_CHILD'):
    os.environ['VERIF_CHILD'] = '1'
    _exe = _PY if os.path.exists(_PY) else sys.executable
    os.execv(_exe, [_exe, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

if __name__ == '__main__':
    from sim import driver
    sys.exit(driver.main(sys.argv[1:]))
