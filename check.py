#!/usr/bin/env python3
"""Entry point: check.py C01 [--tier quick|thorough] | --replay FILE."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != '/opt/venv':
  os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from sim import runner  # noqa: E402

if __name__ == '__main__':
  sys.exit(runner.main(sys.argv[1:]))
