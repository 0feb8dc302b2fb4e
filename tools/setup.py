#!/usr/bin/env python3
"""setup_cmd: compile the Java overrides and compare them with the TLA+ definitions they stand for."""
import os, sys
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import core, shutil
from props import arith
core.classes()
c = core.Check('A01', 'quick', 1)
arith.selftest(c)
shutil.rmtree(c.work)
print('setup ok:', c.notes['override_selftest'])
