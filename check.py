#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  --  decide one property on /repo's working tree"""
import os, sys
PY = '/opt/venv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['OPENBLAS_NUM_THREADS'] = os.environ['OMP_NUM_THREADS'] = '1'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import importlib
import core

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = core.Check(pid, tier, seed)
    m = importlib.import_module('props.' + pid)
    try:
        m.run(c)
    except core.TlcError as e:
        print('ERROR: the check itself failed: ' + str(e)[-3000:])
        return 2
    return c.finish()

if __name__ == '__main__':
    sys.exit(main())
