#!/opt/venv/bin/python
"""Run the check of one property: run.py C04."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))

if __name__ == '__main__':
    pid = sys.argv[1]
    if '--thorough' in sys.argv[2:]:
        os.environ['VERIF_TIER'] = 'thorough'
    import boot  # noqa: F401  (first: it decides which tree is checked)
    import vlib

    module = importlib.import_module(pid.lower())
    vlib.main(pid, module.run)
