#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONHASHSEED"] = "0"

if __name__ == "__main__":
    from sx import runner
    sys.exit(runner.main(sys.argv[1:]))
