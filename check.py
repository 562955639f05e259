#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay DIR]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib.runner import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
