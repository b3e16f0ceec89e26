"""usage: check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mudmon.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
