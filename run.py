"""python3-vt run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import pbt  # noqa: E402

sys.exit(pbt.main(sys.argv[1:]))
