#!/opt/venv/bin/python
"""run.py --property C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OMP_NUM_THREADS", "1")
from pkverif.common import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main())
