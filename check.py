#!/opt/venv/bin/python
"""check.py <PROPERTY> [quick|thorough] [-v] [--only=<task substring>]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import env  # noqa: E402,F401
from vlib import driver  # noqa: E402

if __name__ == "__main__":
    rc = driver.main(sys.argv[1], sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
