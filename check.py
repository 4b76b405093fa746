#!/usr/bin/env python3
"""Entry point of every check: check.py <property> [--tier quick|thorough] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gsim import boot  # noqa: E402

boot.reexec()

from gsim import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
