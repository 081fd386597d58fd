#!/usr/bin/env python3
"""Build the MIR driver and the dependencies' metadata (offline)."""
import os
import shutil
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import base

try:
    d = base.extract()
    print('facts extracted:', ', '.join(sorted(os.listdir(d))))
    shutil.rmtree(d)
except base.SetupError as e:
    # a broken working tree is reported by the checks, the framework itself is built
    print(e)
    base.driver()
