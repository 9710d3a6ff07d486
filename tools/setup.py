#!/usr/bin/env python3
"""Checks that the tools the checks need are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
import common
for c in (['go', 'version'], ['java', '-version']):
    subprocess.run(c, env=common.goenv(), check=True)
assert os.path.exists(common.TLA_CP.split(':')[0])
