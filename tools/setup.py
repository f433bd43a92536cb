#!/usr/bin/env python3
"""Builds the runners once, so that the first check finds them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import run
for v in ('plain', 'asan'):
    print(run.build(v))
