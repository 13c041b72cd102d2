#!/usr/bin/env python3
"""Builds the numeric core and checks that the current tree can be compiled to IR."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import driver
m = driver.prepare()
print('ready: %d functions' % len(m.fns))
