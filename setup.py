#!/usr/bin/env python3
"""Builds the analyser and compiles the dependencies of /repo for analysis."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import common

log = common.analyse([], ["search", "wide", "oriented", "unfold", "text", "cache", "play", "laws"], os.path.join(common.BUILD, "out", "setup"), extra={"STA_CFG": "1"})
print(log[-600:])
