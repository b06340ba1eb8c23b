#!/usr/bin/env python3
"""Checks that the toolchain the checks need is there and builds the drivers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, msg
print(core.build_impls(core.IMPLS))
print(msg.tools())
