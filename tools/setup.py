#!/usr/bin/env python3
"""Builds what does not depend on /repo, and the drivers."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
vf.java()
vf.pch()
vf.drivers(['erk_driver', 'irk_driver', 'coef_driver', 'obj_driver', 'newton_driver', 'ms_driver', 'det_driver', 'api_driver', 'stab_driver', 'log_driver'])
