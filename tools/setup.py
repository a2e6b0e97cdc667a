#!/usr/bin/env python3
"""builds the harness, the tool and the fast operators once, so that the checks start warm"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
vf.build()
print("ready")
