#!/usr/bin/env python3
"""usage: check.py PROPERTY   (environment: VERIF_TIER, VERIF_SEED, NVC_REPO)"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.setrecursionlimit(20000)
import framework
sys.exit(framework.main(sys.argv))
