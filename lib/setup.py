#!/usr/bin/env python3
"""warms the caches (engine, bitcode, native objects); every check can also do without"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib as L
os.makedirs(L.CACHE, exist_ok=True)
L.engine(); g = L.generate(); L.build_bc_lib(g); L.build_nat_lib(g)
print("ready")
