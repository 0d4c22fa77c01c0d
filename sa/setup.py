"""Builds the MIR driver and the dependencies of /repo for every configuration (the checks redo whatever is missing)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import world
world.build_driver()
for c in world.CONFIGS:
    w = world.load(c)
    print(c, len(w.bodies), 'bodies')
