"""Builds the IR dumper once (checks rebuild it themselves when it is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import build
print('ready:', build.irdump_bin(None))
