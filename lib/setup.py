"""Builds the extractor and extracts both configurations once."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
for c in ("debug", "release"):
    g, f = facts.prepare(c)
    print(c, len(f), "files")
