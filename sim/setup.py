#!/usr/bin/env python3
"""Builds all C simulators from /repo once, so the checks find their objects in the cache."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
P = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.json")))
for s in sorted({p["sim"] for x in P.values() for p in x["parts"] if p.get("kind", "c") == "c"}):
    print(B.build(s))
