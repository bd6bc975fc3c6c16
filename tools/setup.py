#!/usr/bin/env python3
"""Compiles all drivers once so that checks start from a warm object cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

seen = set()
for pid in sorted(CHECKS):
    for part in CHECKS[pid]["parts"]:
        name = os.path.basename(part["driver"])[:-3]
        key = (name, part["kind"], part.get("variant"), part.get("profiler"), str(part.get("defines")), str(part.get("flags")))
        if key in seen:
            continue
        seen.add(key)
        if part["kind"] == "mc":
            vbuild.build_mc(name, part["driver"], part.get("profiler", False), part.get("defines", ()))
        else:
            vbuild.build_enum(name, part)
        print("built", name, flush=True)
