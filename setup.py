#!/usr/bin/env python3
"""setup_cmd: builds the drivers once (every check rebuilds them from /repo)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import kv, layouts, random
layouts.write([], random.Random(1))  # the layouts of a check are generated by it
for name in sorted(os.listdir(os.path.join(kv.VERIF, "driver"))):
    path, secs = kv.build_driver(name)
    print("built", path, "in %.1fs" % secs)
path, secs = kv.build_tools()
print("built the tools in %.1fs" % secs)
