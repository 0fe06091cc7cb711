"""setup_cmd: nothing is compiled; verify that the harness can start."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib

with vlib.scratch() as base:
    vlib.write_files(base, {"s.py": "print(1)\n"})
    res = vlib.pool(1).now(base, "run", "--content-engine", "plain", "s.py")
    print(res)
    vlib.pool().close()
sys.exit(0)
