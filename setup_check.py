#!/usr/bin/env python3
"""Setup: nothing is compiled; check that the interpreter, the library and the simulator load."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import check
sys.exit(subprocess.call([check.PY, '-c', 'import sys; sys.path.insert(0, %r); import sim.worlds, sim.enc; sim.enc.lib(); print("ok")' % here],
                         env=check.env(1)))
