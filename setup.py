"""offline setup: nothing has to be built; checks that the tools are there"""
import subprocess, sys

import z3, cvc5

print("z3", z3.get_version_string(), "cvc5", cvc5.__version__ if hasattr(cvc5, "__version__") else "")
subprocess.check_call(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, '/repo'); import salabim, greenlet; print('salabim', salabim.__version__)"])
