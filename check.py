#!/opt/venv/bin/python
"""Entry point of all checks.

  check.py run C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  check.py replay FILE
  check.py determinism [C01 ...] [--runs N]
  check.py setup
"""

import os
import sys

if os.environ.get("PYTHONHASHSEED") != os.environ.get("VERIF_HASHSEED", "0"):
    os.environ["PYTHONHASHSEED"] = os.environ.get("VERIF_HASHSEED", "0")
    os.execv(sys.executable, [sys.executable, *sys.argv])
# C17 has freed memory overwritten
if "C17" in " ".join(sys.argv[2:]).upper() and os.environ.get("PYTHONMALLOC") != "debug":
    os.environ["PYTHONMALLOC"] = "debug"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import cli  # noqa: E402

sys.exit(cli.main(sys.argv[1:]))
