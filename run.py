"""python3 run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONUTF8", "1")
if os.environ.get("PYTHONHASHSEED") != "0" or not sys.flags.utf8_mode:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONUTF8"] = "1"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from acv import runner
sys.exit(runner.main("checks." + sys.argv[1].lower(), sys.argv[2:]))
