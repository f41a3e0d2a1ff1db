"""Nothing to build: checks that the interpreter can import the harness and
the compiler from /repo's working tree."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from acv import kit, vm, gen, runner  # noqa
try:
    r = kit.compile_src("x := 1\n")
    print("compiler answers:", r.kind)
except Exception as e:      # a broken tree is the checks' business
    print("compiler does not load:", e)
