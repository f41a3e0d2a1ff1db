"""Regenerates the `fixed:` lines of KNOWN_FINDINGS.txt from the fix: commits
in /repo (run by hand after each repair; never by a check)."""
import os
import re
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}       # subject (without "fix: ") -> property
for l in open(os.path.join(HERE, "tools", "fixprops.txt")):
    l = l.rstrip("\n")
    if l:
        i, s = l.split(" ", 1)
        PROP[s] = i
log = subprocess.check_output(
    ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
lines = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        assert s in PROP, s
        lines.append("fixed: property=%s %s %s" % (PROP[s], h, s))
path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
old = open(path).read().splitlines() if os.path.exists(path) else []
keep = [l for l in old if l.startswith("finding:") or l.startswith("#")]
open(path, "w").write("\n".join(keep + lines) + "\n")
print(len(keep), "findings/comments,", len(lines), "fixed")
