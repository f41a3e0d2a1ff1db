"""Run in a fresh process: compiles the programs of a job file in one of
several ways and writes what came out.  Usage: detworker.py JOB RESULT"""
import os
import pickle
import random
import shutil
import sys
import tempfile
import traceback


def main():
    with open(sys.argv[1], "rb") as f:
        job = pickle.load(f)
    sys.dont_write_bytecode = True
    sys.path.insert(0, job["repo"])
    sys.setrecursionlimit(6000)
    import warnings
    warnings.filterwarnings("ignore")
    mode = job["mode"]
    rng = random.Random(job["seed"])
    if job.get("listdir"):
        real = os.listdir
        realscan = os.scandir

        def listdir(*a):
            x = sorted(real(*a))
            if job["listdir"] == "reverse":
                x.reverse()
            else:
                rng.shuffle(x)
            return x
        os.listdir = listdir
    if job.get("ballast"):
        # other objects at other addresses
        keep = [object() for _ in range(rng.randint(1, 100000))]
        keep2 = {object(): 1 for _ in range(rng.randint(1, 999))}
    import acaciamc.compiler as comp
    import acaciamc.error as err
    assert os.path.realpath(comp.__file__).startswith(
        os.path.realpath(job["repo"]) + os.sep)
    out = {}

    def tree(d):
        res = {}
        for root, dirs, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, d)] = fh.read()
        return res

    def guard(pid, fn):
        try:
            return fn()
        except err.Error as e:
            try:
                return ("error", e.full_msg())
            except Exception:
                return ("crash", traceback.format_exc(limit=-3))
        except Exception:
            return ("crash", traceback.format_exc(limit=-3))

    def make(p):
        path = os.path.join(p["dir"], p["main"])
        if mode == "relative":
            os.chdir(p["dir"])
            path = p["main"]
        return comp.Compiler(path, comp.Config(**p["cfg"]))

    def dump(c):
        o = tempfile.mkdtemp(dir=job["tmp"])
        try:
            c.output(o)
            return ("ok", tree(o))
        finally:
            shutil.rmtree(o, ignore_errors=True)

    def record(pid, r):
        out.setdefault(pid, []).append(r)
    progs = job["programs"]
    if mode == "interleaved":
        made = []
        for p in progs:
            box = []
            r = guard(p["id"], lambda: box.append(make(p)) or None)
            if r is None:
                made.append((p["id"], box[0]))
            else:
                record(p["id"], r)
        rng.shuffle(made)
        for pid, c in made:
            record(pid, guard(pid, lambda: dump(c)))
    else:
        for p in progs:
            record(p["id"], guard(p["id"], lambda: dump(make(p))))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


main()
