"""C09: determinism.

Workload: batches of programs of the other checks (with modules, libraries,
configurations, refused ones among them) compiled in fresh processes that
differ in hash seed, working directory, order of directory entries, order and
repetition of the compilations, interleaving of two compilations' phases,
address layout, -O, locale and time zone.  Monitor: for every program all the
output trees (or the diagnostics) are the same bytes."""
import os
import pickle
import random
import shutil
import subprocess
import sys

from acv import hostile, kit, runner, universal

PROPERTY = "C09"
RULE = ("one evaluation = one output tree (or diagnostic) of a program "
        "compared with the one of the reference process; non-trivial = the "
        "tree has a command, distinct by source, options and environment")
ASSUME = ["the sources are at the same path in all the processes compared"]
LEVEL = "exploration"
MIN = {"programs": 300, "processes": 150, "trees": 1500, "hashseeds": 100,
       "modules": 20}
BATCH = 9
CASE_LIMIT = 240

FIXED = [
    # many names in sets and dicts: virtual methods, templates, groups
    {"main.aca": "".join(
        "entity E%d%s:\n    new():\n        %s\n    %s def m() -> int:\n"
        "        /say %d\n        result %d\n" % (
            i, " extends E%d" % ((i - 1) // 2) if i else "",
            'new(type="pig", pos=Pos(0, 0, 0))' if not i
            else "E%d.new()" % ((i - 1) // 2),
            "override" if i else "virtual", i, i) for i in range(9))
        + "x := 0\n" + "".join("e%d: E0 = E%d()\nx += e%d.m()\n" % (i, i, i)
                               for i in range(9))
        + "g := Engroup[E0]()\n" + "".join("g.add(e%d)\n" % i
                                           for i in range(9))
        + "for e in g:\n    x += e.m()\n"},
    # a module in two languages, and nested packages
    {"main.aca": "import m\nimport p.q as q\nfrom p.r import *\n/say ${m.v} ${q.v}\nf()\n",
     "m.aca": "const v = 1\n/say m\n",
     "m.py": "from acaciamc.tools import axe\nfrom acaciamc.objects import *\n"
     "from acaciamc.mccmdgen.mcselector import MCSelector\n"
     "def acacia_build(compiler):\n    return {\"v\": String(\"py\")}\n",
     "p/q.aca": "const v = 2\nx := 3\n",
     "p/r.aca": "def f():\n    /say f\nconst b = 1, a = 2, d = 3, c = 4\n"
     "y := 2\n"},
    # functions that call each other, many shared pieces for the optimizer
    {"main.aca": "x := 0\n" + "".join(
        "def f%d(a: int) -> int:\n    if a > %d:\n        x += a\n%s"
        "    result a + %d\n" % (i, i, "".join(
            "        f%d(a)\n" % j for j in range(max(0, i - 3), i)), i)
        for i in range(12)) + "".join(
            "interface i%d:\n    f%d(x)\n" % (i, i) for i in range(0, 12, 2))
        + "f11(x)\n"},
    # structs with several bases, maps and lists
    {"main.aca": "".join("struct S%d:\n    a%d: int\n    b%d: bool\n" % (
        i, i, i) for i in range(6)) + "struct D extends S5, S3, S0, S1, S4:\n"
     "    z: int\nd := D()\ne := D()\nd = e\nswap(d, e)\n"
     "const m = {\"a\": 1, \"b\": 2, True: 3, 4: 5}\n"
     "for k in m:\n    /say ${m[k]}\nscb(\"q\", \"obs\") = d.z\n"},
    # the library's own state
    {"main.aca": "import schedule\nimport world\nimport print\n"
     "def f():\n    /say f\ndef g(a: int):\n    print.tell(print.format("
     "\"%0\", a))\nconst t = schedule.Task(f), u = schedule.Task(g, 3)\n"
     "t.after(10)\nu.after(5)\nschedule.register_loop(f, interval=3)\n"
     "y := world.is_block(Pos(0, 0, 0), \"stone\")\n"},
    {"main.aca": "/say hi\nx := undefined_name\n"},
    {"main.aca": "struct A:\n    x: int\n    x: bool\n"},
]


def cases(tier, seed):
    n = 300 if tier == "quick" else 5000
    src = [m for m in universal.SOURCES] + ["c13", "c13", "c13", "c21", "c25"]
    pool = list(dict.fromkeys(universal.pool(seed, "C09", n, only=src)))
    pool += [("hostile", s) for s in runner.spread(
        seed, "C09h", 16 if tier == "quick" else 300)]
    pool += [("fixed", i) for i in range(len(FIXED))] * (
        1 if tier == "quick" else 4)
    random.Random("%s/C09" % seed).shuffle(pool)
    return [(seed, i, tuple(pool[i:i + BATCH]))
            for i in range(0, len(pool), BATCH)]


def programs(item):
    if item[0] == "fixed":
        return [(FIXED[item[1]], "main.aca", {}),
                (FIXED[item[1]], "main.aca", {"optimizer": False,
                                              "debug_comments": True})]
    if item[0] == "hostile":
        h = hostile.make(item[1])
        return [(h if isinstance(h, str) else h[0], "main.aca", {})]
    return universal.harvest(item[1], item[2], 1)


def run_case(case, mon):
    seed, number, items = case
    r = random.Random("%s/%s/C09" % (seed, number))
    base = kit.fresh_dir("det")
    try:
        progs = []
        for item in items:
            for src, main, cfg in programs(item):
                if isinstance(src, str):
                    src = {main: src}
                if not all(isinstance(t, str) for t in src.values()):
                    continue
                d = os.path.join(base, "p%d" % len(progs))
                os.mkdir(d)
                kit.write_tree(d, src)
                progs.append(dict(id=len(progs), dir=d, main=main,
                                  cfg=dict(cfg), src=src))
        mon.count("programs", len(progs))
        mon.count("modules", sum(len(p["src"]) > 1 for p in progs))
        fresh = [dict((k, v) for k, v in p.items() if k != "src")
                 for p in progs]
        shuf = list(fresh)
        r.shuffle(shuf)
        twice = fresh + fresh
        r.shuffle(twice)
        nodebug = [p for p in fresh if not p["cfg"].get("debug_comments")]
        envs = [
            ("reference", dict(mode="plain", programs=fresh), "0", {}, []),
            ("reversed order, entries reversed",
             dict(mode="plain", programs=fresh[::-1], listdir="reverse"),
             str(r.randrange(1, 1 << 32)), {"LANG": "zh_CN.UTF-8",
                                            "TZ": "Asia/Tokyo"}, []),
            ("twice in one process", dict(mode="plain", programs=twice,
                                          ballast=1, listdir="shuffle"),
             str(r.randrange(1, 1 << 32)), {}, []),
            ("interleaved", dict(mode="interleaved", programs=shuf,
                                 ballast=1), str(r.randrange(1, 1 << 32)),
             {}, []),
            ("relative paths, -O",
             dict(mode="relative", programs=nodebug),
             str(r.randrange(1, 1 << 32)), {"LC_ALL": "C"}, ["-O"]),
            ("command line", None, str(r.randrange(1, 1 << 32)), {}, []),
        ]
        results = {}
        for k, (name, job, hs, env, flags) in enumerate(envs):
            mon.count("hashseeds")
            if job is None:
                results[name] = through_cli(base, progs, hs, r, mon)
                continue
            tmp = os.path.join(base, "t%d" % k)
            os.mkdir(tmp)
            job.update(repo=kit.REPO, seed=r.random(), tmp=tmp)
            jf = os.path.join(base, "job%d" % k)
            rf = os.path.join(base, "res%d" % k)
            with open(jf, "wb") as f:
                pickle.dump(job, f)
            e = dict(os.environ)
            e.update(PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1",
                     PYTHONPYCACHEPREFIX=os.path.join(
                         kit.scratch_root(), "nopyc"))
            e.update(env)
            pr = subprocess.run(
                [sys.executable] + flags + [os.path.join(
                    kit.VERIF, "acv", "detworker.py"), jf, rf],
                cwd=r.choice([base, "/", tmp]), env=e,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                stdin=subprocess.DEVNULL, timeout=200)
            mon.count("processes")
            if pr.returncode or not os.path.exists(rf):
                raise RuntimeError("worker failed: %r" % pr.stdout[-800:])
            with open(rf, "rb") as f:
                results[name] = pickle.load(f)
        ref = results.pop("reference")
        for p in progs:
            a = ref[p["id"]][0]
            if a[0] == "crash":
                # (the business of another property)
                mon.count("crashes")
                continue
            mon.count("accepted" if a[0] == "ok" else "rejected")
            for name, res in results.items():
                for b in res.get(p["id"], []):
                    mon.evaluated()
                    mon.count("trees")
                    if a[0] == "ok" and any(b"\n" in t or t for t in
                                            a[1].values()):
                        mon.nontrivial(sorted(p["src"].items()),
                                       repr(p["cfg"]), name)
                    x = a
                    if name == "command line" and a[0] == "error":
                        if b[0] != "error":
                            b = (b[0], "")
                            x = ("error", "")
                        else:
                            continue
                    if name.startswith("relative") and a[0] == "error":
                        x = ("error", relative(a[1], p))
                        b = (b[0], relative(b[1], p)) \
                            if b[0] == "error" else b
                    if x != b:
                        mon.violation(
                            "differs", "%s: %s" % (name, difference(x, b)),
                            source=p["src"], cfg=p["cfg"], case=repr(case))
                        return
        mon.sample(str(progs[0]["src"]))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def relative(msg, p):
    return msg.replace(p["dir"] + os.sep, "")


def difference(a, b):
    if a[0] != b[0]:
        return "%s becomes %s: %s" % (a[0], b[0], str(b[1])[-400:])
    if a[0] != "ok":
        return "%r becomes %r" % (a[1], b[1])
    for f in sorted(set(a[1]) | set(b[1])):
        x, y = a[1].get(f), b[1].get(f)
        if x != y:
            if x is None or y is None:
                return "file %s only in one" % f
            xl, yl = x.split(b"\n"), y.split(b"\n")
            for i in range(max(len(xl), len(yl))):
                if xl[i:i + 1] != yl[i:i + 1]:
                    return "%s line %d: %r becomes %r" % (
                        f, i + 1, xl[i:i + 1], yl[i:i + 1])
    return "?"


FLAGS = {"debug_comments": "-d", "education_edition": "-e"}
VALUES = {"root_folder": "-f", "main_file": "-m", "scoreboard": "-s",
          "entity_tag": "-t", "internal_folder": "--internal-folder",
          "max_inline_file_size": "--max-inline-file-size",
          "encoding": "--encoding"}


def through_cli(base, progs, hs, r, mon):
    """two of the programs through the real command line"""
    out = {}
    c = [p for p in progs if "encoding" not in p["cfg"]]
    for p in r.sample(c, min(2, len(c))):
        cfg = p["cfg"]
        args = []
        ok = True
        for k, v in cfg.items():
            if v is None:
                continue
            if k in FLAGS:
                if v:
                    args.append(FLAGS[k])
            elif k == "optimizer":
                if not v:
                    args.append("-O")
            elif k == "mc_version":
                args += ["-v", ".".join(map(str, v))]
            elif k == "split_init":
                if v:
                    args += ["-i", cfg.get("init_file") or "init"]
            elif k in VALUES:
                args += [VALUES[k], str(v)]
            elif k != "init_file":
                ok = False
        if not ok:
            continue
        o = os.path.join(base, "cli%d" % p["id"])
        os.mkdir(o)
        pr = kit.cli([os.path.join(p["dir"], p["main"]), "-o", o] + args,
                     cwd=r.choice(["/", base]),
                     env={"PYTHONHASHSEED": hs})
        mon.count("processes")
        mon.count("cli")
        if pr.returncode:
            if "compiler error" in pr.stderr and \
                    "Traceback" not in pr.stderr:
                out[p["id"]] = [("error", pr.stderr)]
            continue    # (an option the command line does not take)
        files = {}
        for root, dirs, fs in os.walk(o):
            for f in fs:
                q = os.path.join(root, f)
                with open(q, "rb") as fh:
                    files[os.path.relpath(q, o)] = fh.read()
        out[p["id"]] = [("ok", files)]
    return out
