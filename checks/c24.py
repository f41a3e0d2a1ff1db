"""C24: interfaces and main are the entry points the source declares.

Workload: random programs with several interfaces run in random order (also
running main again) on the VM; interfaces inside loops / with computed paths;
a table and random mutations of path spellings under several root folders and
output names.  Monitors: snapshots inside every interface (compared with the
reference interpreter, which re-initialises on main), and the file set: one
file per interface at exactly its path.  Oracle: reference interpreter and an
independent model of legal paths."""
import random

from acv import kit, prog, runner, gen
from acv.lang import text

PROPERTY = "C24"
RULE = ("one evaluation = one program compiled; its entry points executed in "
        "a random schedule and compared with the reference interpreter, or "
        "one path spelling accepted/refused and its file found; distinct by "
        "source text and schedule / by spelling and configuration")
ASSUME = ["interfaces are run after main (the documented order)",
          "an interface whose body generates no command at all has no file "
          "(documented by the compiler's debug comment)"]
LEVEL = "exploration"

CHARS = ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
         ".(-)_/")
UNQUOTED = set(CHARS) - set("()")
WORDS = ["a", "b", "B", "x1", "main", "Main", "init", "INIT", "_acacia",
         "_acacia2", "mainx", "lib", "a-b", "_", "a.b", "..a", "0", "9z",
         ".", "..", "...", "(", "a(b)", "tick", "start", "core", "CORE"]
CFGS = [{}, {"root_folder": "r"}, {"root_folder": "r/s"},
        {"main_file": "start"}, {"internal_folder": "core"},
        {"split_init": True}, {"split_init": True, "init_file": "boot"},
        {"main_file": "start", "internal_folder": "core",
         "root_folder": "q", "split_init": True, "init_file": "lib"}]


def legal(path, cfg):
    if not path or path[0] == "/" or path[-1] == "/" or "//" in path:
        return False
    if any(c not in CHARS for c in path):
        return False
    if any(p in (".", "..") for p in path.split("/")):
        return False
    res = [cfg.get("main_file", "main"), cfg.get("internal_folder",
                                                 "_acacia")]
    if cfg.get("split_init"):
        res.append(cfg.get("init_file", "init"))
    return not any(path.lower() == r.lower()
                   or path.lower().startswith(r.lower() + "/") for r in res)


def rand_path(r):
    p = "/".join(r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 2, 3])))
    x = r.random()
    if x < .1:
        p = "/" + p
    elif x < .2:
        p += "/"
    elif x < .28:
        p = p.replace("/", "//", 1)
    elif x < .4:
        i = r.randint(0, len(p))
        p = p[:i] + r.choice(" :\\@#$%é\t~*+,") + p[i:]
    elif x < .42:
        p = ""
    return p


def spell(r, path):
    """(source spelling, how) or None"""
    if path and all(c in UNQUOTED for c in path) and r.random() < .5:
        return path
    out = []
    for c in path:
        if c in '"\\':
            out.append("\\" + c)
        elif r.random() < .08:
            out.append("\\x%02x" % ord(c) if ord(c) < 256
                       else "\\u%04x" % ord(c))
        elif c == "\t":
            out.append("\\x09")
        else:
            out.append(c)
    return '"' + "".join(out) + '"'


def case_path(case, mon):
    r = random.Random("%r" % (case,))
    cfg = r.choice(CFGS)
    n = r.choice([1, 1, 2, 3])
    paths = [rand_path(r) for _ in range(n)]
    if n > 1 and r.random() < .4:
        p = paths[0]
        paths[1] = r.choice([p, p.upper(), p.swapcase(), p + "x", p + "/y"])
    ok = all(legal(p, cfg) for p in paths) and \
        len({p.lower() for p in paths}) == n
    src = "x := 1\n" + "".join(
        "interface %s:\n    /snap %d\n" % (spell(r, p), i)
        for i, p in enumerate(paths))
    c = dict(cfg, optimizer=r.random() < .5)
    res = kit.compile_src(src, **c)
    mon.evaluated()
    mon.nontrivial("path", tuple(paths), repr(cfg))
    if res.kind == "crash":
        mon.violation("path:crash", "crash for %r: %s" % (paths, res.message),
                      source=src, traceback=res.tb)
        return
    if res.ok != ok:
        mon.violation(
            "path:" + ("accepted" if res.ok else "refused"),
            "interface paths %r under %r should be %s (%s)" % (
                paths, cfg, "accepted" if ok else "refused", res.message),
            source=src)
        return
    mon.count("paths_accepted" if ok else "paths_refused")
    if not ok:
        return
    root = cfg.get("root_folder")
    pre = root + "/" if root else ""
    fs = res.functions()
    want = {pre + p for p in paths}
    want.add(pre + cfg.get("main_file", "main"))
    if cfg.get("split_init"):
        want.add(pre + cfg.get("init_file", "init"))
    internal = pre + cfg.get("internal_folder", "_acacia") + "/"
    got = {p for p in fs if not p.startswith(internal)}
    if got != want:
        mon.violation("path:files", "entry points %s instead of %s" % (
            sorted(got), sorted(want)), source=src, config=repr(cfg))
        return
    for i, p in enumerate(paths):
        cmds = [x for x in fs[pre + p].split("\n")
                if x and not x.startswith("#")]
        if cmds != ["snap %d" % i]:
            mon.violation("path:body", "%s contains %r" % (p, cmds),
                          source=src)
            return
    mon.count("interface_files", n)


def case_loop(case, mon):
    """interfaces made in compile-time loops, functions and modules"""
    r = random.Random("%r" % (case,))
    n = r.randint(1, 4)
    base = r.randint(0, 50)
    form = r.choice(["for", "nested", "module"])
    srcs = {}
    if form == "for":
        m = ("x := %d\nfor i in list.range(%d):\n    interface \"k/p${i}\":\n"
             "        x += i + 1\n        scb(\"o\", \"obs\") = x\n"
             "        /snap 1\n" % (base, n))
        exp = {"k/p%d" % i: i + 1 for i in range(n)}
    elif form == "nested":
        m = ("x := %d\nconst L = {\"a\", \"b\"}\nfor s in L:\n"
             "    for i in list.range(1, %d):\n"
             "        interface \"${s}/${i}\":\n            x += i\n"
             "            if x > 1000:\n                x = 0\n"
             "            scb(\"o\", \"obs\") = x\n            /snap 1\n"
             % (base, n + 1))
        exp = {"%s/%d" % (s, i): i for s in "ab" for i in range(1, n + 1)}
    else:
        srcs["m.aca"] = (
            "x := %d\ninterface mm/a:\n    x += 3\n    scb(\"o\", \"obs\") "
            "= x\n    /snap 1\n" % base)
        m = ("import m\ninterface mm/b:\n    m.x += 4\n"
             "    scb(\"o\", \"obs\") = m.x\n    /snap 1\n")
        exp = {"mm/a": 3, "mm/b": 4}
    srcs["main.aca"] = m
    mode = dict(optimizer=r.random() < .5)
    res = kit.compile_src(srcs, **mode)
    mon.evaluated()
    if not res.ok:
        mon.violation("loop:%s" % res.kind, res.message, source=srcs,
                      traceback=res.tb or "")
        return
    fs = res.functions()
    want = set(exp) | {"main"}
    got = {p for p in fs if not p.startswith("_acacia/")}
    if got != want:
        mon.violation("loop:files", "entry points %s instead of %s" % (
            sorted(got), sorted(want)), source=srcs)
        return
    sched = [r.choice(sorted(exp)) if r.random() < .85 else None
             for _ in range(8)]
    trace, v = gen.run_pack(fs, sched)
    x = base
    want = []
    for p in sched:
        if p is None:
            x = base
        else:
            x += exp[p]
            want.append(x)
    got = [dict(t[1])["o"] for t in trace]
    if got != want:
        mon.violation("loop:diff", "schedule %s gave %s instead of %s" % (
            sched, got, want), source=srcs)
        return
    mon.count("computed_interfaces", len(exp))
    mon.count("entry_runs", len(sched))
    mon.nontrivial("loop", repr(srcs), sched)


def case_rnd(case, mon):
    r = random.Random(case[1])
    knobs = dict(ifaces=r.choice([2, 3, 4]), n_top=r.choice([5, 9]),
                 funcs=2, inlines=1, structs=r.choice([0, 1]), depth=2)
    m = gen.make(r, **knobs)
    if m is None:
        mon.count("discarded")
        return
    p, sched, ref = m
    # a longer schedule with main in between
    from acv.lang import Ref, UB
    paths = [s[1] for s in p if s[0] == "iface"]
    for _ in range(20):
        sched = [r.choice(paths) if r.random() < .8 else None
                 for _ in range(r.randint(3, 9))]
        ref = Ref(8000)
        try:
            ref.run_main(p)
            for s in sched:
                ref.run_main(p) if s is None else ref.run_iface(s)
            break
        except UB:
            continue
    else:
        mon.count("discarded")
        return
    cfg = r.choice([{}, {"root_folder": "n/m"}, {"optimizer": False}])
    v = gen.check(mon, p, sched, ref, cfg=cfg, key="rnd:")
    if v is None:
        return
    prog.observe(mon, p, sched, ref, v)
    mon.sample(text(p))
    mon.count("entry_runs", len(sched) + 1)
    mon.count("main_reruns", sched.count(None))
    mon.count("schedules")


def cases(tier, seed):
    a, b, c = (700, 1500, 150) if tier == "quick" else (15000, 40000, 1500)
    return [("rnd", s) for s in runner.spread(seed, "C24r", a)] + \
        [("path", s) for s in runner.spread(seed, "C24p", b)] + \
        [("loop", s) for s in runner.spread(seed, "C24l", c)]


def run_case(case, mon):
    {"rnd": case_rnd, "path": case_path, "loop": case_loop}[case[0]](
        case, mon)


MIN = {"schedules": 500, "paths_accepted": 300, "paths_refused": 300,
       "main_reruns": 200, "computed_interfaces": 200}
