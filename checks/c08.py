"""C08: every emitted pack is closed and well formed.

Workload: hostile, scalar and entity programs and programs of all the other
checks, under random options.  Monitors: a structural scan of every line of
every emitted file (functions called or scheduled exist, objectives declared,
commands and selectors parse, literals in range), tick.json against the tick
function, and the VM's dynamic monitors while main, interfaces and ticks run
(objective used before it is created, missing function, unparsable command,
literal out of range, compiler-owned score read before it was written)."""
import json
import random
import re

from acv import ent, gen, hostile, kit, runner, universal as U
from acv import vm as vmmod
from acv.lang import text
from checks.c06 import EK, key_of
from checks.c07 import options

PROPERTY = "C08"
RULE = ("one evaluation = one emitted pack scanned line by line and executed "
        "(main, interfaces, ticks) under the VM's monitors; distinct by "
        "source text and options")
ASSUME = ["the VM's grammar of the commands the compiler emits "
          "(scoreboard, execute, function, schedule, tag, summon, tp, kill, "
          "tellraw, titleraw and selectors)",
          "programs assign their variables and fields before reading them "
          "and do not use entities after their death (checked only for "
          "unset reads)",
          "raw commands are the user's own responsibility"]
LEVEL = "exploration"
STATIC = ("syntax", "literal-range", "missing-func", "undeclared-obj")


def cases(tier, seed):
    q = tier == "quick"
    out = [("host", s) for s in runner.spread(seed, "C08h", 250 if q else
                                              4000)]
    out += [("rnd", s) for s in runner.spread(seed, "C08r", 500 if q else
                                              8000)]
    out += [("ent", s) for s in runner.spread(seed, "C08e", 500 if q else
                                              8000)]
    out += [("tick", s) for s in runner.spread(seed, "C08t", 150 if q else
                                               1500)]
    out += U.pool(seed, "C08", 640 if q else 4800)
    random.Random("%sC08" % seed).shuffle(out)
    return out


def programs(case):
    """[(sources, main, cfg, unset reads are faults?)]"""
    r = random.Random("%r" % (case,))
    if case[0] == "host":
        return [(hostile.make(case[1]).replace("/function i/one", "/say one"),
                 "main.aca", {}, False)]
    if case[0] == "rnd":
        m = gen.make(r, ifs=1.2, loops=1.0, fors=.6, calls=1.5,
                     block=r.choice([2, 3]), ifaces=r.choice([0, 1, 2]),
                     structs=r.choice([0, 1, 2]), big=r.choice([.1, .5]),
                     depth=r.choice([2, 4]), n_top=r.choice([8, 16]),
                     funcs=3, inlines=2)
        return [(text(m[0]), "main.aca", {}, True)] if m else []
    if case[0] == "ent":
        m = ent.make(r, **r.choice(EK[:2] + [dict(
            templates=2, templates2=0, methods=1, groups=1, ifaces=1,
            extern=False, tags=.6)]))
        return [(text(m[0]), "main.aca", {}, ".select(" not in
                 text(m[0]))] if m else []
    got = U.harvest(case[1], case[2], most=2)
    ok = case[1] not in ("checks.c14", "checks.c17", "checks.c18")
    return [g + (ok,) for g in got]


def run_case(case, mon):
    r = random.Random("%rx" % (case,))
    if case[0] == "tick":
        return ticks(case, mon, r)
    for sources, main, cfg, unset in programs(case):
        cfg = {k: v for k, v in cfg.items() if k in (
            "mc_version", "education_edition", "encoding")}
        if r.random() < .7:
            cfg.update(options(r))
        cfg["optimizer"] = r.random() < .6
        cfg["max_inline_file_size"] = r.choice([0, 1, 3, 20, 20, 200])
        one(mon, r, U.as_module(r, sources), main, cfg, unset,
            budget=60000 if case[0] == "pool" else 200000)


def structure(res):
    """tick.json and the shape of the files"""
    ticks = []
    if "tick.json" in res.files:
        try:
            d = json.loads(res.files["tick.json"])
        except ValueError:
            return "tick.json is not JSON: %r" % res.files["tick.json"]
        if not isinstance(d, dict) or list(d) != ["values"] or \
                not isinstance(d["values"], list) or not d["values"]:
            return "tick.json is malformed: %r" % (d,)
        ticks = d["values"]
    fs = res.functions()
    for t in ticks:
        if t not in fs:
            return "tick.json names %r, which is not generated" % t
    for p, t in fs.items():
        for ln in t.split("\n"):
            if ln.startswith(("/", " ", "\t")) or "\r" in ln:
                return "malformed line %r in %s" % (ln, p)
    return None


def one(mon, r, sources, main, cfg, unset, budget=200000):
    a = kit.compile_src(sources, main=main, **cfg)
    src = key_of(sources)
    if a.kind != "ok":
        mon.count("refused")
        return
    d = structure(a)
    if d:
        mon.violation("structure", d, source=src, config=cfg)
        return
    fs = a.functions()
    # structural: code the history may not reach
    v = vmmod.VM(fs, user_objectives=("obs", "obs2", "my obj"))
    for t in fs.values():
        for m in re.finditer(r'^scoreboard objectives add (?:"(.*?)"|(\S+))',
                             t, re.M):
            v.objectives[m.group(1) or m.group(2)] = "dummy"
    n = v.scan()
    mon.count("lines_scanned", n)
    mon.count("files", len(fs))
    bad = [f for f in v.faults if f[0] in STATIC]
    if bad:
        mon.violation("scan-" + bad[0][0], "%s: %s" % bad[0], source=src,
                      config=cfg)
        return
    ifaces = U.entries(fs, cfg)
    seed = r.randrange(1 << 30)
    steps = U.plan(ifaces, bool(a.tick_paths()), seed)
    try:
        o = U.execute(a, cfg, steps, seed, budget=budget,
                      objs=("obs", "obs2", "my obj"))
    except vmmod.BudgetExceeded:
        mon.count("endless")
        return
    mon.evaluated()
    mon.count("commands_executed", o.vm.executed)
    mon.count("score_reads", o.vm.stats["reads"])
    mon.count("ticks", steps.count("tick"))
    mon.count("with_tick_json", bool(a.tick_paths()))
    bad = [f for f in o.faults if f[0] in STATIC]
    if unset:
        mon.count("unset_monitored")
        scb = cfg.get("scoreboard") or "acacia"
        for k, m in o.faults:
            if k == "unset-read":
                obj = m.split(" in: ")[0].split(" ", 1)[1]
                if U.owned(obj, scb):
                    bad.append((k, m))
    if bad:
        mon.violation("run-" + bad[0][0], "%s: %s" % bad[0], source=src,
                      config=cfg, steps=steps)
        return
    mon.nontrivial(src, sorted(map(str, cfg.items())))
    mon.sample(src)


# --- tick.json is there exactly when something has to run every tick ----------

def ticks(case, mon, r):
    body = r.choice(["    a += 1\n", "    /say x\n",
                     "    if a > 2:\n        /say x\n    else:\n"
                     "        a += 1\n"])
    kind = r.choice(["def", "inline def"])
    src = "import schedule\na := 0\n%s f():\n%s" % (kind, body)
    want = False
    n = r.randint(0, 2)
    for i in range(n):
        x = r.choice(["loop", "loop3", "task", "taskargs"])
        src += {"loop": "schedule.register_loop(f)\n",
                "loop3": "schedule.register_loop(f, interval=%d)\n"
                % r.choice([1, 2, 7]),
                "task": "const t%d = schedule.Task(f)\n" % i,
                "taskargs": "const t%d = schedule.Task(f)\nt%d.after(%d)\n"
                % (i, i, r.randint(0, 9))}[x]
        want = True
    where = r.choice(["main", "module", "iface"])
    files = {"main.aca": src}
    if where == "module":
        files = {"main.aca": "import m\n", "m.aca": src}
    elif where == "iface":
        files["main.aca"] += "interface i/x:\n    f()\n"
    cfg = options(r)
    cfg["optimizer"] = r.random() < .6
    a = kit.compile_src(files, **cfg)
    if a.kind != "ok":
        mon.violation("tick-refused", a.message, source=src, config=cfg)
        return
    mon.evaluated()
    mon.count("tick_programs")
    d = structure(a)
    if d:
        mon.violation("structure", d, source=src, config=cfg)
        return
    if bool(a.tick_paths()) != want:
        mon.violation("tick", "tick.json is %s although the program has %s "
                      "per-tick work" % (
                          "present" if a.tick_paths() else "missing",
                          "some" if want else "no"), source=src, config=cfg)
        return
    mon.nontrivial(src, sorted(map(str, cfg.items())))


MIN = {"lines_scanned": 60000, "commands_executed": 150000,
       "score_reads": 50000, "unset_monitored": 600, "tick_programs": 100,
       "with_tick_json": 150, "ticks": 500, "files": 3000}
