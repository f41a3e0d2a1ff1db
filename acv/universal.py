"""Differential harness: run any compiled pack in a standard world and record
everything observable, independent of compiler-owned names.

execute() runs a plan of steps ("main", "init", ("iface", path), "tick") on the
monitored VM and returns an Obs with
  trace   ordered observable effects: raw commands with the executing entity
          and place, chat / title text, summons, teleports, kills, changes of
          blocks, writes to user scoreboards, tag changes that are not
          compiler-owned
  final   state of the world at the end of every step
  faults  what the VM's own monitors complained about"""
import math
import random
import re

from . import kit, vm as vmmod

NOT_OBSERVABLE = ("objadd", "objremove", "random", "div0", "ifblock",
                  "ifblocks")


class Obs:
    __slots__ = ("trace", "final", "faults", "vm", "steps")


def world(v, seed=0):
    """a small inhabited world, the same for every run of one comparison"""
    r = random.Random("world%s" % seed)
    for i in range(r.randint(2, 5)):
        v.add_entity(r.choice(["pig", "cow", "armor_stand", "creeper"]),
                     name=r.choice(["", "", "zed", "bob"]),
                     tags=r.sample(["ut1", "ut2", "ut3", "t", "x"],
                                   r.randint(0, 2)),
                     pos=(100.5 + r.randint(-9, 9), 64.0,
                          200.5 + r.randint(-9, 9)))
    if r.random() < .5:
        v.add_entity("player", name="Player2", pos=(104.5, 70.0, 190.5))


def entries(files, cfg):
    """(interface paths, has_init) read off the emitted files"""
    root = cfg.get("root_folder") or ""
    pre = root + "/" if root else ""
    internal = pre + (cfg.get("internal_folder") or "_acacia") + "/"
    main = pre + (cfg.get("main_file") or "main")
    init = pre + (cfg.get("init_file") or "init")
    out = []
    for p in sorted(files):
        if p.startswith(internal) or p == main:
            continue
        if cfg.get("split_init") and p == init:
            continue
        out.append(p[len(pre):] if p.startswith(pre) else "//" + p)
    return out


def plan(ifaces, ticks, seed, n=6):
    """main, then interfaces, ticks and main again in some order; an interface
    is mostly run only after main (the documented use)"""
    r = random.Random("plan%s" % seed)
    steps = ["main"]
    pool = [("iface", p) for p in ifaces]
    if not pool and not ticks:
        if r.random() < .3:
            steps.append("main")
        if r.random() < .5:
            steps.append("main")
        return steps
    for p in pool:
        steps.append(p)
    for _ in range(r.randint(1, n)):
        x = r.random()
        if ticks and x < .6:
            steps.append("tick")
        elif pool and x < .9:
            steps.append(r.choice(pool))
        else:
            steps.append("main")
    if ticks:
        rest = steps[1:]
        r.shuffle(rest)
        steps = ["main"] + rest
        steps += ["tick"] * r.randint(2, 6)
    return steps


def owned(obj, scoreboard):
    return re.fullmatch(re.escape(scoreboard) + r"\d*", obj) is not None


def own_holder(h, scoreboard):
    return isinstance(h, str) and (owned(h, scoreboard)
                                   or owned(h, "acacia"))


def execute(res, cfg, steps, wseed=0, budget=300000, objs=("obs",),
            setup=None, files=None, rng_seed=7, extra=None):
    scoreboard = cfg.get("scoreboard") or "acacia"
    etag = cfg.get("entity_tag") or "acacia"
    root = cfg.get("root_folder") or ""
    pre = root + "/" if root else ""
    files = files if files is not None else res.functions()
    v = vmmod.VM(files, budget=budget, user_objectives=objs,
                 rng=random.Random(rng_seed))
    world(v, wseed)
    if setup:
        setup(v)
    o = Obs()
    o.trace = trace = []
    o.final = []
    o.vm = v
    o.steps = steps
    otag = re.compile(re.escape(etag) + r"\d+\Z")
    # hook the score store: a write to a user scoreboard is an effect
    real = v.setscore

    def setscore(h, obj, val):
        if not owned(obj, scoreboard) and not \
                own_holder(h, scoreboard):
            trace.append(("score", repr(h), obj, val))
        return real(h, obj, val)
    v.setscore = setscore

    class Events(list):
        def append(self, e):
            if e[0] not in NOT_OBSERVABLE:
                trace.append(e)
            list.append(self, e)
    v.events = Events()

    def on_raw(vm, ctx, line):
        if re.match(r"see \S+ @", line):
            _, n, sel = line.split(" ", 2)
            trace.append(("see", n, tuple(sorted(
                e.uid for e in vm.select(sel, ctx)))))
            return True
        if line.startswith("setblock "):
            w = [t for t, *_ in vm.toks(line)]
            if len(w) >= 5:
                p = vm.coords(w[1:4], ctx)
                vm.blocks[tuple(math.floor(c) for c in p) + (ctx.dim,)] = (
                    w[4], w[5] if len(w) > 5 and w[5].startswith("[")
                    else None)
        trace.append(("raw", mask(line, otag, scoreboard), vm.ctx_key(ctx)))
        return True
    v.on_raw = on_raw
    real_tag = v.c_tag

    def c_tag(line, ctx):
        before = {e.uid: set(e.tags) for e in v.entities}
        real_tag(line, ctx)
        ch = []
        for e in v.entities:
            for t in sorted(e.tags ^ before[e.uid]):
                if not otag.match(t):
                    ch.append((e.uid, t, t in e.tags))
        if ch:
            trace.append(("tag", tuple(ch)))
    v.c_tag = c_tag

    def snapshot():
        ents = [(e.uid, e.type, e.name, e.alive, tuple(
            round(x, 3) for x in e.pos), tuple(round(x, 3) for x in e.rot),
            e.dim, tuple(sorted(t for t in e.tags if not otag.match(t))))
            for e in v.entities]
        sc = sorted((repr(h), ob, val) for (h, ob), val in v.scores.items()
                    if not owned(ob, scoreboard) and not
                    own_holder(h, scoreboard))
        return ents, sc, sorted(v.blocks.items()), v.tick
    ticks = res.tick_paths() if res is not None else (extra or [])
    if cfg.get("split_init"):
        v.run_function(pre + (cfg.get("init_file") or "init"))
    for s in steps:
        trace.append(("step", s))
        if s == "main":
            m = pre + (cfg.get("main_file") or "main")
            # (a main function without any command has no file)
            if m in files or not cfg.get("split_init"):
                v.run_function(m)
        elif s == "tick":
            # the areas that schedules wait for get loaded
            due, v.area_scheduled = v.area_scheduled, []
            for _, f in due:
                v.run_function(f)
            v.do_tick(ticks)
        else:
            v.run_function(pre + s[1])
        o.final.append(snapshot())
    o.faults = list(v.faults)
    return o


def mask(line, otag, scoreboard):
    """raw command text with compiler-owned names in selectors made
    anonymous"""
    if "@" not in line:
        return line
    base = otag.pattern[:-len(r"\d+\Z")]
    line = re.sub(r'(tag=!?"?)' + base + r'\d+', r"\1<etag>", line)
    return re.sub(r"scores=\{[^}]*\}", lambda m: re.sub(
        r'([{,]"?)' + re.escape(scoreboard) + r'\d*(?="?=)', r"\1<scb>",
        m.group(0)), line)


def same(a, b):
    """None or a text saying how two observations differ"""
    for i, (x, y) in enumerate(zip(a.trace, b.trace)):
        if x != y:
            return "effect %d: %r versus %r" % (i, x, y)
    if len(a.trace) != len(b.trace):
        k = min(len(a.trace), len(b.trace))
        t = a.trace if len(a.trace) > k else b.trace
        return "%d versus %d effects, the first extra one is %r" % (
            len(a.trace), len(b.trace), t[k])
    for i, (x, y) in enumerate(zip(a.final, b.final)):
        for p, q in zip(x, y):
            if p != q:
                if isinstance(p, list):
                    d = [t for t in p if t not in q][:2], \
                        [t for t in q if t not in p][:2]
                    return "after step %d (%r): %r versus %r" % (
                        (i, a.steps[i]) + d)
                return "after step %d (%r): %r versus %r" % (
                    i, a.steps[i], p, q)
    return None


# --- programs of the other checks ---------------------------------------------

class _Stop(BaseException):
    pass


def harvest(modname, case, most=3):
    """the (sources, main, cfg) the given check would compile for a case, by
    answering its compile requests with a refusal"""
    import importlib
    from .runner import Mon
    mod = importlib.import_module(modname)
    got = []
    real = kit.compile_src

    def fake(sources, main="main.aca", keep=False, **cfg):
        got.append((sources, main, dict(cfg)))
        if len(got) >= most:
            raise _Stop()
        return real(sources, main=main, keep=keep, **cfg)
    kit.compile_src = fake
    try:
        mod.run_case(case, Mon(case))
    except _Stop:
        pass
    finally:
        kit.compile_src = real
    return got


SOURCES = ["c01", "c02", "c03", "c04", "c05", "c12", "c13", "c13", "c14",
           "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c23", "c24",
           "c25", "c26"]


def as_module(r, sources, p=.25):
    """sometimes, the same program as a module that main imports"""
    if not isinstance(sources, str) or r.random() > p:
        return sources
    files = {"prog_mod.aca": sources}
    head = r.choice(["import prog_mod\n", "import prog_mod as pm\n"])
    x = r.random()
    if x < .4:
        head += r.choice(["import prog_mod\n", "import between\n"])
        files["between.aca"] = r.choice(["", 'scb("btw", "obs") = 1\n']) + \
            "import prog_mod as q\n" + r.choice(["", "/snap 991\n"])
    files["main.aca"] = r.choice(["/snap 992\n", ""]) + head + \
        r.choice(["/snap 990\n", ""])
    if "import between" not in head:
        files.pop("between.aca", None)
    return files



def pool(seed, name, n, only=None):
    """n cases (module, case) drawn evenly from the other checks"""
    import importlib
    r = random.Random("%s/%s/pool" % (seed, name))
    out = []
    mods = only or SOURCES
    per = max(1, n // len(mods))
    for m in mods:
        mod = importlib.import_module("checks." + m)
        cs = mod.cases("quick", seed)
        cs = list(cs)
        take = r.sample(cs, min(per, len(cs)))
        out += [("pool", "checks." + m, c) for c in take]
    r.shuffle(out)
    return out
