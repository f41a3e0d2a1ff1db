"""C07: output options change names and layout only.

Workload: hostile, random scalar, random entity programs and programs of the
other checks, compiled with default options and with random combinations of
scoreboard prefix, entity tag prefix, root folder, internal folder, main file,
split init, init file, debug comments.  Monitors: the ordered log of observable
effects and the world after every step of one history (equal to the default
pack's), the names of every emitted file, declared scoreboard and tag of the
pack (all derived from the chosen ones), and worlds in which two packs with
different names run interleaved (each pack's own log equal to its log when
alone)."""
import random
import re

from acv import ent, gen, hostile, kit, runner, universal as U
from acv import vm as vmmod
from acv.lang import text
from checks.c06 import key_of

PROPERTY = "C07"
RULE = ("one evaluation = one pack compiled with non-default names executed "
        "and compared with the default pack of the same program, or one pair "
        "of packs executed interleaved; non-trivial = at least one observed "
        "effect, distinct by source text and options")
ASSUME = ["two prefixes where one is the other followed by digits are not "
          "different names",
          "with split_init the init function has run before anything else"]
LEVEL = "exploration"
EK = [
    dict(structs=1, ifaces=1),
    dict(templates=3, templates2=1, methods=2, virtuals=1, groups=.4,
         mcalls=3, n_top=8, funcs=1, inlines=1),
    dict(templates=2, templates2=0, methods=.5, groups=3, ent_stmts=.85,
         tags=1, n_top=14, funcs=2, inlines=1, externs=2),
]
PK = [
    dict(templates=2, templates2=0, methods=1, virtuals=.7, groups=1,
         extern=False, ifaces=1, n_top=10, tags=.6),
    dict(structs=1, ifaces=1, extern=False, templates=2, groups=.5),
]
SCB = ["zq", "my_pack", "A", "Acacia", "acacia_", "_b"]
TAG = ["zq", "tagg", "T_", "acac", "_e", "Acacia"]
ROOT = ["", "lib", "lib/sub", "a1/b_2/c"]
INT = ["_int", "zz", "deep/er", "_acacia2", "main_"]
MAIN = ["start_zz", "run/zz", "Main", "main2"]
INIT = ["boot_zz", "su/zz", "Init", "init2"]


def cases(tier, seed):
    q = tier == "quick"
    out = [("host", s) for s in runner.spread(seed, "C07h", 300 if q else
                                              4000)]
    out += [("rnd", s) for s in runner.spread(seed, "C07r", 200 if q else
                                              3000)]
    out += [("ent", s) for s in runner.spread(seed, "C07e", 200 if q else
                                              3000)]
    out += [("pair", s) for s in runner.spread(seed, "C07p", 300 if q else
                                               4000)]
    out += U.pool(seed, "C07", 320 if q else 3200)
    random.Random("%sC07" % seed).shuffle(out)
    return out


def scalar(r):
    m = gen.make(r, ifs=1.2, loops=1.0, fors=.6, effect_funcs=.8,
                 block=r.choice([2, 3]), ifaces=r.choice([0, 1, 2]),
                 raws=.3, observe=.8, depth=2, n_top=r.choice([8, 14]))
    return m and text(m[0])


def programs(case):
    r = random.Random("%r" % (case,))
    if case[0] == "host":
        return [(hostile.make(case[1]).replace("/function i/one", "/say one"),
                 "main.aca", {})]
    if case[0] == "rnd":
        t = scalar(r)
        return [(t, "main.aca", {})] if t else []
    if case[0] == "ent":
        m = ent.make(r, **r.choice(EK))
        return [(text(m[0]), "main.aca", {})] if m else []
    return U.harvest(case[1], case[2], most=2)


def options(r):
    c = {}
    if r.random() < .6:
        c["scoreboard"] = r.choice(SCB)
    if r.random() < .6:
        c["entity_tag"] = r.choice(TAG)
    if r.random() < .6:
        c["root_folder"] = r.choice(ROOT)
    if r.random() < .6:
        c["internal_folder"] = r.choice(INT)
    if r.random() < .6:
        c["main_file"] = r.choice(MAIN)
    if r.random() < .5:
        c["split_init"] = True
    if r.random() < .6:
        c["init_file"] = r.choice(INIT)
    if r.random() < .5:
        c["debug_comments"] = True
    return c


def names(mon, res, cfg, ifaces, src):
    """every compiler-owned file, scoreboard and tag carries the names"""
    root = cfg.get("root_folder") or ""
    pre = root + "/" if root else ""
    internal = pre + (cfg.get("internal_folder") or "_acacia") + "/"
    main = pre + (cfg.get("main_file") or "main")
    init = pre + (cfg.get("init_file") or "init")
    scb = cfg.get("scoreboard") or "acacia"
    files = res.functions()
    want = {main} | ({init} if cfg.get("split_init") else set())
    for w in want:
        # (a main function without any command has no file; that it had
        # nothing to do is seen by comparing the effects)
        if w not in files and not (w == main and cfg.get("split_init")):
            return "no function %r" % w
    for p in files:
        if p.startswith(internal) or p in want:
            continue
        if not p.startswith(pre) or p[len(pre):] not in ifaces:
            return "unexpected function file %r" % p
    for p in ifaces:
        if pre + p not in files:
            return "no function for interface %r" % p
    for p in res.files:
        if not p.endswith(".mcfunction") and p != "tick.json":
            return "unexpected output file %r" % p
    for t in res.tick_paths():
        if not t.startswith(internal):
            return "tick function %r is outside the internal folder" % t
    decl = []
    for p, t in files.items():
        for m in re.finditer(r'^scoreboard objectives add (".*?"|\S+)', t,
                             re.M):
            name = m.group(1).strip('"')
            decl.append(name)
            if p != (init if cfg.get("split_init") else main):
                return "scoreboard %r is created in %r" % (name, p)
    for d in decl:
        if not re.fullmatch(re.escape(scb) + r"\d*", d):
            return "scoreboard %r is not named after %r" % (d, scb)
    mon.count("names_checked", len(files) + len(decl))
    return None


def run_case(case, mon):
    r = random.Random("%rx" % (case,))
    if case[0] == "pair":
        return pair(case, mon, r)
    for sources, main, cfg in programs(case):
        one(mon, r, U.as_module(r, sources), main, cfg)


def one(mon, r, sources, main, cfg):
    cfg = {k: v for k, v in cfg.items() if k in (
        "optimizer", "max_inline_file_size", "mc_version",
        "education_edition", "encoding")}
    a = kit.compile_src(sources, main=main, **cfg)
    src = key_of(sources)
    if a.kind != "ok":
        mon.count("refused")
        return
    ifaces = U.entries(a.functions(), cfg)
    seed = r.randrange(1 << 30)
    steps = U.plan(ifaces, bool(a.tick_paths()), seed)
    d = names(mon, a, cfg, ifaces, src)
    if d:
        mon.violation("names", d, source=src, config=cfg)
        return
    try:
        oa = U.execute(a, cfg, steps, seed, budget=150000)
    except vmmod.BudgetExceeded:
        mon.count("endless")
        return
    mon.count("programs")
    mon.count("effects", len(oa.trace))
    mon.count("ticks", steps.count("tick"))
    for _ in range(2):
        cb = dict(cfg, **options(r))
        b = kit.compile_src(sources, main=main, **cb)
        if b.kind != "ok":
            mon.violation("refused", "accepted with default names, %s with "
                          "%r: %s" % (b.kind, cb, b.message), source=src,
                          config=cb, traceback=b.tb or "")
            return
        mon.evaluated()
        d = names(mon, b, cb, ifaces, src)
        if d:
            mon.violation("names", d, source=src, config=cb)
            return
        if bool(a.tick_paths()) != bool(b.tick_paths()):
            mon.violation("tick", "tick.json appears or vanishes",
                          source=src, config=cb)
            return
        try:
            ob = U.execute(b, cb, steps, seed, budget=300000)
        except vmmod.BudgetExceeded:
            mon.violation("endless", "commands do not stop with %r" % cb,
                          source=src, config=cb)
            return
        d = U.same(oa, ob)
        if d:
            mon.violation("diff", "default names versus %r: %s" % (cb, d),
                          source=src, config=cb, steps=steps, wseed=seed)
            return
        kinds = ("syntax", "literal-range", "missing-func", "undeclared-obj")
        if sum(f[0] in kinds for f in ob.faults) > \
                sum(f[0] in kinds for f in oa.faults):
            mon.violation("fault", "only with %r: %r" % (cb, [
                f for f in ob.faults if f[0] in kinds][:2]), source=src,
                config=cb)
            return
        if cb.get("debug_comments"):
            n = sum(("\n" + t).count("\n#") for t in b.functions().values())
            mon.count("debug_lines", n)
            if not n and b.functions():
                mon.violation("no-comments", "no debug comment although they "
                              "were asked for", source=src, config=cb)
                return
        for k in cb:
            mon.count("opt_" + k)
        if len(oa.trace) > 1:
            mon.nontrivial(src, sorted(map(str, cb.items())))
    mon.sample(src)


# --- two packs in one world -------------------------------------------------

def pair(case, mon, r):
    packs = []
    for i in range(2):
        if r.random() < .5:
            t = scalar(r)
        else:
            m = ent.make(r, **r.choice(PK))
            t = m and text(m[0])
        if not t or ".select(" in t:
            # (select looks at every entity of the world)
            mon.count("discarded")
            return
        packs.append(t)
    if r.random() < .25:
        packs[1] = packs[0]
    mode = r.choice(["root", "flat"])
    cfgs = []
    for i in range(2):
        c = {"scoreboard": [r.choice(["acacia", "pa"]),
                            r.choice(["acacib", "pb", "acacia_"])][i],
             "entity_tag": [r.choice(["acacia", "ta"]),
                            r.choice(["acacib", "tb", "Acacia"])][i],
             "split_init": r.random() < .3,
             "optimizer": r.random() < .7,
             "debug_comments": r.random() < .2}
        if mode == "root":
            c["root_folder"] = ["", "pkb"][i] if r.random() < .5 else \
                ["pka", "pkb"][i]
        else:
            c["internal_folder"] = ["_acacia", "_pb"][i]
            c["main_file"] = ["main", "mainb"][i]
            c["init_file"] = ["init", "initb"][i]
        cfgs.append(c)
    res = []
    for i in range(2):
        # the second pack uses its own user objective, tags and paths
        t = packs[i]
        if i:
            t = t.replace('"obs"', '"obt"').replace("/snap ", "/snapb ") \
                .replace(" obs", " obt").replace('"ut', '"vt')
            t = re.sub(r"^interface ", "interface zz/", t, flags=re.M)
        x = kit.compile_src(t, **cfgs[i])
        if x.kind != "ok":
            mon.count("refused")
            return
        res.append((t, x))
    files = {}
    for t, x in res:
        for p, c in x.functions().items():
            if p in files:
                mon.violation("clash", "both packs write %r" % p,
                              source=t, config=cfgs)
                return
            files[p] = c
    ifs = []
    for i in range(2):
        root = cfgs[i].get("root_folder") or ""
        own = U.entries(res[i][1].functions(), cfgs[i])
        ifs.append(own)
    seqs = [U.plan(ifs[i], bool(res[i][1].tick_paths()), "%s%d" % (
        case[1], i)) for i in range(2)]
    # ticks happen to both packs at once, so only untimed programs are paired
    order = [0] * len(seqs[0]) + [1] * len(seqs[1])
    r.shuffle(order)
    try:
        alone = [play(res, cfgs, seqs, [i] * len(seqs[i]), files)[i]
                 for i in range(2)]
        both = play(res, cfgs, seqs, order, files)
    except vmmod.BudgetExceeded:
        mon.count("endless")
        return
    mon.evaluated()
    mon.count("pairs")
    mon.count("pair_effects", sum(len(x[0]) for x in both))
    if all(len(x[0]) > 2 for x in both):
        mon.nontrivial("pair", res[0][0], res[1][0], order)
    for i in range(2):
        for k, what in ((0, "effects"), (1, "entities"), (2, "scores")):
            if alone[i][k] != both[i][k]:
                a, b = alone[i][k], both[i][k]
                j = next((j for j, (x, y) in enumerate(zip(a, b))
                          if x != y), min(len(a), len(b)))
                mon.violation(
                    "interfere", "pack %d behaves differently next to pack "
                    "%d: %s, item %d: alone %r, together %r" % (
                        i, 1 - i, what, j, a[j:j + 1], b[j:j + 1]),
                    source=res[0][0] + "\n=====\n" + res[1][0],
                    config=cfgs, order=order, steps=seqs)
                return


def play(res, cfgs, seqs, order, files):
    """run the interleaved history; per pack (log, entities, scores)"""
    v = vmmod.VM(files, budget=300000, user_objectives=("obs", "obt"),
                 rng=random.Random(5))
    owner = {e.uid: ("w", i) for i, e in enumerate(v.entities)}
    log = [[], []]
    cur = [0]
    n = [0, 0]
    OBJ = ("obs", "obt")

    def who(uid):
        if uid not in owner:
            owner[uid] = (cur[0], n[cur[0]])
            n[cur[0]] += 1
        return owner[uid]

    def scores(i):
        return tuple(sorted((str(h) if isinstance(h, str) else repr(who(h)),
                             x) for (h, o), x in v.scores.items()
                            if o == OBJ[i]))

    def on_raw(vm, ctx, line):
        w = line.split(" ")
        i = cur[0]
        if w[0] in ("snap", "snapb"):
            log[i].append((w[1], scores(i)))
        elif w[0] == "see":
            log[i].append(("see", w[1], tuple(sorted(
                repr(who(e.uid)) for e in vm.select(
                    line.split(" ", 2)[2], ctx)))))
        else:
            log[i].append(("raw", re.sub(r"[a-zA-Z_]*\d+", "#", line)))
        return True
    v.on_raw = on_raw
    started = [False, False]
    pos = [0, 0]
    for i in order:
        cur[0] = i
        cfg = cfgs[i]
        root = cfg.get("root_folder") or ""
        pre = root + "/" if root else ""
        if not started[i]:
            started[i] = True
            if cfg.get("split_init"):
                v.run_function(pre + (cfg.get("init_file") or "init"))
        s = seqs[i][pos[i]]
        pos[i] += 1
        if s == "main":
            m = pre + (cfg.get("main_file") or "main")
            if m in files or not cfg.get("split_init"):
                v.run_function(m)
        elif s == "tick":
            for t in res[i][1].tick_paths():
                v.run_function(t)
        else:
            v.run_function(pre + s[1])
        for e in v.entities:
            who(e.uid)
    out = []
    for i in range(2):
        tag = cfgs[i]["entity_tag"]
        ents = [(owner[e.uid][1], e.type, e.name, e.alive, tuple(
            round(c, 3) for c in e.pos), tuple(sorted(
                t for t in e.tags if not re.fullmatch(
                    re.escape(tag) + r"\d+", t))))
                for e in v.entities if owner[e.uid][0] == i]
        out.append((log[i], ents, list(scores(i))))
    return out


MIN = {"programs": 600, "effects": 20000, "pairs": 120, "pair_effects": 2000,
       "names_checked": 5000, "debug_lines": 5000, "opt_split_init": 300,
       "opt_scoreboard": 300, "opt_entity_tag": 300, "ticks": 300}
