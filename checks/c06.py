"""C06: the optimizer never changes observable behaviour.

Workload: (a) "hostile" programs whose branch bodies, loops and calls change
what the conditions around them read - by statements, library calls and raw
commands (scores, blocks, tags, deaths, group members); (b) random scalar and
entity programs; (c) programs of all the other checks (their random and
enumerated workloads) - each compiled without the optimizer and with it at
several inlining thresholds.  Monitor: the ordered log of observable effects
and the world after every step (main, interfaces, ticks) of one history.
Oracle: the log of the unoptimized pack; plus the set of entry files."""
import random

from acv import ent, gen, hostile, kit, runner, universal as U
from acv import vm as vmmod
from acv.lang import text

PROPERTY = "C06"
RULE = ("one evaluation = one optimized pack executed and its effect log and "
        "worlds compared with those of the unoptimized pack of the same "
        "program and options; non-trivial = the optimizer changed the "
        "commands and at least one effect was observed, distinct by source "
        "text and threshold")
ASSUME = ["conditions of one execute command are evaluated before its command "
          "runs; functions run to completion",
          "random draws come in the same order in both runs"]
LEVEL = "exploration"
SIZES = [0, 1, 2, 3, 4, 5, 8, 20, 50, 1000]
EK = [
    dict(structs=1, ifaces=1),
    dict(templates=3, templates2=1, methods=2, virtuals=1, groups=.4,
         mcalls=3, n_top=8, funcs=1, inlines=1),
    dict(templates=2, templates2=0, methods=.5, groups=3, ent_stmts=.85,
         tags=1, n_top=14, funcs=2, inlines=1, externs=2),
]


def cases(tier, seed):
    q = tier == "quick"
    out = [("host", s) for s in runner.spread(seed, "C06h", 600 if q else
                                              9000)]
    out += [("rnd", s) for s in runner.spread(seed, "C06r", 220 if q else
                                              4000)]
    out += [("ent", s) for s in runner.spread(seed, "C06e", 220 if q else
                                              4000)]
    out += U.pool(seed, "C06", 320 if q else 3200)
    random.Random("%sC06" % seed).shuffle(out)
    return out


def programs(case):
    """[(sources, main, cfg)]"""
    r = random.Random("%r" % (case,))
    if case[0] == "host":
        return [(hostile.make(case[1]), "main.aca", {})]
    if case[0] == "rnd":
        m = gen.make(r, ifs=1.2, loops=1.0, fors=.6, effect_funcs=.8,
                     block=r.choice([2, 3, 4]), ifaces=r.choice([0, 1, 2]),
                     raws=.3, observe=.8, depth=2,
                     funcs=r.choice([2, 4]), inlines=r.choice([1, 2]),
                     n_top=r.choice([8, 14]))
        return [(text(m[0]), "main.aca", {})] if m else []
    if case[0] == "ent":
        m = ent.make(r, **r.choice(EK))
        return [(text(m[0]), "main.aca", {})] if m else []
    return U.harvest(case[1], case[2], most=2)


def run_case(case, mon):
    r = random.Random("%rx" % (case,))
    for sources, main, cfg in programs(case):
        one(mon, r, U.as_module(r, sources), main, cfg)


def key_of(sources):
    return sources if isinstance(sources, str) else "\n".join(
        "%s:\n%s" % kv for kv in sorted(sources.items()))


def one(mon, r, sources, main, cfg):
    cfg = dict(cfg)
    if r.random() < .15:
        cfg["split_init"] = True
    if r.random() < .15:
        cfg["debug_comments"] = True
    cfg.pop("max_inline_file_size", None)
    cfg["optimizer"] = False
    a = kit.compile_src(sources, main=main, **cfg)
    src = key_of(sources)
    if a.kind != "ok":
        # not a program of this property; both modes must agree on that
        cfg["optimizer"] = True
        b = kit.compile_src(sources, main=main, **cfg)
        if b.kind != a.kind:
            mon.violation("verdict", "%s without but %s with the optimizer: "
                          "%s" % (a.kind, b.kind, a.message or b.message),
                          source=src, config=cfg)
        mon.count("refused")
        return
    fa = a.functions()
    ifaces = U.entries(fa, cfg)
    seed = r.randrange(1 << 30)
    steps = U.plan(ifaces, bool(a.tick_paths()), seed)
    try:
        oa = U.execute(a, cfg, steps, seed, budget=150000)
    except vmmod.BudgetExceeded:
        mon.count("endless")
        return
    mon.count("programs")
    mon.count("effects", len(oa.trace))
    mon.count("steps", len(steps))
    mon.count("interfaces", len(ifaces))
    mon.count("ticks", steps.count("tick"))
    seen = []
    for size in r.sample(SIZES, 3) + [20]:
        cb = dict(cfg, optimizer=True, max_inline_file_size=size)
        b = kit.compile_src(sources, main=main, **cb)
        if b.kind != "ok":
            mon.violation("refused", "accepted without, %s with the "
                          "optimizer: %s" % (b.kind, b.message), source=src,
                          config=cb, traceback=b.tb or "")
            return
        fb = b.functions()
        missing = [p for p in [x for x in fa if x in entry_set(fa, cfg)]
                   if p not in fb]
        if missing:
            mon.violation("entry", "entry function %s does not exist with "
                          "the optimizer" % missing, source=src, config=cb)
            return
        if a.tick_paths() != b.tick_paths():
            mon.violation("tick", "tick.json is %r without, %r with the "
                          "optimizer" % (a.tick_paths(), b.tick_paths()),
                          source=src, config=cb)
            return
        if fb in seen:
            mon.count("same_output")
            continue
        seen.append(fb)
        mon.evaluated()
        try:
            ob = U.execute(b, cb, steps, seed, budget=300000)
        except vmmod.BudgetExceeded:
            mon.violation("endless", "the optimized commands do not stop",
                          source=src, config=cb)
            return
        d = U.same(oa, ob)
        if d:
            mon.violation("diff", "unoptimized versus optimized "
                          "(max_inline_file_size=%d): %s" % (size, d),
                          source=src, config=cb, steps=steps, wseed=seed)
            return
        bad = [f for f in ob.faults if f not in oa.faults
               and f[0] in ("syntax", "literal-range", "missing-func",
                            "undeclared-obj")]
        if bad:
            mon.violation("fault", "only with the optimizer: %s: %s"
                          % bad[0], source=src, config=cb)
            return
        mon.count("executed_optimized")
        mon.count("functions_removed", max(0, len(fa) - len(fb)))
        mon.count("inlined", sum(t.count("inlined by optimizer")
                                 for t in fb.values()))
        if fb != fa and len(oa.trace) > 1:
            mon.nontrivial(src, size)
    mon.sample(src)


def entry_set(files, cfg):
    root = cfg.get("root_folder") or ""
    pre = root + "/" if root else ""
    internal = pre + (cfg.get("internal_folder") or "_acacia") + "/"
    return {p for p in files if not p.startswith(internal)
            or p == internal + "tick"}


MIN = {"programs": 900, "executed_optimized": 1500, "effects": 30000,
       "ticks": 500, "interfaces": 200, "inlined": 2000}
