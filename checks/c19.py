"""C19: scheduled work runs exactly at its tick.

Workload: random programs with several tasks (def / inline / argument-taking
targets, some of them controlling earlier tasks), several registered loops
(constant, variable and compound intervals), interfaces that request, re-
request, cancel and query; random histories of ticks, interface calls and
re-runs of main.  Monitor: the marker log of every single history step against
a model of the tasks."""
import random

from acv import gen, kit, prog, runner, vm as vmmod
from acv.lang import Ref, UB, text

PROPERTY = "C19"
RULE = ("one evaluation = one program driven through one history of ticks and "
        "interface calls, its marker log compared with the model after every "
        "step; distinct by program text and history")
ASSUME = ["a request of d ticks made between two ticks is served by the tick "
          "that starts when the documented _timer (d, one less after every "
          "tick) is 0",
          "within one tick, tasks and loops act in the order of creation",
          "main has run before the first tick"]
LEVEL = "exploration"
V = lambda n: ("v", n)


class Sched(Ref):
    def __init__(self):
        super().__init__(40000)
        self.slots = {}         # name -> [kind, call, timer, interval]
        self.order = []
        self.fired = 0

    def create(self, name, kind, call, interval, sc):
        if name not in self.slots:
            self.order.append(name)
            self.slots[name] = [kind, call, None, interval]
        self.slots[name][2] = -1 if kind == "task" else 0

    def tick_world(self):
        for n in self.order:
            s = self.slots[n]
            if s[0] == "task":
                if s[2] == 0:
                    self.fired += 1
                    self.ev(s[1], self.glob)
                if s[2] >= 0:
                    s[2] -= 1
            elif s[0] == "loop":
                if s[2] <= 0:
                    self.fired += 1
                    self.ev(s[1], self.glob)
                    s[2] = self.ev(s[3], self.glob)
                    if s[2] < 1:
                        raise UB("interval")
                s[2] -= 1


def _call_toks(call, sep=True):
    out = []
    for a in call[2]:
        out += [",", a]
    for n, a in call[3]:
        out += [",", n, "=", a]
    return out


def mktask(name, call):
    return ("xs", ["const", name, "=", "schedule", ".", "Task", "(", call[1]]
            + _call_toks(call) + [")"],
            lambda m, sc: m.create(name, "task", call, None, sc))


def mkloop(r, name, call, interval):
    t = ["schedule", ".", "register_loop", "(", call[1]]
    if interval == ("i", 1) and not call[2] and not call[3] \
            and r.random() < .6:
        pass
    elif not call[2] and r.random() < .4:
        t += [",", "interval", "=", interval]
    else:
        t += [",", interval]
    return ("xs", t + _call_toks(call) + [")"],
            lambda m, sc: m.create(name, "loop", call, interval, sc))


def after(name, e):
    def run(m, sc):
        d = m.ev(e, sc)
        if d < 0:
            raise UB("negative delay")
        m.slots[name][2] = d
    return ("xs", [name, ".", "after", "(", e, ")"], run)


def cancel(name):
    def run(m, sc):
        m.slots[name][2] = -1
    return ("xs", [name, ".", "cancel", "(", ")"], run)


def has(name):
    return ("xe", [name, ".", "has_schedule", "(", ")"],
            lambda m, sc: (m.slots[name][2] >= 0, False))


def timer(name):
    return ("xe", [name, ".", "_timer"], lambda m, sc: (
        m.slots[name][2], False))


class G:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.tasks = []
        self.globs = ["g0", "g1", "g2"]
        self.prog = [("rawline", ["import schedule"])]
        for g in self.globs:
            self.prog.append(("vardef", g, "int", ("i", r.randint(0, 9))))
        self.prog.append(("vardef", "bb", "bool", ("b", False)))
        self.ifaces = []

    def snap(self):
        self.n += 1
        return ("snap", self.n)

    def delay(self, local=None):
        r = self.r
        x = r.random()
        if x < .6:
            return ("i", r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 11, 20]))
        g = V(local or r.choice(self.globs))
        # 0..6 whatever the value
        m = ("bin", "+", ("bin", "%", g, ("i", 4)), ("i", 3))
        return m

    def act(self, out, names, depth=1, local=None):
        """one statement of a body"""
        r = self.r
        x = r.random()
        if names and x < .3:
            out.append(after(r.choice(names), self.delay(local)))
        elif names and x < .4:
            out.append(cancel(r.choice(names)))
        elif names and x < .6:
            t = r.choice(names)
            y = r.random()
            if y < .35:
                out.append(("if", [(has(t), [self.bump()])],
                            [self.bump()] if r.random() < .5 else None))
            elif y < .6:
                out.append(("assign", V("bb"), has(t)))
                out.append(("assign", ("scb", "ob"), ("int", V("bb"))))
            elif y < .75:
                out.append(("if", [(("un", "not", has(t)),
                                    [after(t, self.delay(local))])], None))
            else:
                out.append(("assign", ("scb", "ot"), timer(t)))
        elif x < .75 and depth:
            body = []
            self.act(body, names, depth - 1, local)
            c = ("cmp", [V(r.choice(self.globs)),
                         ("i", r.randint(-5, 40))], [r.choice("<>")])
            out.append(("if", [(c, body)], None))
        else:
            out.append(self.bump(local))

    def bump(self, local=None):
        r = self.r
        g = V(r.choice(self.globs))
        x = r.random()
        if local and x < .5:
            return ("aug", r.choice("+-"), g, V(local))
        if x < .8:
            return ("aug", r.choice("+-+"), g, ("i", r.randint(1, 9)))
        return ("assign", g, ("bin", "%", V(r.choice(self.globs)),
                              ("i", 97)))

    def target(self):
        """a function definition and a call of it"""
        r = self.r
        self.n += 1
        name = "f%d" % self.n
        kind = r.choice(["def", "def", "inline"])
        params, args = [], []
        for i in range(r.choice([0, 0, 1, 1, 2])):
            params.append(("p%d" % i, "int", "const" if kind == "inline"
                           and r.random() < .4 else "",
                           ("i", r.randint(0, 9)) if r.random() < .2
                           or params and params[-1][3] else None))
            args.append(("i", r.randint(-20, 20)))
        body = []
        for _ in range(r.randint(0, 3)):
            self.act(body, self.tasks, 1,
                     params[0][0] if params else None)
        c = "c" + name
        self.prog.append(("assign", ("scb", c), ("i", 0)))
        body.insert(r.randint(0, len(body)),
                    ("aug", "+", ("scb", c), ("i", 1)))
        body.append(("assign", ("scb", "last"), V(params[-1][0])
                     if params else ("i", self.n)))
        body.append(self.snap())
        rt = None
        if r.random() < .3:
            rt = ("", "int")
            body.append(("result", V("g0")))
        self.prog.append(("def", kind, name, params, rt, body))
        npos = r.randint(0, len(args))
        n = len(args)
        if params and params[-1][3] is not None and r.random() < .5:
            n -= 1
        return ("call", name, args[:min(npos, n)],
                [(params[i][0], args[i]) for i in range(min(npos, n), n)])

    def make(self):
        r = self.r
        todo = ["task"] * r.choice([1, 2, 2, 3, 4]) + \
            ["loop"] * r.choice([0, 1, 1, 2, 3]) + \
            ["iface"] * r.choice([2, 3, 4]) + ["act"] * r.choice([0, 1, 3])
        r.shuffle(todo)
        for t in todo:
            if t == "task":
                call = self.target()
                n = "t%d" % self.n
                self.prog.append(mktask(n, call))
                self.tasks.append(n)
            elif t == "loop":
                call = self.target()
                x = r.random()
                if x < .65:
                    iv = ("i", r.choice([1, 1, 2, 2, 3, 4, 5, 10]))
                else:
                    iv = ("bin", "+", ("bin", "%", V(r.choice(self.globs)),
                                       ("i", 3)), ("i", 3))
                    if x < .8:
                        v = "iv%d" % self.n
                        self.prog.append(("vardef", v, "int",
                                          ("i", r.randint(1, 4))))
                        iv = V(v)
                self.prog.append(mkloop(r, "l%d" % self.n, call, iv))
            elif t == "iface":
                self.n += 1
                p = "i/n%d" % self.n
                body = []
                for _ in range(r.randint(1, 4)):
                    self.act(body, self.tasks, 2)
                for i, g in enumerate(self.globs):
                    body.append(("assign", ("scb", "og%d" % i), V(g)))
                body.append(self.snap())
                self.prog.append(("iface", p, body))
                self.ifaces.append(p)
            else:
                self.act(self.prog, self.tasks, 1)
        # every task gets an interface that requests / queries it
        for t in self.tasks:
            for what in ("req", "can", "qry"):
                p = "c/%s%s" % (what, t)
                if what == "req":
                    b = [after(t, self.delay())]
                elif what == "can":
                    b = [cancel(t)]
                else:
                    b = [("assign", ("scb", "q"), ("int", has(t)))]
                self.prog.append(("iface", p, b + [self.snap()]))
                self.ifaces += [p] * (3 if what == "req" else 1)


def cases(tier, seed):
    q = tier == "quick"
    return [("rnd", s) for s in
            runner.spread(seed, "C19", 700 if q else 14000)] + \
        [("exact", s) for s in
         runner.spread(seed, "C19e", 60 if q else 600)] + \
        [("area", s) for s in
         runner.spread(seed, "C19a", 40 if q else 300)]


def run_case(case, mon):
    {"rnd": rnd, "exact": exact, "area": area}[case[0]](
        mon, random.Random("%r" % (case,)))


def drive(mon, p, hist, cfg, model, key):
    src = text(p)
    r0 = kit.compile_src(src, **cfg)
    if not r0.ok:
        mon.violation(key + r0.kind, r0.message, source=src,
                      tb=r0.tb or "")
        return
    v = vmmod.VM(r0.functions(), budget=600000, user_objectives=("obs",))
    trace = []

    def on_raw(vm, ctx, line):
        if line.startswith("snap "):
            trace.append((int(line[5:]), tuple(sorted(
                (h, val) for (h, o), val in vm.scores.items()
                if o == "obs"))))
            return True
        return False
    v.on_raw = on_raw
    ticks = r0.tick_paths()
    pre = cfg.get("root_folder", "")
    pre = pre + "/" if pre else ""
    try:
        for i, h in enumerate(hist):
            del trace[:]
            if h == "tick":
                v.do_tick(ticks)
            else:
                v.run_function(pre + h)
            d = gen.diff(model[i], trace)
            if d:
                mon.violation(key + "diff", "step %d (%s): %s" % (i, h, d),
                              source=src, config=cfg, history=hist[:i + 1])
                return
    except vmmod.BudgetExceeded:
        mon.violation(key + "endless", "commands do not stop", source=src,
                      history=hist)
        return
    bad = [f for f in v.faults if f[0] != "unset-read"]
    if bad:
        mon.violation(key + "fault", "%s: %s" % bad[0], source=src)
        return
    mon.evaluated()
    mon.count("steps", len(hist))
    mon.count("ticks", hist.count("tick"))
    mon.count("markers", sum(map(len, model)))
    mon.nontrivial(src, hist)
    mon.sample(src + "\n" + " ".join(hist))


def rnd(mon, r):
    for _ in range(30):
        g = G(r)
        g.make()
        hist = ["main"]
        for _ in range(r.randint(15, 60)):
            x = r.random()
            if x < .72:
                hist.append("tick")
            elif x < .985:
                hist.append(r.choice(g.ifaces))
            else:
                hist.append("main")
        m = Sched()
        model = []
        try:
            for h in hist:
                m.trace = []
                if h == "main":
                    m.run_main(g.prog)
                elif h == "tick":
                    m.tick_world()
                else:
                    m.run_iface(h)
                model.append(m.trace)
        except UB:
            continue
        break
    else:
        mon.count("discarded")
        return
    cfg = r.choice([{}, {}, {"optimizer": False},
                    {"max_inline_file_size": r.choice([0, 1, 3])},
                    {"root_folder": "my/pack"},
                    {"internal_folder": "lib", "debug_comments": True}])
    mon.count("runs_served", m.fired)
    drive(mon, g.prog, hist, cfg, model, "rnd:")


def exact(mon, r):
    """one task, one request: silent for d ticks, then exactly one run, then
    silent for ever; a loop: ticks 1, 1+i, 1+2i, ..."""
    d = r.choice([0, 1, 2, 3, 5, 10, 19, 20, 37])
    src = ("import schedule\ndef f(n: int):\n    scb(\"o\", \"obs\") = n\n"
           "    /snap 1\nconst t = schedule.Task(f, %s)\n"
           "interface go:\n    t.after(%d)\n"
           "interface q:\n    if t.has_schedule():\n        /snap 5\n"
           "    else:\n        /snap 6\n"
           "def l(n: int):\n    scb(\"l\", \"obs\") = n\n    /snap 2\n"
           % (r.choice(["7", "n=7"]), d))
    ivs = [r.choice([1, 2, 3, 4, 7]) for _ in range(r.choice([0, 1, 2]))]
    for i in ivs:
        src += "schedule.register_loop(l, %d, %d)\n" % (i, i)
    src += "/snap 9\n"
    x = kit.compile_src(src)
    if not x.ok:
        mon.violation("exact:" + x.kind, x.message, source=src)
        return
    trace = []
    v = vmmod.VM(x.functions(), user_objectives=("obs",))
    v.on_raw = lambda vm, ctx, line: (trace.append(
        (line, vm.scores.get(("l", "obs")))), True)[1]
    ticks = x.tick_paths()
    v.run_function("main")
    wait = r.randint(0, 5)
    log = []
    for _ in range(wait):
        del trace[:]
        v.do_tick(ticks)
        log.append(list(trace))
    rq = r.choice([1, 2, 3])       # the latest request counts
    v.run_function("go")
    for _ in range(rq - 1):
        k = r.randint(0, d)
        for _ in range(k):
            del trace[:]
            v.do_tick(ticks)
            log.append(list(trace))
        wait += k
        v.run_function("go")
    ok = True
    for i in range(d + 12):
        del trace[:]
        v.run_function("q")
        pend = trace[-1][0] == "snap 5"
        if pend != (i <= d):
            mon.violation("exact:pending", "%d ticks after a request of %d: "
                          "has_schedule is %s" % (i, d, pend), source=src)
            return
        del trace[:]
        v.do_tick(ticks)
        log.append(list(trace))
        runs = [t for t in trace if t[0] == "snap 1"]
        if len(runs) != (i == d):
            mon.violation("exact:tick", "request of %d: %d runs at tick %d"
                          % (d, len(runs), i), source=src)
            return
    for t, tr in enumerate(log):
        want = sorted(i for i in ivs if t % i == 0)
        got = sorted(n for w, n in tr if w == "snap 2")
        if want != got:
            mon.violation("exact:loop", "intervals %s at tick %d: ran %s"
                          % (ivs, t, got), source=src)
            return
    mon.evaluated()
    mon.count("exact_histories")
    mon.nontrivial(src, wait, rq)


def area(mon, r):
    """area schedules name the right place and a function that performs the
    target; they are not pending requests"""
    x, y, z = [r.randint(-50, 50) for _ in range(3)]
    ox, oy, oz = [r.randint(-9, 9) for _ in range(3)]
    rad = r.randint(0, 9)
    nm = r.choice(["area", "my area", "a-b", "x\\\"y", "A1"])
    form = r.choice(["area", "circle", "ticking"])
    call = {"area": "t.on_area_loaded(Pos(%d, %d, %d), Offset(%d, %d, %d))"
            % (x, y, z, ox, oy, oz),
            "circle": "t.on_circle_loaded(Pos(%d, %d, %d), %d)"
            % (x, y, z, rad),
            "ticking": 't.on_tickingarea("%s")' % nm}[form]
    src = ("import schedule\ndef f(n: int):\n    scb(\"o\", \"obs\") = n\n"
           "    /snap 1\nconst t = schedule.Task(f, 7)\n"
           "interface go:\n    %s\n    if t.has_schedule():\n"
           "        /snap 2\n" % call)
    c = kit.compile_src(src)
    if not c.ok:
        mon.violation("area:" + c.kind, c.message, source=src)
        return
    trace, v = gen.run_pack(c.functions(), ["go"])
    want = {"area": ("area", (x + .5, y, z + .5),
                     (x + .5 + ox, y + oy, z + .5 + oz)),
            "circle": ("circle", (x + .5, y, z + .5), str(rad)),
            "ticking": ("tickingarea", nm.replace("\\", ""))}[form]
    got = [e[0] for e in v.area_scheduled]
    if got:
        got = [g[:1] + tuple(q.strip('"').replace('\\"', '"')
                             if isinstance(q, str) else q for q in g[1:])
               for g in got]
    if got != [want] or trace or v.faults:
        mon.violation("area:command", "%s scheduled %s %s" % (
            call, got, v.faults[:1]), source=src)
        return
    v.run_function(v.area_scheduled[0][1])
    for _ in range(5):
        v.do_tick(c.tick_paths())
    if trace != [(1, (("o", 7),))]:
        mon.violation("area:target", "area target logged %s" % trace,
                      source=src)
        return
    mon.evaluated()
    mon.count("area_schedules")
    mon.nontrivial(src)


MIN = {"ticks": 8000, "runs_served": 2500, "markers": 4000,
       "exact_histories": 50, "area_schedules": 30}
