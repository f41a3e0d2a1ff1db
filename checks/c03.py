"""C03: control flow.

Workload: enumerated if/elif/else and while shapes - every combination of
condition kind, body kind (including bodies that change what the condition
reads, call functions, are empty, or contain further control flow) and
surrounding construct (main, function, inline function, interface, for body) -
plus random programs.  Monitor: ordered log of marker snapshots and counters.
Oracle: the reference interpreter."""
import itertools
import random

from acv import prog, runner

PROPERTY = "C03"
RULE = ("one evaluation = one program compiled, executed on the VM and its "
        "ordered marker log compared with the reference interpreter's; "
        "non-trivial = at least one marker, distinct by source text")
ASSUME = ["Bedrock evaluates all conditions of one execute command before "
          "running its command, and functions run to completion"]
LEVEL = "exploration"

V = lambda n: ("v", n)
I = lambda n: ("i", n)


def conds():
    p, q, a, b = V("p"), V("q"), V("a"), V("b")
    cm = lambda x, o, y: ("cmp", [x, y], [o])
    return {
        "p": p, "not p": ("un", "not", p), "a<3": cm(a, "<", I(3)),
        "a<b": cm(a, "<", b), "a!=b": cm(a, "!=", b),
        "p and a<3": ("and", [p, cm(a, "<", I(3))]),
        "p or a<3": ("or", [p, cm(a, "<", I(3))]),
        "expr": cm(("bin", "+", a, b), ">", I(2)),
        "call": ("call", "fb", [p], []),
        "efcall": ("call", "fe", [p], []),
        "inlcall": ("call", "gb", [q], []),
        "T": ("b", True), "F": ("b", False), "K": V("B"),
        "p==q": cm(p, "==", q), "field": ("f", V("s"), "y"),
    }


CK = list(conds())


class B:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.w = 0

    def snap(self):
        self.n += 1
        return ("snap", self.n)

    def block(self, d, kind=None):
        r = self.r
        k = kind or r.choice(["pass", "mark", "flip", "many", "call", "set",
                              "if", "for", "while", "setcond"])
        t = V("t")
        if k == "pass":
            return [("pass",)]
        if k == "mark":
            return [self.snap()]
        if k == "flip":
            return [("assign", V("p"), ("un", "not", V("p"))),
                    ("assign", V("a"), ("bin", "-", V("b"), V("a"))),
                    ("assign", V("q"), ("un", "not", V("q"))), self.snap()]
        if k == "setcond":
            return [("assign", V("a"), I(r.choice([0, 2, 3, 5]))),
                    ("assign", V("p"), ("b", r.random() < .5)),
                    ("assign", ("f", V("s"), "y"), ("b", r.random() < .5)),
                    self.snap()]
        if k == "many":
            return [("aug", "+", t, I(1)), self.snap(),
                    ("aug", "*", t, V("b")), ("assign", V("p"), V("q")),
                    self.snap(), ("assign", ("scb", "ot"), t), self.snap()]
        if k == "call":
            return [("expr", ("call", r.choice(["ev", "iv"]), [], [])),
                    self.snap()]
        if k == "set":
            return [("assign", t, ("bin", "+", t, I(r.randint(1, 9))))]
        if k == "for":
            if d <= 0:
                return [self.snap()]
            return [("for", "i", r.choice([
                ("list", []), ("list", [I(4)]), ("list", [I(3), I(1), I(3)]),
                ("range", [I(3)]), ("range", [I(5), I(0), I(-2)]),
                ("range", [I(2), I(6)])]),
                self.block(d - 1) + [("assign", t, ("bin", "+", (
                    "bin", "*", t, I(3)), V("i")))])]
        if k == "if":
            return [self.if_(d - 1)] if d > 0 else [self.snap()]
        return self.while_(d - 1) if d > 0 else [self.snap()]

    def cond(self, noconst=False):
        c = self.r.choice(CK)
        return conds()[c]

    def if_(self, d, ck=None, n_elif=None, has_else=None):
        r = self.r
        n = r.choice([0, 0, 1, 2]) if n_elif is None else n_elif
        arms = [(conds()[ck] if ck else self.cond(), self.block(d))]
        arms += [(self.cond(), self.block(d)) for _ in range(n)]
        e = r.random() < 0.6 if has_else is None else has_else
        return ("if", arms, self.block(d) if e else None)

    def while_(self, d, ck=None):
        """a loop with a run-time counter guard"""
        r = self.r
        self.w += 1
        w = "w%d" % self.w
        lim = r.choice([0, 1, 2, 4])
        g = ("cmp", [V(w), I(lim)], ["<"])
        mode = r.choice(["guard", "and", "call"])
        inc = ("aug", "+", V(w), I(1))
        out = [("vardef", w, "int", I(0))]
        body = self.block(d)
        if mode == "guard":
            c = g
        elif mode == "and":
            cc = conds()[ck] if ck and ck not in (
                "call", "efcall", "inlcall", "T", "F") else \
                r.choice([V("p"), ("cmp", [V("a"), I(3)], ["<"]),
                          ("un", "not", V("q"))])
            c = ("and", [g, cc] if r.random() < .5 else [cc, g])
        else:
            c = ("call", "lim", [V(w)], [])
        at = r.choice([0, len(body)])
        body = body[:at] + [inc] + body[at:]
        return out + [("while", c, body), self.snap()]


def prelude():
    p = [("struct", "S", [], [("x", "int"), ("y", "bool")]),
         ("const", [("B", None, ("b", True))]),
         ("vardef", "a", "int", I(0)), ("vardef", "b", "int", I(2)),
         ("vardef", "t", "int", I(1)),
         ("vardef", "p", "bool", ("b", True)),
         ("vardef", "q", "bool", ("b", False)),
         ("vardef", "s", "S", ("new", "S", [("x", I(1)),
                                            ("y", ("b", True))])),
         ("assign", ("scb", "ot"), I(0)),
         ("def", "def", "fb", [("n", "bool", "", None)], ("", "bool"),
          [("result", ("un", "not", V("n")))]),
         ("def", "def", "fe", [("n", "bool", "", None)], ("", "bool"),
          [("aug", "+", V("t"), I(1)), ("snap", 9001),
           ("result", ("cmp", [V("n"), V("q")], ["!="]))]),
         ("def", "inline", "gb", [("n", "bool", "", None)], ("", "bool"),
          [("result", ("or", [V("n"), ("cmp", [V("a"), I(1)], ["=="])]))]),
         ("def", "def", "lim", [("n", "int", "", None)], ("", "bool"),
          [("snap", 9002), ("result", ("cmp", [V("n"), I(3)], ["<"]))]),
         ("def", "def", "ev", [], None,
          [("aug", "+", V("t"), I(2)),
           ("assign", V("p"), ("un", "not", V("p"))), ("snap", 9003)]),
         ("def", "inline", "iv", [], None,
          [("assign", V("a"), ("bin", "+", V("a"), I(1))),
           ("if", [(("cmp", [V("a"), I(2)], [">"]), [("snap", 9004)])],
            [("snap", 9005)])]),
         ]
    return p


def tail(b):
    out = []
    for n in "abt":
        out.append(("assign", ("scb", "o" + n), V(n)))
    for n in "pq":
        out.append(("assign", ("scb", "o" + n), ("int", V(n))))
    return out + [b.snap()]


WRAP = ["main", "def", "inline", "iface", "for"]


def cases(tier, seed):
    out = []
    rounds = 6 if tier == "quick" else 90
    for k in range(rounds):
        for c in range(len(CK)):
            for w in range(len(WRAP)):
                out.append(("shape", seed * 1000 + k, c, w))
    out += [("rnd", s) for s in runner.spread(
        seed, "C03", 400 if tier == "quick" else 12000)]
    return out


def run_case(case, mon):
    r = random.Random("%r" % (case,))
    if case[0] == "rnd":
        prog.run_random(mon, case[1], ifs=1.0, loops=1.0, fors=0.8,
                        effect_funcs=0.8, block=r.choice([2, 3, 4, 5]),
                        ifaces=r.choice([0, 1, 2]), raws=.2, observe=.8,
                        depth=2, n_top=r.choice([8, 14, 20]))
        mon.count("random_programs")
        return
    b = B(r)
    p = prelude()
    body = []
    ck = CK[case[2]]
    for n_elif in (0, 1, 2):
        for has_else in (False, True):
            body += [("assign", V("a"), I(r.choice([0, 2, 3]))),
                     ("assign", V("p"), ("b", r.random() < .5)),
                     ("assign", V("q"), ("b", r.random() < .5))]
            body += [b.if_(2, ck, n_elif, has_else)] + tail(b)
            mon.count("if_shapes")
    body += b.while_(2, ck) + tail(b)
    body += b.while_(1, ck) + tail(b)
    mon.count("while_shapes", 2)
    w = WRAP[case[3]]
    sched = []
    if w == "main":
        p += body
    elif w == "def":
        p += [("def", "def", "m", [], None, body),
              ("expr", ("call", "m", [], [])),
              ("expr", ("call", "m", [], []))] + tail(b)
    elif w == "inline":
        p += [("def", "inline", "m", [], None, body),
              ("expr", ("call", "m", [], [])),
              ("expr", ("call", "m", [], []))] + tail(b)
    elif w == "for":
        p += [("for", "j", ("range", [I(2)]), body)] + tail(b)
    else:
        p += [("iface", "go", body)]
        sched = ["go", "go", None, "go"]
    prog.run_fixed(mon, p, key="shape:", sched=sched, sample=case[2] == 0)


MIN = {"if_shapes": 2000, "while_shapes": 600, "random_programs": 300,
       "snapshots": 8000, "loop_iterations": 2000}
