"""Workloads shared by the checks on the scalar part of the language:
random programs (acv.gen) and systematically enumerated statement shapes,
each compared with the reference interpreter on the monitored VM."""
import random

from . import gen
from .lang import INT_MAX, INT_MIN, Ref, UB, text, toks, join, Style

ALL_FAULTS = ("syntax", "literal-range", "missing-func", "undeclared-obj")


def observe(mon, prog, sched, ref, v, src=None):
    """what the monitors saw in one agreeing execution"""
    mon.evaluated()
    mon.count("snapshots", len(ref.trace))
    mon.count("commands_executed", v.stats["cmds"])
    mon.count("score_writes", v.stats["writes"])
    mon.count("function_calls", v.stats["calls"])
    mon.count("source_branches", ref.stats["branches"])
    mon.count("loop_iterations", ref.stats["loops"])
    mon.count("source_calls", ref.stats["calls"])
    if ref.trace:
        mon.nontrivial(text(prog), sched)


def run_random(mon, seed, key="", cfg=None, style=None, **knobs):
    rng = random.Random(seed)
    m = gen.make(rng, **knobs)
    if m is None:
        mon.count("discarded")
        return None
    prog, sched, ref = m
    v = gen.check(mon, prog, sched, ref, key=key, cfg=cfg, style=style)
    if v is None:
        # smallest prefix that still misbehaves helps the reader
        return None
    observe(mon, prog, sched, ref, v)
    mon.sample(text(prog))
    return prog, sched, ref, v


def run_fixed(mon, prog, key="", sched=(), cfg=None, sample=True, limit=20000):
    """a hand-made or enumerated program (AST)"""
    ref = Ref(limit)
    ref.run_main(prog)
    for p in sched:
        if p is None:
            ref.run_main(prog)
        else:
            ref.run_iface(p)
    v = gen.check(mon, prog, list(sched), ref, key=key, cfg=cfg)
    if v is None:
        return None
    observe(mon, prog, list(sched), ref, v)
    if sample:
        mon.sample(text(prog))
    return v


# --- enumerated integer shapes ------------------------------------------------

VALS = [0, 1, 2, 3, 5, 7, 10, -1, -2, -3, -7, 13, 100, -100, 46341, -46341,
        65536, 1 << 30, -(1 << 30), INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1]

INT_KINDS = ["lit0", "lit1", "lit-1", "lit7", "lit-13", "max", "min", "const",
             "a", "b", "scb", "field", "call", "callg", "inl", "inlref",
             "intb", "intcmp", "intor", "a+1", "a*b", "-a", "+a", "a-b*2",
             "(a+b)*(a-b)", "ctcall", "a/7", "b%5"]


def operand(kind):
    V = lambda n: ("v", n)
    A, B = V("a"), V("b")
    bi = lambda o, x, y: ("bin", o, x, y)
    return {
        "lit0": ("i", 0), "lit1": ("i", 1), "lit-1": ("i", -1),
        "lit7": ("i", 7), "lit-13": ("i", -13), "max": ("i", INT_MAX),
        "min": ("i", INT_MIN), "const": V("K"), "a": A, "b": B,
        "scb": ("scb", "h"), "field": ("f", V("s"), "x"),
        "call": ("call", "fid", [A], []),
        "callg": ("call", "fid", [bi("+", A, B)], []),
        "inl": ("call", "finl", [B], []),
        "inlref": ("call", "fref", [A], []),
        "intb": ("int", V("p")), "intcmp": ("int", ("cmp", [A, B], ["<"])),
        "intor": ("int", ("or", [V("p"), ("cmp", [A, ("i", 3)], [">"])])),
        "a+1": bi("+", A, ("i", 1)), "a*b": bi("*", A, B),
        "-a": ("un", "-", A), "+a": ("un", "+", A),
        "a-b*2": bi("-", A, bi("*", B, ("i", 2))),
        "(a+b)*(a-b)": bi("*", bi("+", A, B), bi("-", A, B)),
        "ctcall": ("call", "fct", [("i", 4)], []),
        "a/7": bi("/", A, ("i", 7)), "b%5": bi("%", B, ("i", 5)),
    }[kind]


def int_prelude():
    V = lambda n: ("v", n)
    return [
        ("struct", "S", [], [("x", "int"), ("y", "bool")]),
        ("const", [("K", None, ("i", -5))]),
        ("vardef", "a", "int", ("i", 0)), ("vardef", "b", "int", ("i", 0)),
        ("vardef", "t", "int", ("i", 0)),
        ("vardef", "p", "bool", ("b", False)),
        ("vardef", "q", "bool", ("b", True)),
        ("vardef", "u", "bool", ("b", True)),
        ("vardef", "s", "S", ("new", "S", [("x", ("i", 1)),
                                           ("y", ("b", True))])),
        ("assign", ("scb", "h"), ("i", 0)),
        ("def", "def", "fid", [("n", "int", "", None)], ("", "int"),
         [("result", ("bin", "-", ("bin", "+", V("n"), ("i", 3)),
                      ("i", 3)))]),
        ("def", "inline", "finl", [("n", "int", "", None)], ("", "int"),
         [("result", ("bin", "*", V("n"), ("i", 2)))]),
        ("def", "inline", "fref", [("n", "int", "&", None)], ("&", "int"),
         [("result", V("n"))]),
        ("def", "const", "fct", [("n", "int", "", None)], ("", "int"),
         [("result", ("bin", "*", V("n"), ("i", -3)))]),
    ]


class Shapes:
    """packs enumerated statements into programs that the reference accepts"""

    def __init__(self, rng, prelude=None):
        self.r = rng
        self.prog = prelude or int_prelude()
        self.n = 0

    def setup(self):
        r = self.r
        v = lambda: ("i", r.choice(VALS) if r.random() < 0.75
                     else r.randint(INT_MIN, INT_MAX))
        bo = lambda: ("b", r.random() < 0.5)
        return [("assign", ("v", "a"), v()), ("assign", ("v", "b"), v()),
                ("assign", ("v", "t"), v()), ("assign", ("v", "p"), bo()),
                ("assign", ("v", "q"), bo()), ("assign", ("v", "u"), bo()),
                ("assign", ("f", ("v", "s"), "x"), v()),
                ("assign", ("f", ("v", "s"), "y"), bo()),
                ("assign", ("scb", "h"), v())]

    def dump(self):
        self.n += 1
        V = lambda n: ("v", n)
        return [("assign", ("scb", "oa"), V("a")),
                ("assign", ("scb", "ob"), V("b")),
                ("assign", ("scb", "ot"), V("t")),
                ("assign", ("scb", "op"), ("int", V("p"))),
                ("assign", ("scb", "oq"), ("int", V("q"))),
                ("assign", ("scb", "ou"), ("int", V("u"))),
                ("assign", ("scb", "os"), ("f", V("s"), "x")),
                ("assign", ("scb", "oy"), ("int", ("f", V("s"), "y"))),
                ("snap", self.n)]

    def add(self, stmts, mon=None):
        """append setup + stmts + dump if some operand values keep it in the
        defined domain"""
        for _ in range(25):
            part = self.setup() + stmts
            try:
                Ref(20000).run_main(int_prelude() + part)
            except UB:
                continue
            self.prog += part + self.dump()
            return True
        return False


def name_of(stmts):
    return text(stmts).strip().replace("\n", " ; ")
