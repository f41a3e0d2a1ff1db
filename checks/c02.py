"""C02: truth values.

Workload: every pair of boolean operand kinds under and/or/==/!=, negations
and comparisons, in every context; conjunctions/disjunctions of comparisons of
one variable with (extreme) constants evaluated at and around every boundary;
random programs.  Oracle: the reference interpreter."""
import itertools
import random

from acv import prog, runner
from acv.lang import INT_MAX, INT_MIN
from acv.prog import Shapes

PROPERTY = "C02"
RULE = ("one evaluation = one program compiled, executed on the VM and "
        "compared snapshot by snapshot with the reference interpreter; "
        "non-trivial = at least one snapshot, distinct by source text")
ASSUME = ["Bedrock evaluates `if score` / `unless score` sub-commands and "
          "ranges (`matches`, with ! for exclusion) as documented"]
LEVEL = "exploration"

V = lambda n: ("v", n)
CMP = ["==", "!=", "<", ">", "<=", ">="]
K = ["True", "False", "p", "q", "field", "call", "inl", "not p", "a<b",
     "a!=b", "a==5", "a!=5", "a>max-1", "a<min+1", "5<=a", "a+1>b", "a<b<=3",
     "p and q", "p or q", "p and a>3", "p or a<b", "not (p and q)",
     "not (p or q)", "p==q", "p!=q", "not (a<b<=3)", "and3", "or3", "mix",
     "constK", "p==True"]


def op(k):
    p, q, a, b = V("p"), V("q"), V("a"), V("b")
    cm = lambda x, o, y: ("cmp", [x, y], [o])
    i = lambda n: ("i", n)
    return {
        "True": ("b", True), "False": ("b", False), "p": p, "q": q,
        "field": ("f", V("s"), "y"),
        "call": ("call", "fb", [p], []), "inl": ("call", "gb", [q], []),
        "not p": ("un", "not", p),
        "a<b": cm(a, "<", b), "a!=b": cm(a, "!=", b), "a==5": cm(a, "==", i(5)),
        "a!=5": cm(a, "!=", i(5)), "a>max-1": cm(a, ">", i(INT_MAX - 1)),
        "a<min+1": cm(a, "<", i(INT_MIN + 1)), "5<=a": cm(i(5), "<=", a),
        "a+1>b": cm(("bin", "+", a, i(1)), ">", b),
        "a<b<=3": ("cmp", [a, b, i(3)], ["<", "<="]),
        "p and q": ("and", [p, q]), "p or q": ("or", [p, q]),
        "p and a>3": ("and", [p, cm(a, ">", i(3))]),
        "p or a<b": ("or", [p, cm(a, "<", b)]),
        "not (p and q)": ("un", "not", ("and", [p, q])),
        "not (p or q)": ("un", "not", ("or", [p, q])),
        "p==q": cm(p, "==", q), "p!=q": cm(p, "!=", q),
        "not (a<b<=3)": ("un", "not", ("cmp", [a, b, i(3)], ["<", "<="])),
        "and3": ("and", [p, q, cm(a, ">", b)]),
        "or3": ("or", [p, q, cm(a, ">", b)]),
        "mix": ("or", [("and", [p, q]), ("un", "not", ("or", [q, cm(
            a, "<", i(0))]))]),
        "constK": V("B"), "p==True": cm(p, "==", ("b", True)),
    }[k]


def more_prelude():
    p = prog.int_prelude()
    p += [("const", [("B", None, ("b", True))]),
          ("def", "def", "fb", [("n", "bool", "", None)], ("", "bool"),
           [("result", ("un", "not", V("n")))]),
          ("def", "inline", "gb", [("n", "bool", "", None)], ("", "bool"),
           [("result", ("or", [V("n"), ("cmp", [V("n"), V("n")], ["!="])]))]),
          ]
    return p


class S(Shapes):
    def __init__(self, r):
        super().__init__(r, more_prelude())

    def add(self, stmts):
        from acv.lang import Ref, UB
        for _ in range(10):
            part = self.setup() + stmts
            try:
                Ref(20000).run_main(more_prelude() + part)
            except UB:
                continue
            self.prog += part + self.dump()
            return True
        return False


def forms(e, k):
    t = V("t")
    return {
        "assign": [("assign", V("u"), e)],
        "self": [("assign", V("p"), e)],
        "auto": [("auto", "z%d" % k, e), ("assign", V("u"), V("z%d" % k))],
        "if": [("if", [(e, [("assign", t, ("i", 5))])],
                [("assign", t, ("i", 6))])],
        "elif": [("if", [(V("q"), [("assign", t, ("i", 4))]),
                         (e, [("assign", t, ("i", 5))])], None)],
        "int": [("assign", t, ("bin", "*", ("int", e), ("i", 3)))],
        "arg": [("assign", V("u"), ("call", "fb", [e], []))],
        "iarg": [("assign", V("u"), ("call", "gb", [e], []))],
        "not": [("assign", V("u"), ("un", "not", e))],
        "field": [("assign", ("f", V("s"), "y"), e)],
        "eq": [("assign", V("q"), ("cmp", [e, V("q")], ["=="]))],
        "while": [("vardef", "w%d" % k, "int", ("i", 0)),
                  ("while", ("and", [("cmp", [V("w%d" % k), ("i", 2)], ["<"]),
                                     e]),
                   [("aug", "+", V("w%d" % k), ("i", 1)),
                    ("aug", "+", t, ("i", 1))])],
    }


FORM_NAMES = list(forms(("b", True), 0))
JOIN = ["and", "or", "==", "!="]


def combos():
    return list(itertools.product(range(len(K)), JOIN, range(len(K))))


def cases(tier, seed):
    rounds = 1 if tier == "quick" else 8
    out = []
    n = len(combos())
    for k in range(rounds):
        for i in range(0, n, 16):
            out.append(("pair", seed * 1000 + k, i))
    for s in runner.spread(seed, "C02r", 300 if tier == "quick" else 6000):
        out.append(("range", s))
    for s in runner.spread(seed, "C02", 400 if tier == "quick" else 10000):
        out.append(("rnd", s))
    return out


CONSTS = [0, 1, 2, 3, 5, -1, -2, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1]


def range_expr(r, d, consts):
    x = r.random()
    if d == 0 or x < 0.3:
        c = r.choice(CONSTS)
        consts.append(c)
        v = V(r.choice("aaab"))
        if r.random() < 0.3:
            c2 = r.choice(CONSTS)
            consts.append(c2)
            return ("cmp", [("i", c), v, ("i", c2)],
                    [r.choice(CMP), r.choice(CMP)])
        if r.random() < 0.4:
            return ("cmp", [("i", c), v], [r.choice(CMP)])
        return ("cmp", [v, ("i", c)], [r.choice(CMP)])
    if x < 0.45:
        return ("un", "not", range_expr(r, d - 1, consts))
    if x < 0.5:
        return V(r.choice("pq"))
    k = "and" if r.random() < 0.65 else "or"
    return (k, [range_expr(r, d - 1, consts)
                for _ in range(r.choice([2, 2, 3, 4]))])


def run_case(case, mon):
    r = random.Random("%r" % (case,))
    if case[0] == "rnd":
        prog.run_random(mon, case[1], depth=r.choice([2, 3, 4]), bools=1.0,
                        big=r.choice([.05, .2, .6]), ifs=1.0,
                        structs=r.choice([0, 0, 1]))
        mon.count("random_programs")
        return
    s = S(r)
    if case[0] == "pair":
        for l, j, rr in combos()[case[2]:case[2] + 16]:
            L, R = op(K[l]), op(K[rr])
            e = (j, [L, R]) if j in ("and", "or") else ("cmp", [L, R], [j])
            for f in r.sample(FORM_NAMES, 4):
                if s.add(forms(e, s.n)[f]):
                    mon.count("pair_statements")
        prog.run_fixed(mon, s.prog, key="pair:", sample=False)
        return
    p = more_prelude()
    n = 0
    for _ in range(6):
        consts = []
        e = range_expr(r, r.choice([1, 2, 3]), consts)
        pts = sorted({min(INT_MAX, max(INT_MIN, c + d)) for c in consts
                      for d in (-1, 0, 1)} | {0}) or [0]
        body = [("assign", V("u"), e),
                ("assign", ("scb", "o1"), ("int", V("u"))),
                ("if", [(e, [("assign", ("scb", "o2"), ("i", 1))])],
                 [("assign", ("scb", "o2"), ("i", 0))])]
        for c in r.sample(pts, min(len(pts), 7)):
            n += 1
            p += [("assign", V("a"), ("i", c)),
                  ("assign", V("b"), ("i", r.choice(pts))),
                  ("assign", V("p"), ("b", r.random() < .5)),
                  ("assign", V("q"), ("b", r.random() < .5))]
            p += body + [("snap", n)]
    mon.count("range_points", n)
    prog.run_fixed(mon, p, key="range:", sample=False)


MIN = {"pair_statements": 10000, "range_points": 3000, "random_programs": 300,
       "snapshots": 10000}
