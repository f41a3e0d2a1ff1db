"""C01: 32-bit integer semantics.

Workload: every (operand kind x operator x operand kind) combination in every
statement form, plus random programs; monitor: score snapshots taken by marker
commands in the VM; oracle: the reference interpreter."""
import itertools
import random

from acv import prog, runner
from acv.prog import INT_KINDS, Shapes, operand

PROPERTY = "C01"
RULE = ("one evaluation = one program compiled, executed on the VM and "
        "compared snapshot by snapshot with the reference interpreter; "
        "non-trivial = the program produced at least one snapshot, distinct "
        "by source text")
ASSUME = ["the VM implements Bedrock scoreboard arithmetic (32-bit wrapping, "
          "truncating / and %) as documented",
          "division by zero and INT_MIN / -1 are outside the property"]
LEVEL = "exploration"

OPS = "+-*/%"
FORMS = ["auto", "assign", "assign_l", "aug", "arg", "result", "cmp",
         "nest_l", "nest_r", "neg", "init", "scb", "field"]
QUICK_FORMS_PER = 4


def combos():
    return list(itertools.product(range(len(INT_KINDS)), OPS,
                                  range(len(INT_KINDS))))


def cases(tier, seed):
    n = {"quick": 400, "thorough": 12000}[tier]
    out = []
    per = 24
    allc = len(combos())
    rounds = 1 if tier == "quick" else 6
    for k in range(rounds):
        for i in range(0, allc, per):
            out.append(("shape", seed * 1000 + k, i, per))
    for i in range(0, len(INT_KINDS) * 5 * 3):
        if tier == "thorough" or i % 1 == 0:
            out.append(("aug", seed * 1000, i))
    out += [("rnd", s) for s in runner.spread(seed, "C01", n)]
    return out


def form(f, op, L, R, k):
    e = ("bin", op, L, R)
    V = lambda n: ("v", n)
    if f == "auto":
        return [("auto", "z%d" % k, e), ("assign", V("t"), V("z%d" % k))]
    if f == "init":
        return [("vardef", "z%d" % k, "int", e),
                ("assign", V("t"), V("z%d" % k))]
    if f == "assign":
        return [("assign", V("t"), e)]
    if f == "assign_l":
        return [("assign", V("a"), e)]
    if f == "aug":
        return [("aug", op, V("a"), e)]
    if f == "arg":
        return [("assign", V("t"), ("call", "fid", [e], []))]
    if f == "result":
        return [("def", "inline", "g%d" % k, [("n", "int", "", None)],
                 ("", "int"), [("result", ("bin", "+", V("n"), e))]),
                ("assign", V("b"), ("call", "g%d" % k, [V("a")], []))]
    if f == "cmp":
        return [("assign", V("u"), ("cmp", [e, L], ["<="])),
                ("if", [(("cmp", [R, e], ["=="]),
                         [("assign", V("t"), ("i", 5))])], None)]
    if f == "nest_l":
        return [("assign", V("b"), ("bin", "-", e, V("b")))]
    if f == "nest_r":
        return [("assign", V("b"), ("bin", "-", V("b"), e))]
    if f == "neg":
        return [("assign", V("t"), ("un", "-", e))]
    if f == "scb":
        return [("assign", ("scb", "h"), e)]
    return [("assign", ("f", V("s"), "x"), e)]


def run_case(case, mon):
    if case[0] == "rnd":
        r = random.Random(case[1])
        prog.run_random(mon, case[1], bools=r.choice([0.3, 1.0]),
                        depth=r.choice([2, 3, 4]), big=r.choice([.05, .2, .6]),
                        structs=r.choice([0, 0, 1]))
        mon.count("random_programs")
        return
    if case[0] == "aug":
        # every operator with every operand kind, on each kind of target
        i = case[2]
        k, j, t = i // 15, i // 3 % 5, i % 3
        target = [("v", "a"), ("scb", "h"), ("f", ("v", "s"), "x")][t]
        r = random.Random("%r" % (case,))
        s = Shapes(r)
        ok = 0
        for _ in range(4):
            ok += s.add([("aug", OPS[j], target, operand(INT_KINDS[k]))])
        mon.count("aug_shapes", ok)
        if ok:
            prog.run_fixed(mon, s.prog, key="aug:", sample=False)
        return
    _, sd, start, per = case
    r = random.Random("%r" % (case,))
    s = Shapes(r)
    for c, (l, op, rr) in enumerate(combos()[start:start + per]):
        for f in r.sample(FORMS, QUICK_FORMS_PER):
            st = form(f, op, operand(INT_KINDS[l]), operand(INT_KINDS[rr]),
                      s.n)
            if s.add(st):
                mon.count("shape_statements")
            else:
                mon.count("undefined_shapes")
    prog.run_fixed(mon, s.prog, key="shape:", sample=False)


MIN = {"shape_statements": 5000, "aug_shapes": 800, "random_programs": 300,
       "snapshots": 5000}
