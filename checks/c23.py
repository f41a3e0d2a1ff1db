"""C23: the math module's results equal their mathematical definitions.

Workload: every function x argument kind (literal, constant, variable, scb,
struct field, compound expression, function result) x boundary values x
statement form (assign, self-assign, argument, condition, compound operand,
nested math calls), plus random programs with math calls inserted anywhere an
integer expression may stand.  Monitors: all variables (targets and arguments)
against a reference computed with Python integers; VM faults; for randint, the
bounds and the set of values seen under a uniform and an extreme-seeking
random source."""
import itertools
import random

from acv import gen, kit, prog, runner, vm as vmmod
from acv.lang import (INT_MAX, INT_MIN, Ref, UB, text, wrap)

PROPERTY = "C23"
RULE = ("one evaluation = one program calling math functions executed and "
        "all its variables compared with exact integer arithmetic, or one "
        "randint program sampled; distinct by source text")
ASSUME = ["negative exponents and zero divisors are documented as undefined",
          "a constant result outside 32 bits may be refused instead of "
          "wrapped (as for constant arithmetic operators)"]
LEVEL = "exploration"
FN = {"pow": ("base", "exp"), "mod": ("x", "y"), "floordiv": ("x", "y"),
      "min": None, "max": None}


def mcall(fn, args, kws=()):
    return ("call", "math\0.\0" + fn, list(args), list(kws))


class MRef(Ref):
    def evc(self, e, sc):
        if e[0] == "call" and e[1].startswith("math\0"):
            fn = e[1].split("\0")[-1]
            vals = [self.evc(a, sc) for a in e[2]]
            if e[3]:
                kw = dict(e[3])
                vals += [self.evc(kw[n], sc)
                         for n in FN[fn][len(vals):]]
            c = all(x for _, x in vals)
            v = [x for x, _ in vals]
            if fn == "pow":
                if not 0 <= v[1] <= 100000:
                    raise UB("exponent")
                if v[1] and abs(v[0]) > 1 and v[1] > 40:
                    r = pow(v[0], v[1], 1 << 32)
                    big = True
                else:
                    r = v[0] ** v[1]
                    big = not INT_MIN <= r <= INT_MAX
                if big and c:
                    raise UB("constant overflow")
                r = wrap(r)
            elif fn in ("mod", "floordiv"):
                if v[1] == 0 or (v[0] == INT_MIN and v[1] == -1):
                    raise UB("division")
                r = v[0] % v[1] if fn == "mod" else v[0] // v[1]
            else:
                r = (min if fn == "min" else max)(v)
            return r, c
        return super().evc(e, sc)

    def call(self, e, sc, want_ref=False):
        if e[1].startswith("math\0"):
            v, c = self.evc(e, sc)
            return v
        return super().call(e, sc, want_ref)


IMPORT = ("rawline", ["import math"])


def check(mon, p, sched=(), key="", sample=False, tolerate=None):
    ref = MRef(60000)
    ref.run_main(p)
    for x in sched:
        ref.run_main(p) if x is None else ref.run_iface(x)
    v = gen.check(mon, [IMPORT] + p, list(sched), ref, key=key,
                  tolerate=tolerate)
    if v is None:
        return
    prog.observe(mon, p, list(sched), ref, v)
    if sample:
        mon.sample(text(p))


class MGen(gen.Gen):
    p_math = .25
    nest = 0

    def _int(self, d):
        if d > 0 and self.nest < 2 and self.r.random() < self.p_math:
            self.nest += 1
            try:
                return self._math(d - 1)
            finally:
                self.nest -= 1
        return super()._int(d)

    def _math(self, d):
        r = self.r
        fn = r.choice(["pow", "mod", "floordiv", "min", "max"])
        if fn in ("min", "max"):
            xs = [self._int(d) for _ in range(r.choice([1, 2, 2, 3, 4]))]
            b = None if any(b is None for _, b in xs) else \
                max(b for _, b in xs)
            return mcall(fn, [e for e, _ in xs]), b
        a, ba = self._int(d)
        if fn == "pow":
            if r.random() < .6:
                n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 31, 33])
                if ba is not None and max(2, ba) ** n > INT_MAX:
                    n = r.choice([0, 1])
                e, be = ("i", n), n
                # (x ** 0 is a constant whatever x is)
                bound = 1 if n == 0 else None if ba is None else \
                    max(1, ba) ** n
            else:
                x, bx = self._int(d)
                if bx is not None:
                    return a, ba
                e = ("bin", "+", ("bin", "%", x, ("i", r.choice([2, 5]))),
                     ("i", 4))
                bound = None
        else:
            if r.random() < .6:
                n = r.choice([1, 2, 3, 5, 7, 10, -2, -3, -7, INT_MAX,
                              INT_MIN, 65536])
                e, be = ("i", n), abs(n)
            else:
                e, be = self._int(d)
                if be is not None:
                    e, be = ("i", 3), 3
            bound = None
            if ba is not None and be is not None:
                bound = be if fn == "mod" else ba + 1
        ps = FN[fn]
        x = r.random()
        if x < .6:
            return mcall(fn, [a, e]), bound
        if x < .8:
            return mcall(fn, [a], [(ps[1], e)]), bound
        k = [(ps[0], a), (ps[1], e)]
        r.shuffle(k)
        return mcall(fn, [], k), bound

    def isconst(self, e):
        if e[0] == "call" and e[1].startswith("math\0"):
            if ("i", 0) in [x for _, x in e[3]] + e[2][1:]:
                return True
            return all(map(self.isconst, e[2])) and \
                all(self.isconst(x) for _, x in e[3])
        return super().isconst(e)


VALS = [0, 1, 2, 3, 5, 7, 10, 16, -1, -2, -3, -7, 46341, 65536, INT_MAX,
        INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), 12345]
KINDS = ["lit", "const", "a", "b", "scb", "field", "expr", "call", "inl",
         "intb", "self", "math"]


def arg(kind, val, other):
    V = lambda n: ("v", n)
    if kind == "lit":
        return ("i", val)
    if kind == "const":
        return V("K")
    if kind in "ab":
        return V(kind)
    if kind == "self":
        return V("t")
    if kind == "scb":
        return ("scb", "h")
    if kind == "field":
        return ("f", V("s"), "x")
    if kind == "expr":
        return ("bin", "+", V("a"), V("b"))
    if kind == "call":
        return ("call", "fid", [V("b")], [])
    if kind == "inl":
        return ("call", "finl", [V("a")], [])
    if kind == "intb":
        return ("int", V("p"))
    if kind == "math":
        return mcall("mod", [V("b"), ("i", 7)])
    raise AssertionError(kind)


class S(prog.Shapes):
    def add(self, stmts, mon=None):
        for _ in range(25):
            part = self.setup() + stmts
            try:
                MRef(20000).run_main(prog.int_prelude() + part)
            except UB:
                continue
            self.prog += part + self.dump()
            return True
        return False


def forms(e, k):
    V = lambda n: ("v", n)
    t = V("t")
    return [
        [("assign", t, e)],
        [("assign", V("a"), e)],
        [("assign", V("b"), e)],
        [("assign", ("f", V("s"), "x"), e)],
        [("assign", ("scb", "h"), e)],
        [("auto", "z%d" % k, e), ("assign", t, V("z%d" % k)),
         ("aug", "+", V("z%d" % k), ("i", 1)),
         ("assign", V("b"), V("z%d" % k))],
        [("aug", "-", t, e)],
        [("aug", "*", V("a"), e)],
        [("assign", t, ("bin", "-", V("a"), ("bin", "*", e, ("i", 3))))],
        [("assign", t, ("bin", "+", e, e))],
        [("assign", t, ("call", "fid", [e], []))],
        [("assign", t, ("call", "finl", [e], []))],
        [("if", [(("cmp", [e, ("i", 2)], [">"]), [("assign", t, ("i", 1))])],
          [("assign", t, ("i", 2))])],
        [("assign", V("p"), ("cmp", [V("a"), e, V("b")], ["<", "<="]))],
        [("assign", t, ("un", "-", e))],
        [("assign", t, mcall("max", [e, V("a"), ("i", -5)]))],
        [("assign", t, mcall("pow", [e, ("i", 3)])), ("assign", V("a"), e)],
        [("assign", t, mcall("floordiv", [e, ("i", -3)]))],
    ]


def combos():
    out = []
    for fn in ("pow", "mod", "floordiv"):
        for x, y in itertools.product(KINDS, KINDS):
            out.append((fn, (x, y)))
    for fn in ("min", "max"):
        for x, y in itertools.product(KINDS, KINDS):
            out.append((fn, (x, y)))
        for x in itertools.product(["lit", "a", "expr", "self", "call"],
                                   repeat=3):
            out.append((fn, x))
        for x in KINDS:
            out.append((fn, (x,)))
    return out


def cases(tier, seed):
    q = tier == "quick"
    out = []
    n = len(combos())
    for k in range(1 if q else 12):
        for i in range(0, n, 12):
            out.append(("shape", seed * 1000 + k, i))
    for s in runner.spread(seed, "C23", 250 if q else 6000):
        out.append(("rnd", s))
    for s in runner.spread(seed, "C23r", 40 if q else 600):
        out.append(("randint", s))
    for s in runner.spread(seed, "C23l", 40 if q else 400):
        out.append(("lit", s))
    out.append(("errors", 0))
    return out


def run_case(case, mon):
    r = random.Random("%r" % (case,))
    {"shape": shape, "rnd": rnd, "randint": randint, "lit": lit,
     "errors": errors}[case[0]](case, mon, r)


def shape(case, mon, r):
    s = S(r)
    for fn, kinds in combos()[case[2]:case[2] + 12]:
        for _ in range(4):
            args = []
            for j, kd in enumerate(kinds):
                v = r.choice(VALS)
                if fn == "pow" and j == 1:
                    v = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 31, 32,
                                  100])
                    if kinds[0] in ("lit", "const"):
                        v = r.choice([0, 1, 2, 3, 6])
                args.append(arg(kd, v, None))
            if fn == "pow" and kinds[1] not in ("lit",):
                # keep run-time exponents non-negative and small
                e = args[1]
                args[1] = ("bin", "+", ("bin", "%", e, ("i", 9)), ("i", 8)) \
                    if kinds[1] != "const" else ("un", "-", e)
            fs = forms(mcall(fn, args), s.n)
            if s.add(r.choice(fs)):
                mon.count("shape_statements")
    check(mon, s.prog, key="shape:")


def rnd(case, mon, r):
    for _ in range(40):
        g = MGen(r, depth=r.choice([2, 3, 4]), structs=r.choice([0, 1]),
                 big=r.choice([.05, .3]), inlines=1, loops=.4,
                 ifaces=r.choice([0, 0, 1]))
        p = g.program()
        try:
            ref = MRef(6000)
            ref.run_main(p)
            for x in g.iface_paths:
                ref.run_iface(x)
        except UB:
            continue
        check(mon, p, g.iface_paths, key="rnd:", sample=True,
              # (a constant zero divisor in a branch that never runs)
              tolerate=("cannot division by 0", "by zero", "Integer overflows"))
        mon.count("random_programs")
        return


def lit(case, mon, r):
    """constant calls, used where only constants are allowed"""
    p = []
    for k in range(14):
        fn = r.choice(list(FN))
        for _ in range(30):
            n = r.choice([1, 2, 3, 5]) if FN[fn] is None else 2
            a = [("i", r.choice(VALS) if r.random() < .7 else
                  r.randint(-40, 40)) for _ in range(n)]
            if fn == "pow":
                a[1] = ("i", r.randint(0, 33))
            try:
                v = MRef().evc(mcall(fn, a), None)[0]
            except UB:
                continue
            break
        else:
            continue
        p += [("const", [("c%d" % k, "int", mcall(fn, a))]),
              ("rawline", ["/scoreboard players set o%d obs ${c%d}"
                           % (k % 4, k)]),
              ("snap", k)]
        p.append(("exp", "o%d" % (k % 4), v))
        mon.count("constant_calls")
    src = [s for s in p if s[0] != "exp"]
    r0 = kit.compile_src(text([IMPORT] + src))
    if not r0.ok:
        mon.violation("lit:" + r0.kind, "constant math call refused: %s"
                      % r0.message, source=text(src))
        return
    want, cur = [], {}
    for i, s in enumerate(p):
        if s[0] == "snap":
            cur[p[i + 1][1]] = p[i + 1][2]
            want.append((s[1], tuple(sorted(cur.items()))))
    got, v = gen.run_pack(r0.functions(), [])
    d = gen.diff(want, got)
    if d or v.faults:
        mon.violation("lit:diff", d or str(v.faults[0]), source=text(src))
        return
    mon.evaluated()
    mon.nontrivial(text(src))


class Extreme(random.Random):
    """a random source that likes the ends of the interval"""
    def randint(self, a, b):
        x = self.random()
        if x < .4:
            return a
        if x < .8:
            return b
        return super().randint(a, b)


def randint(case, mon, r):
    lo = r.choice([0, 1, -3, -1, INT_MIN, INT_MAX - 2, 5, -100])
    hi = lo + r.choice([0, 1, 2, 3, 4]) if r.random() < .6 else \
        r.choice([x for x in VALS if x >= lo] + [lo])
    hi = min(hi, INT_MAX)
    small = hi - lo <= 4

    def L(n):
        return "int.MIN" if n == INT_MIN else str(n)
    call = r.choice(["math.randint(%s, %s)", "math.randint(min=%s, max=%s)",
                     "math.randint(%s, max=%s)"]) % (L(lo), L(hi))
    form = r.choice(["plain", "keep", "sum", "arg", "neg", "field", "cmp",
                     "tick"])
    n = 300 if small else 60
    pre = ["import math", 'a: int', 'b: int', "w := 0", "struct S:",
           "    x: int", "s := S(x=0)", "def idf(n: int) -> int:",
           "    result n", "k := 10"]
    body = {
        "plain": ["a = %s" % call, "b = a"],
        "keep": ["z := %s" % call, "a = z", "b = z"],
        "sum": ["a = %s" % call, "b = a", "k = k + 0 * a"],
        "arg": ["a = idf(%s)" % call, "b = a"],
        "neg": ["a = -(-(%s))" % call, "b = a + 0"],
        "field": ["s.x = %s" % call, "a = s.x", "b = s.x"],
        "cmp": ["a = %s" % call, "b = a", "if a > b:", "    a = -77777"],
        "tick": ["a = 0 * k + %s" % call, "b = a"],
    }[form]
    src = pre + ["while w < %d:" % n] + ["    " + x for x in body] + [
        '    scb("a", "obs") = a', '    scb("b", "obs") = b',
        '    scb("k", "obs") = k', "    /snap 1", "    w += 1"]
    src = "\n".join(src) + "\n"
    r0 = kit.compile_src(src)
    if not r0.ok:
        mon.violation("randint:" + r0.kind, r0.message, source=src)
        return
    seen = set()
    for rng in (random.Random(r.random()), Extreme(r.random())):
        got, v = gen.run_pack(r0.functions(), [], rng=rng)
        for _, sn in got:
            d = dict(sn)
            seen.add(d["a"])
            if d["a"] != d["b"] or d["k"] != 10 or not lo <= d["a"] <= hi:
                mon.violation("randint:value", "randint(%d, %d): %s"
                              % (lo, hi, d), source=src)
                return
        if len(got) != n or v.faults:
            mon.violation("randint:run", "%d of %d draws; %s" % (
                len(got), n, v.faults[:1]), source=src)
            return
        mon.count("draws", n)
    need = set(range(lo, hi + 1)) if small else {lo, hi}
    if not need <= seen:
        mon.violation("randint:reach", "randint(%d, %d) never returned %s"
                      % (lo, hi, sorted(need - seen)), source=src)
        return
    mon.evaluated()
    mon.nontrivial(src)
    mon.count("randint_programs")


REFUSED = ["math.pow(2, -1)", "math.pow(a, -1)", "math.mod(5, 0)",
           "math.floordiv(5, 0)", "math.min()", "math.max()",
           "math.pow(2)", "math.mod(1, 2, 3)", "math.pow(True, 2)",
           "math.min(1, True)", "math.max(a, \"x\")",
           "math.randint(a, 5)", "math.randint(1, a)", "math.randint(1)",
           "math.mod(x=1, z=2)", "math.floordiv(1.5, 2)"]


def errors(case, mon, r):
    for e in REFUSED:
        src = "import math\na := 3\nb := %s\n" % e
        x = kit.compile_src(src)
        mon.evaluated()
        mon.count("refused_calls")
        if x.kind != "error":
            mon.violation("accepted:" + e, "%s: %s" % (
                e, "accepted" if x.ok else x.message), source=src,
                tb=x.tb or "")
        elif ":3:" not in x.message and "3" not in x.message:
            mon.violation("where:" + e, x.message, source=src)
    # constant results outside 32 bits: refused, or wrapped - never emitted
    # as a number the game cannot read
    for b, e in [(2, 31), (2, 32), (2, 40), (-2, 33), (10, 10), (46341, 2),
                 (3, 100), (INT_MIN, 2)]:
        want = wrap(pow(b, e))
        src = ('import math\nscb("o", "obs") = math.pow(%s, %d)\n/snap 1\n'
               % ("int.MIN" if b == INT_MIN else b, e))
        x = kit.compile_src(src)
        mon.evaluated()
        mon.count("big_constants")
        if x.kind == "error":
            continue
        if x.kind == "crash":
            mon.violation("bigcrash", x.message, source=src)
            continue
        got, v = gen.run_pack(x.functions(), [])
        if v.faults or got != [(1, (("o", want),))]:
            mon.violation("bigconst", "pow(%d, %d): %s %s" % (
                b, e, got, v.faults[:1]), source=src)


MIN = {"shape_statements": 2500, "random_programs": 200, "draws": 5000,
       "constant_calls": 300, "refused_calls": 16, "randint_programs": 30}
