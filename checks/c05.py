"""C05: compile-time evaluation agrees with run-time evaluation.

The same computation - a random expression, or a random function body with
assignments, branches, loops and nested calls - is put to the compiler in
every form the language has: literals, constants, compile-time functions,
constant parameters of inline functions, run-time variables, function
parameters, and random mixtures.  Every form is compiled, executed on the
monitored VM and must leave the value the reference (exact integers) gives;
computations whose constant form leaves 32 bits or divides by zero must be
refused at their line in constant form while the run-time form wraps."""
import random
import re

from acv import gen, kit, runner, vm as vmmod
from acv.lang import (INT_MAX, INT_MIN, Ref, UB, cdiv, cmod, join, text,
                      toks, Style, wrap)

PROPERTY = "C05"
RULE = ("one evaluation = one computation in one form compiled and its "
        "run-time value compared with exact arithmetic, or one out-of-range "
        "constant computation refused at its line; distinct by source text")
ASSUME = ["a run-time division by zero or of the smallest integer by -1 has "
          "no defined result and is not used",
          "compile-time computations of the workload terminate"]
LEVEL = "exploration"
MIN = {"values compared": 8000, "forms": 2500, "refused": 250,
       "function bodies": 300, "runtime wraps": 200, "float values": 100}

VALS = [0, 1, 2, 3, 5, 7, 10, 12, 16, 100, -1, -2, -3, -7, -10, 255, 4096,
        46340, 46341, 65535, 65536, -65536, 1000003, INT_MAX, INT_MIN,
        INT_MAX - 1, INT_MIN + 1, 715827882]


class Plan:
    """one expression over leaves p0..pn"""

    def __init__(self, r):
        self.r = r
        self.leaves = []        # (name, type, value)

    def leaf(self, ty):
        r = self.r
        same = [n for n, t, _ in self.leaves if t == ty]
        if same and r.random() < .3 or len(self.leaves) >= 6 and same:
            return ("v", r.choice(same))
        n = "p%d" % len(self.leaves)
        if ty == "int":
            v = r.choice(VALS) if r.random() < .6 else r.randint(-50, 50)
        else:
            v = r.random() < .5
        self.leaves.append((n, ty, v))
        return ("v", n)

    def int_(self, d):
        r = self.r
        p = r.random()
        if d <= 0 or p < .15:
            if r.random() < .3:
                return ("i", r.choice([0, 1, 2, 3, -1, 7, 10, -4]))
            return self.leaf("int")
        if p < .22:
            return ("un", r.choice("-+"), self.int_(d - 1))
        if p < .32:
            return ("int", self.bool_(d - 1))
        return ("bin", r.choice("+-*/%+-*"), self.int_(d - 1),
                self.int_(d - 1))

    def bool_(self, d):
        r = self.r
        p = r.random()
        if d <= 0 or p < .15:
            return self.leaf("bool") if r.random() < .8 else \
                ("b", r.random() < .5)
        if p < .3:
            return ("un", "not", self.bool_(d - 1))
        if p < .5:
            return (r.choice(["and", "or"]),
                    [self.bool_(d - 1) for _ in range(r.choice([2, 2, 3]))])
        if p < .6:
            return ("cmp", [self.bool_(d - 1), self.bool_(d - 1)],
                    [r.choice(["==", "!="])])
        n = r.choice([2, 2, 2, 3])
        return ("cmp", [self.int_(d - 1) for _ in range(n)],
                [r.choice(["==", "!=", "<", ">", "<=", ">="])
                 for _ in range(n - 1)])


def subst(e, m):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == "v":
            return m.get(e[1], e)
        return tuple(subst(x, m) for x in e)
    if isinstance(e, list):
        return [subst(x, m) for x in e]
    return e


def has_const_fold(prog):
    return True


def interpret(prog, limit=6000):
    """Ref, or the UB it ends with"""
    ref = Ref(limit)
    try:
        ref.run_main(prog)
    except UB as err:
        return err
    return ref


def lit(ty, v):
    return ("i", v) if ty == "int" else ("b", v)


def sink(ty, e, slot):
    """statements leaving the value of e in scb(slot)"""
    if ty == "bool":
        e = ("int", e)
    return [("assign", ("scb", slot), e), ("snap", 1)]


FORMS = ("lit", "const", "var", "cdef", "def", "inline", "iconst", "cmix",
         "mix", "mix", "mix", "aug", "cond", "field", "localconst")


def form(r, name, ty, e, leaves, k):
    """program fragment computing e in the given form"""
    pre, m = [], {}
    u = "%s%d_" % (name[0], k)
    params = []

    def const(n, t, v):
        pre.append(("const", [(u + n, t if r.random() < .5 else None,
                               lit(t, v))]))
        return ("v", u + n)

    def var(n, t, v):
        if r.random() < .5:
            pre.append(("auto", u + n, lit(t, v)))
        else:
            pre.append(("vardef", u + n, t, lit(t, v)))
        return ("v", u + n)
    slot = "o%d" % k
    if name in ("lit", "const", "var", "mix", "cmix", "cond", "aug"):
        for n, t, v in leaves:
            how = name
            if name == "mix":
                how = r.choice(["lit", "const", "var", "var"])
            elif name in ("cond", "aug"):
                how = r.choice(["lit", "const", "var"])
            elif name == "cmix":
                how = r.choice(["lit", "const"])
            m[n] = lit(t, v) if how == "lit" else \
                const(n, t, v) if how == "const" else var(n, t, v)
        x = subst(e, m)
        if name == "cond" and ty == "bool":
            return pre + [("if", [(x, [("assign", ("scb", slot),
                                        ("i", 1))])],
                           [("assign", ("scb", slot), ("i", 0))]),
                          ("snap", 1)]
        if name == "aug" and ty == "int" and x[0] == "bin":
            return pre + [("auto", u + "t", x[2]),
                          ("aug", x[1], ("v", u + "t"), x[3])] + \
                sink("int", ("v", u + "t"), slot)
        if name == "cmix":
            return pre + [("const", [(u + "r", ty, x)])] + \
                sink(ty, ("v", u + "r"), slot)
        return pre + sink(ty, x, slot)
    if name == "localconst":
        return pre + [("def", "inline" if r.random() < .5 else "def",
                       u + "f", [], ("", ty), [
            ("const", [(n, t, lit(t, v)) for n, t, v in leaves]),
            ("result", e)] if leaves else [("result", e)])] + \
            sink(ty, ("call", u + "f", [], []), slot)
    if name == "field":
        if not leaves:
            return None
        pre.append(("struct", u + "S", [], [(n, t) for n, t, _ in leaves]))
        pre.append(("auto", u + "s", ("new", u + "S", [
            (n, lit(t, v)) for n, t, v in leaves])))
        return pre + sink(ty, subst(e, {
            n: ("f", ("v", u + "s"), n) for n, _, _ in leaves}), slot)
    kind = {"cdef": "const", "def": "def", "inline": "inline",
            "iconst": "inline"}[name]
    body = [("result", e)]
    if r.random() < .5 and ty == "int":
        body = [("auto", "loc", e), ("result", ("v", "loc"))]
    for n, t, v in leaves:
        port = "const" if name == "iconst" else ""
        params.append((n, t, port, None))
    pre.append(("def", kind, u + "f", params, ("", ty), body))
    args = []
    for n, t, v in leaves:
        if name in ("def", "inline") and r.random() < .6:
            args.append(var(n, t, v))
        elif r.random() < .3:
            args.append(const(n, t, v))
        else:
            args.append(lit(t, v))
    return pre + sink(ty, ("call", u + "f", args, []), slot)


def located(mon, src, res, line, key="refused"):
    m = re.findall(r"main\.aca:(\d+):(\d+)", res.message)
    if not m or (line is not None
                 and line not in [int(a) for a, _ in m]):
        mon.violation(key + "-location", "the offending constant is on line "
                      "%s, reported as: %s" % (line, res.message),
                      source=src)
        return False
    return True


def run_forms(mon, seed):
    r = random.Random(seed)
    for _ in range(60):
        p = Plan(r)
        ty = r.choice(["int", "int", "int", "bool"])
        e = p.int_(r.randint(1, 4)) if ty == "int" else \
            p.bool_(r.randint(1, 4))
        if not p.leaves:
            continue
        rt = form(r, "var", ty, e, p.leaves, 0)
        ref = interpret(rt)
        if isinstance(ref, UB):
            if "constant overflow" in str(ref) or "division" in str(ref):
                pass
            else:
                continue
        break
    good, bad = [], []
    for k, f in enumerate(FORMS):
        frag = form(r, f, ty, e, p.leaves, k)
        if frag is None:
            continue
        got = interpret(frag)
        if isinstance(got, UB):
            bad.append((f, frag, str(got)))
        else:
            good.append((f, frag, got))
    # the run-time value must be the same for all accepted forms, up to
    # nothing at all: the reference itself is checked here
    vals = set(g.trace[-1][1][-1][1] for _, _, g in good)
    assert len(vals) <= 1, (vals, text(good[0][1]))
    prog = [s for _, frag, _ in good for s in frag]
    src = text(prog)
    res = kit.compile_src(src, optimizer=r.random() < .5)
    if not res.ok:
        # find the form that is refused on its own
        for f, frag, _ in good:
            one = kit.compile_src(text(frag))
            if not one.ok:
                mon.violation("form-" + ("crash" if one.kind == "crash"
                                         else "refused"),
                              "computation in form '%s' %s: %s" % (
                                  f, one.kind, one.message),
                              source=text(frag), traceback=one.tb or "")
                return
        mon.violation("forms-together", "%s: %s" % (res.kind, res.message),
                      source=src)
        return
    trace, v = gen.run_pack(res.functions(), [])
    got = dict(trace[-1][1]) if trace else {}
    n = 0
    for f, frag, ref in good:
        slot, want = ref.trace[-1][1][-1]
        n += 1
        if got.get(slot) != want:
            mon.violation("value", "form '%s' gives %s, exact arithmetic "
                          "gives %s" % (f, got.get(slot), want),
                          source=text(frag))
            return
    bad_faults = [f for f in v.faults]
    if bad_faults:
        mon.violation("fault", "%s: %s" % bad_faults[0], source=src)
        return
    if n:
        mon.evaluated(n)
        mon.count("forms", n)
        mon.count("values compared", n)
        mon.nontrivial(src)
        mon.sample(src)
    if any(w in "".join(b[2] for b in bad) for w in ("overflow",)) and any(
            f == "var" for f, _, _ in good):
        mon.count("runtime wraps")
    for f, frag, why in bad[:2]:
        if "constant overflow" not in why and f not in (
                "lit", "const", "cdef", "iconst", "cmix"):
            continue
        if "overflowing division" in why:
            continue        # the quotient is in the table of edges; the
            # remainder is the representable 0
        src = text(frag)
        res = kit.compile_src(src)
        if res.ok:
            mon.violation("accepted", "constant computation in form '%s' "
                          "is accepted although: %s" % (f, why), source=src)
            return
        if res.kind == "crash":
            mon.violation("crash", "form '%s': %s" % (f, res.message),
                          source=src, traceback=res.tb or "")
            return
        if located(mon, src, res, None):
            mon.evaluated()
            mon.count("refused")
            mon.nontrivial(src)


# -- function bodies ---------------------------------------------------------
class Body:
    def __init__(self, r):
        self.r = r
        self.uid = 0

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def int_(self, d, vs):
        r = self.r
        p = r.random()
        if d <= 0 or p < .25:
            if vs["int"] and r.random() < .75:
                return ("v", r.choice(vs["int"]))
            return ("i", r.choice([0, 1, 2, 3, -1, -5, 7, 10, 100]))
        if p < .32:
            return ("un", "-", self.int_(d - 1, vs))
        if p < .4 and (vs["bool"] or d > 1):
            return ("int", self.bool_(d - 1, vs))
        if p < .5 and vs["fn"]:
            f, ps = r.choice(vs["fn"])
            return ("call", f, [self.int_(d - 1, vs) if t == "int"
                                else self.bool_(d - 1, vs) for t in ps], [])
        return ("bin", r.choice("+-*/%+-"), self.int_(d - 1, vs),
                self.int_(d - 1, vs))

    def bool_(self, d, vs):
        r = self.r
        p = r.random()
        if d <= 0 or p < .2:
            if vs["bool"] and r.random() < .8:
                return ("v", r.choice(vs["bool"]))
            return ("b", r.random() < .5)
        if p < .35:
            return ("un", "not", self.bool_(d - 1, vs))
        if p < .5:
            return (r.choice(["and", "or"]),
                    [self.bool_(d - 1, vs), self.bool_(d - 1, vs)])
        return ("cmp", [self.int_(d - 1, vs), self.int_(d - 1, vs)],
                [r.choice(["==", "!=", "<", ">", "<=", ">="])])

    def block(self, vs, depth, n=None):
        vs = {k: list(v) for k, v in vs.items()}
        out = []
        for _ in range(n or self.r.randint(1, 4)):
            self.stmt(out, vs, depth)
        return out, vs

    def stmt(self, out, vs, depth):
        r = self.r
        p = r.random()
        mut = vs["mut"]
        if p < .25:
            n = self.name("k")
            e = self.int_(2, vs)
            out.append(("auto", n, e) if r.random() < .5 else
                       ("vardef", n, "int", e))
            vs["int"].append(n)
            mut.append(n)
        elif p < .33:
            n = self.name("q")
            e = self.bool_(2, vs)
            out.append(("auto", n, e))
            vs["bool"].append(n)
            vs["bmut"].append(n)
        elif p < .5 and mut:
            out.append(("assign", ("v", r.choice(mut)), self.int_(2, vs)))
        elif p < .55 and vs["bmut"]:
            out.append(("assign", ("v", r.choice(vs["bmut"])),
                        self.bool_(2, vs)))
        elif p < .72 and mut:
            out.append(("aug", r.choice("+-*/%+-"), ("v", r.choice(mut)),
                        self.int_(1, vs)))
        elif p < .84 and depth > 0:
            arms = []
            for _ in range(r.choice([1, 1, 2])):
                b, _ = self.block(vs, depth - 1)
                arms.append((self.bool_(2, vs), b))
            els = self.block(vs, depth - 1)[0] if r.random() < .5 else None
            out.append(("if", arms, els))
        elif p < .91 and depth > 0:
            c = self.name("w")
            out.append(("auto", c, ("i", r.randint(1, 4))))
            inner = dict(vs)
            inner["int"] = vs["int"] + [c]
            b, _ = self.block(inner, depth - 1)
            out.append(("while", ("cmp", [("v", c), ("i", 0)], [">"]),
                        b + [("aug", "-", ("v", c), ("i", 1))]))
        elif p < .97 and depth > 0:
            v = self.name("x")
            inner = dict(vs)
            inner["int"] = vs["int"] + [v]
            b, _ = self.block(inner, depth - 1)
            it = ("list", [("i", r.randint(-3, 9)) for _ in
                           range(r.randint(0, 3))]) if r.random() < .5 else \
                ("range", [("i", r.randint(0, 4))])
            out.append(("for", v, it, b))
        elif mut:
            n = self.name("g")
            out.append(("ref", n, None, ("v", r.choice(mut))))
            vs["int"].append(n)
            mut.append(n)
        else:
            out.append(("pass",))

    def func(self, fns):
        r = self.r
        ps = [r.choice(["int", "int", "bool"])
              for _ in range(r.randint(1, 3))]
        names = [self.name("a") for _ in ps]
        vs = {"int": [n for n, t in zip(names, ps) if t == "int"],
              "bool": [n for n, t in zip(names, ps) if t == "bool"],
              "mut": [], "bmut": [], "fn": fns}
        body, vs2 = self.block(vs, 2, r.randint(2, 6))
        if r.random() < .3:
            body.insert(r.randrange(len(body) + 1),
                        ("result", ("i", -77)))
        body.append(("result", self.int_(2, vs2)))
        if r.random() < .2:
            b, _ = self.block(vs2, 0, 1)
            body.append(("if", [(self.bool_(1, vs2),
                                 b + [("result", self.int_(1, vs2))])],
                         None))
        return names, ps, body


def rename_calls(body, pre):
    """prefix every called function with `pre`"""
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == "call":
                return ("call", pre + x[1], go(x[2]), go(x[3]))
            return tuple(go(y) for y in x)
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    return go(body)


def run_body(mon, seed):
    r = random.Random(seed)
    for _ in range(40):
        b = Body(r)
        fns, defs = [], []
        for i in range(r.randint(1, 3)):
            names, ps, body = b.func(list(fns))
            n = "f%d" % i
            defs.append((n, names, ps, body))
            fns.append((n, ps))
        frags = []
        calls = []
        for i in range(3):
            n, names, ps, _ = defs[-1] if r.random() < .6 else r.choice(defs)
            calls.append((n, [r.choice(VALS[:16]) if t == "int"
                              else r.random() < .5 for t in ps], ps))

        def build(kind):
            """all functions as `kind`, calls with suitable arguments"""
            pre = kind[0] + "_"
            out = []
            for n, names, ps, body in defs:
                port = "const" if kind == "iconst" else ""
                out.append(("def", "inline" if kind == "iconst" else kind,
                            pre + n, [(a, t, port, None)
                                      for a, t in zip(names, ps)],
                            ("", "int"), rename_calls(body, pre)))
            for j, (n, args, ps) in enumerate(calls):
                xs = []
                for i, (v, t) in enumerate(zip(args, ps)):
                    if kind in ("def", "inline") and r.random() < .7:
                        nm = "%sv%d_%d" % (pre, j, i)
                        out.append(("auto", nm, lit(t, v)))
                        xs.append(("v", nm))
                    else:
                        xs.append(lit(t, v))
                out.append(("assign", ("scb", "%s%d" % (kind[0], j)),
                            ("call", pre + n, xs, [])))
            return out
        ct = build("const")
        rc = interpret(ct, 4000)
        rt = [build("def"), build("inline")]
        rr = interpret(rt[0], 4000)
        if isinstance(rr, UB):
            continue
        break
    else:
        mon.count("discarded")
        return
    want = {j: rr.obs["d%d" % j].v for j in range(len(calls))}
    overflow = isinstance(rc, UB)
    if overflow and "constant overflow" not in str(rc):
        # e.g. a division whose operand only exists without wrapping
        mon.count("discarded")
        return
    progs = list(rt)
    if not overflow:
        for j in want:
            assert rc.obs["c%d" % j].v == want[j]
        progs.append(ct)
    else:
        src = text(ct)
        res = kit.compile_src(src)
        if res.kind != "error":
            mon.violation("body-overflow", "a compile-time function that "
                          "leaves 32 bits is not refused: %s %s" % (
                              res.kind, res.message or ""), source=src)
            return
        if not located(mon, src, res, None):
            return
        mon.evaluated()
        mon.count("refused")
        mon.nontrivial(src)
    for pr in progs:
        src = text(pr + [("snap", 1)])
        kind = "const def" if pr is ct else "run-time def"
        res = kit.compile_src(src)
        if not res.ok:
            if pr is not ct and res.kind == "error" and (
                    "verflow" in res.message or "by 0" in res.message
                    or "by zero" in res.message):
                mon.count("discarded")      # constant part out of range
                continue
            mon.violation("body-" + res.kind, "%s: %s" % (
                kind, res.message), source=src, traceback=res.tb or "")
            return
        trace, v = gen.run_pack(res.functions(), [])
        got = {int(h[1:]): x for h, x in trace[-1][1]}
        if got != want:
            mon.violation("body-value", "%s gives %s, exact arithmetic "
                          "gives %s" % (kind, got, want), source=src)
            return
        mon.evaluated()
        mon.count("function bodies")
        mon.count("values compared", len(want))
        mon.nontrivial(src)
        mon.sample(src)


# -- boundary table -------------------------------------------------------
EDGE = [INT_MIN, INT_MIN + 1, -65536, -46341, -2, -1, 0, 1, 2, 3, 46340,
        46341, 65536, INT_MAX - 1, INT_MAX]
CF = {
    # how -> (lines with {a}, {b}, {op}; line of the computation;
    #         expression reading the result)
    "lit": (["r := {a} {op} {b}"], 1, "r"),
    "const": (["const a = {a}", "const b = {b}", "const r = a {op} b"], 3,
              "r"),
    "cdef": (["const def f(a: int, b: int) -> int:",
              "    result a {op} b", "const r = f({a}, {b})"], 2, "r"),
    "caug": (["const def f(a: int, b: int) -> int:", "    k := a",
              "    k {op}= b", "    result k", "const r = f({a}, {b})"], 3,
             "r"),
    "inlineconst": (["inline def f(const a: int, const b: int) -> int:",
                     "    result a {op} b", "r := f({a}, {b})"], 2, "r"),
    "list": (["const l = {{{a}, {b}}}", "r := l[0] {op} l[1]"], 2, "r"),
    "for": (["r := 0", "for a in {{{a}}}:", "    r = a {op} {b}"], 3, "r"),
    "default": (["def f(r={a} {op} {b}) -> int:", "    result r",
                 "r := f()"], 1, "r"),
    "index": (["const m = {{1: {a}}}", "const r = m[1] {op} {b}"], 2, "r"),
}
RF = {
    "var": (["a := {a}", "b := {b}", "r := a {op} b"], 3, "r"),
    "aug": (["r := {a}", "r {op}= {b}"], 2, "r"),
    "augv": (["r := {a}", "b := {b}", "r {op}= b"], 3, "r"),
    "mixl": (["b := {b}", "r := {a} {op} b"], 2, "r"),
    "mixr": (["a := {a}", "r := a {op} {b}"], 2, "r"),
    "def": (["def f(a: int, b: int) -> int:", "    result a {op} b",
             "r := f({a}, {b})"], 2, "r"),
}


def exact(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if b == 0:
        return None
    return cdiv(a, b) if op == "/" else cmod(a, b)


def w(v):
    return "int.MIN" if v == INT_MIN else str(v)


def run_edges(mon, arg, tier="quick"):
    op, how = arg
    r = random.Random("%s%s" % arg)
    lines, at, out = (CF.get(how) or RF.get(how))
    const = how in CF
    pairs = [(a, b) for a in EDGE for b in EDGE]
    if tier == "quick":
        # all overflowing boundaries are kept, the rest is thinned
        pairs = [p for p in pairs if r.random() < .5]
    okprog, okwant = [], []
    for a, b in pairs:
        e = exact(op, a, b)
        over = e is not None and not INT_MIN <= e <= INT_MAX
        if not const:
            if e is None or (op in "/%" and a == INT_MIN and b == -1):
                continue
        body = [x.format(a=w(a), b=w(b), op=op) for x in lines]
        if const and (e is None or over):
            if op == "%" and over:
                continue
            src = "\n".join(body) + "\nscb(\"x\", \"obs\") = r\n"
            res = kit.compile_src(src)
            if res.kind != "error":
                mon.violation("edge", "%s %s %s %s: %s" % (
                    w(a), op, w(b), "divides by zero" if e is None
                    else "leaves 32 bits",
                    "accepted" if res.ok else res.message), source=src)
                return
            if not located(mon, src, res, at, "edge"):
                return
            mon.evaluated()
            mon.count("refused")
            mon.nontrivial(src)
        else:
            if op in "/%" and a == INT_MIN and b == -1:
                continue
            i = len(okwant)
            body = [re.sub(r"\b([abrflkm])\b(?!\")",
                           lambda t: "%s%d" % (t.group(1), i), x)
                    for x in body]
            okprog += body + ["scb(\"x%d\", \"obs\") = r%d" % (i, i)]
            okwant.append(wrap(e))
            if over:
                mon.count("runtime wraps")
    src = "\n".join(okprog) + "\n/snap 1\n"
    res = kit.compile_src(src)
    if not res.ok:
        mon.violation("edge-ok", "in-range computation %s: %s" % (
            res.kind, res.message), source=src)
        return
    trace, v = gen.run_pack(res.functions(), [])
    got = dict(trace[-1][1])
    for i, e in enumerate(okwant):
        if got.get("x%d" % i) != e:
            mon.violation("edge-value", "x%d is %s, exact arithmetic gives "
                          "%s" % (i, got.get("x%d" % i), e), source=src)
            return
    mon.evaluated(len(okwant))
    mon.count("values compared", len(okwant))
    mon.nontrivial(src)


SINGLE = [
    # refused constant computations of other kinds, and their legal neighbours
    ("r := 2147483648", 1, None), ("r := 2147483647", 1, INT_MAX),
    ("r := -int.MIN", 1, None), ("r := -int.MAX", 1, -INT_MAX),
    ("r := - -5", 1, 5), ("r := 0x80000000", 1, None),
    ("r := 0x7fffffff", 1, INT_MAX), ("r := 99999999999999999999", 1, None),
    ("const a = int.MIN\nr := -a", 2, None),
    ("const a = int.MAX\nr := a + 1 - 1", 2, None),
    ("const a = int.MAX\nr := a - 1 + 1", 2, INT_MAX),
    ("a := int.MAX\nr := a + 1 - 1", 2, INT_MAX),
    ("a := int.MIN\nr := -a", 2, INT_MIN),
    ("const def f(a: int) -> int:\n    result -a\nr := f(int.MIN)", 2, None),
    ("import math\nr := math.pow(2, 30)", 2, 1 << 30),
    ("import math\nr := math.floordiv(7, 0)", 2, None),
    ("import math\nr := math.mod(7, 0)", 2, None),
    ("import math\nr := math.mod(-7, 3)", 2, 2),
    ("import math\nconst c = math.floordiv(-7, 2)\nr := c", 2, -4),
    ("r := int(True) + int(False)", 1, 1),
    ("r := int(1 < 2 < 3) * 5", 1, 5),
    ("r := int(not (True and False or 1 == 2))", 1, 1),
    ("const l = list.geometric(1, 2, 32)\nr := 1", 1, None),
    ("const l = list.geometric(1, 2, 31)\nr := l[30]", 1, 1 << 30),
    ("const c = 1.0 / 0\nr := 1", 1, None),
    ("const c = 1.0 % 0\nr := 1", 1, None),
    ("const c = 1.5 / 0.0\nr := 1", 1, None),
    ("const def f(x) -> Any:\n    result 1.0 / x\nconst c = f(0)\nr := 1", 2,
     None),
]


def run_single(mon):
    for body, at, want in SINGLE:
        src = body + "\nscb(\"x\", \"obs\") = r\n/snap 1\n"
        res = kit.compile_src(src)
        if want is None:
            if res.kind != "error":
                mon.violation("single", "out-of-range constant: %s" % (
                    res.message if not res.ok else "accepted"), source=src)
                continue
            if not located(mon, src, res, at, "single"):
                continue
            mon.count("refused")
        else:
            if not res.ok:
                mon.violation("single", "%s: %s" % (res.kind, res.message),
                              source=src)
                continue
            trace, _ = gen.run_pack(res.functions(), [])
            if dict(trace[-1][1]).get("x") != want:
                mon.violation("single", "x is %s, should be %s" % (
                    trace[-1][1], want), source=src)
                continue
            mon.count("values compared")
        mon.evaluated()
        mon.nontrivial(src)


# -- floats and strings: folding vs compile-time functions vs Python -----------
def run_float(mon, seed):
    r = random.Random(seed)
    leaves, env = [], {}
    for i in range(4):
        v = r.choice([0.5, 1.25, 3.0, -2.5, 0.1, 100.125, 2, -3, 7, 10])
        env["p%d" % i] = v
        leaves.append("p%d" % i)

    def ex(d):
        if d <= 0 or r.random() < .2:
            n = r.choice(leaves)
            return n, env[n]
        if r.random() < .15:
            s, v = ex(d - 1)
            return "-(%s)" % s, -v
        a, x = ex(d - 1)
        b, y = ex(d - 1)
        op = r.choice("+-*/%+-")
        if op in "/%" and y == 0:
            op = "+"
        if isinstance(x, float) or isinstance(y, float):
            v = {"+": lambda: x + y, "-": lambda: x - y,
                 "*": lambda: x * y, "/": lambda: x / y,
                 "%": lambda: x % y}[op]()
        else:
            v = exact(op, x, y)
            if not INT_MIN <= v <= INT_MAX:
                return a, x
        return "(%s %s %s)" % (a, op, b), v
    s, v = ex(r.randint(1, 4))
    txt = str(v)

    def lits(s):
        return re.sub(r"p\d", lambda m: "(%r)" % env[m.group(0)], s)
    src = "\n".join(
        ["const (%s)" % ", ".join("%s = %r" % (n, env[n]) for n in leaves),
         "const def f(a0, a1, a2, a3) -> Any:",
         "    k := " + s.replace("p", "a"), "    result k",
         "const def g(q0, q1, q2, q3) -> Any:",
         "    result " + re.sub(r"p(\d)", r"q\1", s),
         "/zz ${%s}" % s, "/zz ${%s}" % lits(s),
         "/zz ${f(p0, p1, p2, p3)}",
         "/zz ${g(%s)}" % ", ".join(repr(env[n]) for n in leaves),
         "const c = " + s, "/zz ${c}",
         "const l = {%s}" % s, "/zz ${l[0]}"]) + "\n"
    res = kit.compile_src(src)
    if not res.ok:
        mon.violation("float", "%s: %s" % (res.kind, res.message),
                      source=src, traceback=res.tb or "")
        return
    vm = vmmod.VM(res.functions())
    vm.run_function("main")
    got = [e[1] for e in vm.events if e[0] == "cmd"]
    if got != ["zz " + txt] * 6:
        mon.violation("float", "%s should be %s everywhere, saw %s" % (
            s, txt, got), source=src)
        return
    mon.evaluated(6)
    mon.count("float values", 6)
    mon.nontrivial(src)


def cases(tier, seed):
    q = tier == "quick"
    out = [("forms", s) for s in runner.spread(seed, "c05f",
                                               900 if q else 9000)]
    out += [("body", s) for s in runner.spread(seed, "c05b",
                                               700 if q else 9000)]
    out += [("float", s) for s in runner.spread(seed, "c05x",
                                                60 if q else 1500)]
    out += [("edge", op, how, tier) for op in "+-*/%"
            for how in list(CF) + list(RF)]
    out.append(("single",))
    return out


def run_case(case, mon):
    if case[0] == "forms":
        run_forms(mon, case[1])
    elif case[0] == "body":
        run_body(mon, case[1])
    elif case[0] == "float":
        run_float(mon, case[1])
    elif case[0] == "edge":
        run_edges(mon, case[1:3], case[3])
    else:
        run_single(mon)
