"""C04: calls.

Workload: random signatures (kind, number, types, ports and defaults of
parameters, result type and port) called in every argument style (positional,
keyword in any order, omitted defaults), several calls and nested calls per
expression, from main, functions, inline functions and interfaces; bodies log
every parameter, modify it, and modify reference parameters; plus random
programs.  Monitor: snapshots of parameters inside the callee and of all
caller variables after the call.  Oracle: the reference interpreter."""
import random

from acv import prog, runner
from acv.lang import Ref, UB

PROPERTY = "C04"
RULE = ("one evaluation = one program compiled, executed on the VM and "
        "compared snapshot by snapshot with the reference interpreter; "
        "non-trivial = at least one call observed, distinct by source text")
ASSUME = ["recursion is outside the property (the language has no call stack)",
          "calls with side effects are used as statements, sole right-hand "
          "sides or sole conditions; pure calls anywhere in expressions"]
LEVEL = "exploration"
V = lambda n: ("v", n)
I = lambda n: ("i", n)


class G:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.snap_n = 0
        self.funcs = []
        self.inbody = False

    def snap(self):
        self.snap_n += 1
        return ("snap", self.snap_n)

    def log(self, names):
        out = []
        for i, (n, t) in enumerate(names):
            if t == "S":
                out.append(("assign", ("scb", "l%d" % i), ("bin", "+", (
                    "f", V(n), "x"), ("int", ("f", V(n), "y")))))
            else:
                out.append(("assign", ("scb", "l%d" % i),
                            V(n) if t == "int" else ("int", V(n))))
        return out + [self.snap()]

    def lit(self, t):
        return I(self.r.choice([0, 1, 2, 5, -3, 11, 2147483647])) \
            if t == "int" else ("b", self.r.random() < .5)

    def func(self):
        r = self.r
        kind = r.choice(["def", "def", "inline", "inline", "const"])
        self.n += 1
        name = "f%d" % self.n
        ps = []
        np = r.choice([0, 1, 1, 2, 2, 3, 4])
        seen_default = False
        for i in range(np):
            if kind == "const":
                t, port = r.choice(["int", "bool"]), ""
            elif kind == "inline":
                port = r.choice(["", "", "&", "const"])
                t = r.choice(["int", "bool"] if port == "const" else
                             ["int", "int", "bool", "S"])
            else:
                port, t = "", r.choice(["int", "int", "bool", "S"])
            d = None
            if t != "S" and port != "&" and (seen_default or r.random() < .3):
                d = self.lit(t)
            if port == "&" and t != "S" and (seen_default or r.random() < .2):
                d = V("a" if t == "int" else "p")
            if seen_default and d is None:
                t, port, d = "int", "" if kind != "inline" else port, I(4)
                if port == "&":
                    d = V("b")
            seen_default = seen_default or d is not None
            pn = r.choice("xyzwab") + "_%d" % i if r.random() < .8 \
                else ["a", "b", "p", "t"][i]     # shadows a global
            ty = t if (d is None or r.random() < .5 or kind == "const"
                       or True) else None
            ps.append((pn, ty, port, d))
        if len({p[0] for p in ps}) != len(ps):
            ps = [("v%d" % i,) + p[1:] for i, p in enumerate(ps)]
        names = [(n, t) for n, t, _, _ in ps]
        body = []
        self.inbody = True
        pure = kind == "const" or r.random() < .5
        if kind != "const" and not pure:
            body += self.log(names)
        ints = [V(n) for n, t in names if t == "int"] + \
            [("f", V(n), "x") for n, t in names if t == "S"]
        bools = [V(n) for n, t in names if t == "bool"] + \
            [("f", V(n), "y") for n, t in names if t == "S"]
        consts = {n for n, t, po, _ in ps if po == "const"}
        refs = {n for n, t, po, _ in ps if po == "&"}

        def iexp():
            e = I(r.randint(1, 9))
            for x in ints + [("int", b) for b in bools]:
                e = ("bin", r.choice("+-*"), ("bin", "*", e, I(
                    r.choice([1, 2, 3]))), x)
            if kind != "const" and r.random() < .4:
                e = ("bin", "-", e, V(r.choice(["g1", "g2"])))
            if kind != "const" and self.pures and r.random() < .35:
                c = self.call(r.choice(self.pures), 1, ints, bools)
                if c is not None:
                    e = ("bin", "+", e, c if c[0] == "call" else c)
            return e

        def bexp():
            e = ("cmp", [iexp(), I(r.randint(-3, 9))],
                 [r.choice(["<", ">", "==", "!="])])
            for b in bools:
                e = (r.choice(["and", "or"]), [e, b])
            return e
        # write the parameters
        for n, t, po, _ in ps:
            if po == "const" or kind == "const":
                continue
            if pure and po == "&":
                continue
            if r.random() < .6:
                if t == "int":
                    body.append(("aug", r.choice("+-"), V(n),
                                 I(r.randint(1, 5))))
                elif t == "bool":
                    body.append(("assign", V(n), ("un", "not", V(n))))
                else:
                    body.append(("assign", ("f", V(n), "x"), ("bin", "+", (
                        "f", V(n), "x"), I(10))))
        if not pure:
            body.append(("aug", "+", V("g1"), I(1)))
            if r.random() < .3 and self.effects:
                c = self.call(r.choice(self.effects), 1, ints, bools)
                if c is not None:
                    body.append(("expr", c))
        rt = r.choice(["int", "int", "bool", "S"] if kind != "const"
                      else ["int", "bool"])
        if kind != "const" and not pure and r.random() < .2:
            rt = None
        rport = ""
        if kind == "inline" and rt == "int" and refs and r.random() < .6:
            cand = [n for n, t, po, _ in ps if po == "&" and t == "int"]
            if cand:
                rport = "&"
                body.append(("result", V(r.choice(cand))))
        if rt and not rport:
            def rexp():
                if rt == "int":
                    return iexp()
                if rt == "bool":
                    return bexp()
                return ("new", "S", [("x", iexp()), ("y", bexp())])
            if kind == "const" and r.random() < .4:
                body.append(("if", [(bexp(), [("result", rexp())])],
                             [("result", rexp())]))
            else:
                body.append(("result", rexp()))
                if kind == "def" and r.random() < .4:
                    # a later result replaces an earlier one
                    body.append(("if", [(bexp(), [("result", rexp())])],
                                 None))
        if not pure:
            body += self.log([(n, t) for n, t in names])
        if not body:
            body = [("pass",)]
        f = dict(name=name, kind=kind, ps=ps, rt=rt, rport=rport, pure=pure)
        self.funcs.append(f)
        self.inbody = False
        return [("def", kind, name, ps, (rport, rt) if rt else None, body)]

    @property
    def pures(self):
        return [f for f in self.funcs if f["pure"] and f["rt"] == "int"]

    @property
    def effects(self):
        return [f for f in self.funcs if not f["pure"]]

    def arg(self, t, port, d, ints, bools, kind):
        r = self.r
        if kind == "const" or port == "const":
            if t == "int":
                return r.choice([I(r.randint(-9, 9)), V("K"),
                                 ("bin", "*", V("K"), I(3))])
            return r.choice([("b", True), ("b", False), V("KB")])
        if port == "&":
            if self.inbody:
                return {"int": V("g2"), "bool": V("g3"), "S": V("s")}[t]
            if t == "int":
                return r.choice([V("a"), V("b"), ("f", V("s"), "x"),
                                 ("scb", "h")])
            if t == "bool":
                return r.choice([V("p"), V("q"), ("f", V("s"), "y")])
            return r.choice([V("s"), V("s2")])
        if t == "S":
            return r.choice([V("s"), V("s2"), ("new", "S", [
                ("x", self.arg("int", "", d - 1, ints, bools, "")),
                ("y", self.arg("bool", "", d - 1, ints, bools, ""))])])
        if t == "bool":
            x = r.random()
            if x < .4:
                return r.choice(bools)
            if x < .5:
                return ("b", r.random() < .5)
            return r.choice([("un", "not", r.choice(bools)),
                             ("cmp", [r.choice(ints), I(2)], [">"]),
                             ("or", [r.choice(bools), r.choice(bools)])])
        x = r.random()
        if x < .3:
            return r.choice(ints)
        if x < .45:
            return I(r.choice([0, 3, -7, 100]))
        if x < .7 and d > 0 and self.pures:
            c = self.call(r.choice(self.pures), d - 1, ints, bools)
            if c is not None:
                return c
        return ("bin", r.choice("+-*"), r.choice(ints),
                r.choice(ints + [I(3)]))

    def call(self, f, d, ints, bools):
        r = self.r
        ints = ints or [V("g1")]
        bools = bools or [V("g3")]
        pos, kw = [], []
        npos = r.randint(0, len(f["ps"]))
        for i, (n, t, po, dflt) in enumerate(f["ps"]):
            if i >= npos and dflt is not None and r.random() < .5:
                continue
            a = self.arg(t, po, d, ints, bools, f["kind"])
            (pos if i < npos else kw).append(a if i < npos else (n, a))
        r.shuffle(kw)
        return ("call", f["name"], pos, kw)


INTS = [V("a"), V("b"), ("f", V("s"), "x"), ("scb", "h"), V("g2")]
BOOLS = [V("p"), V("q"), ("f", V("s"), "y")]


def program(r):
    g = G(r)
    p = [("struct", "S", [], [("x", "int"), ("y", "bool")]),
         ("const", [("K", None, I(-4))]), ("const", [("KB", None, (
             "b", True))])]
    for n, v in [("a", 3), ("b", -8), ("t", 0), ("g1", 1), ("g2", 6)]:
        p.append(("vardef", n, "int", I(v)))
    for n, v in [("p", True), ("q", False), ("u", False), ("g3", True)]:
        p.append(("vardef", n, "bool", ("b", v)))
    for n in ("s", "s2"):
        p.append(("vardef", n, "S", ("new", "S", [
            ("x", I(r.randint(1, 5))), ("y", ("b", r.random() < .5))])))
    p.append(("assign", ("scb", "h"), I(7)))
    for _ in range(r.choice([2, 3, 4, 6])):
        p += g.func()
        p += calls(g, 3)
    body = calls(g, 6)
    w = r.random()
    sched = []
    if w < .2:
        p += [("def", "def", "wrap", [], None, body),
              ("expr", ("call", "wrap", [], []))]
    elif w < .4:
        p += [("def", "inline", "wrap", [], None, body),
              ("expr", ("call", "wrap", [], [])),
              ("expr", ("call", "wrap", [], []))]
    elif w < .6:
        p += [("iface", "go", body)]
        sched = ["go", "go"]
    else:
        p += body
    p += dump(g)
    return p, sched


def dump(g):
    return [("assign", ("scb", "d%d" % i), e) for i, e in enumerate(
        [V("a"), V("b"), V("t"), V("g1"), V("g2"), ("int", V("p")),
         ("int", V("q")), ("int", V("u")), ("f", V("s"), "x"),
         ("int", ("f", V("s"), "y")), ("f", V("s2"), "x")])] + [g.snap()]


def calls(g, n):
    r = g.r
    out = []
    for _ in range(n):
        f = r.choice(g.funcs)
        c = g.call(f, 2, INTS, BOOLS)
        rt = f["rt"]
        x = r.random()
        if not f["pure"]:
            if rt is None or x < .3:
                if f["kind"] != "const":
                    out.append(("expr", c))
            elif rt == "int":
                if f["rport"] and x < .6:
                    out.append(("aug", r.choice("+-*"), c, I(r.choice(
                        [2, 3]))) if x < .45 else ("assign", c, I(77)))
                else:
                    out.append(("assign", V("t"), c))
            elif rt == "bool":
                out.append(("assign", V("u"), c) if x < .7 else
                           ("if", [(c, [("aug", "+", V("t"), I(1))])],
                            [("aug", "-", V("t"), I(1))]))
            else:
                out.append(("assign", V("s2"), c))
        elif rt == "int":
            if f["rport"] and x < .3:
                out.append(("aug", "-", c, I(5)))
            elif x < .5:
                out.append(("assign", V(r.choice("abt")), c))
            else:
                c2 = g.call(f, 2, INTS, BOOLS)
                f3 = r.choice(g.pures)
                c3 = g.call(f3, 2, INTS, BOOLS)
                out.append(("assign", V(r.choice("abt")), (
                    "bin", r.choice("+-*"), ("bin", r.choice("+-*"), c, c2),
                    c3)))
        elif rt == "bool":
            c2 = g.call(f, 2, INTS, BOOLS)
            out.append(("assign", V(r.choice("pqu")), c) if x < .4 else
                       ("assign", V(r.choice("pqu")),
                        (r.choice(["and", "or"]), [c, c2])) if x < .7 else
                       ("if", [(c, [("aug", "+", V("t"), I(1))])],
                        [("aug", "-", V("t"), I(1))]))
        elif rt == "S":
            out.append(("assign", V(r.choice(["s", "s2"])), c) if x < .6 else
                       ("assign", V("t"), ("f", c, "x")))
        out += dump(g)
    return out


def sequence(r):
    """Several calls of functions with state in one expression whose other
    operands are constants: each call delivers its own result."""
    p = [("struct", "S", [], [("x", "int"), ("y", "bool")]),
         ("vardef", "n", "int", I(r.randint(0, 5))),
         ("vardef", "t", "int", I(0)), ("vardef", "u", "bool", ("b", False)),
         ("vardef", "s", "S", ("new", "S", [("x", I(1)), ("y", ("b", True))]))]
    fs = []
    for i in range(r.choice([1, 2, 2, 3])):
        kind = r.choice(["def", "def", "def", "inline"])
        k = r.choice([0, 0, 1, 2])
        rt = r.choice(["int", "int", "int", "bool", "S"])
        ps = [("p%d" % j, "int", "", None) for j in range(k)]
        e = ("bin", "*", V("n"), I(r.choice([1, 1, 3, -2])))
        for q in ps:
            e = ("bin", r.choice("+-"), e, ("bin", "*", V(q[0]), I(
                r.choice([1, 10]))))
        if rt == "bool":
            e = ("cmp", [("bin", "%", e, I(3)), I(1)], [r.choice(["==", ">"])])
        elif rt == "S":
            e = ("new", "S", [("x", e), ("y", ("cmp", [V("n"), I(4)], [">"]))])
        body = [("aug", "+", V("n"), I(r.choice([1, 1, 2])))]
        if r.random() < .3 and fs and rt != "S":
            body.append(("expr", ("call", fs[0][0], [I(2)] * fs[0][1], [])))
        body.append(("result", e))
        if r.random() < .3:
            body.append(("aug", "+", V("n"), I(1)))
        fs.append(("f%d" % i, k, rt))
        p.append(("def", kind, "f%d" % i, ps, ("", rt), body))

    def call(f, d):
        c = ("call", f[0], [ie(d - 1) for _ in range(f[1])], [])
        if f[2] == "int":
            return c
        return ("int", c) if f[2] == "bool" else ("f", c, "x")

    def ie(d):
        if d <= 0 or r.random() < .15:
            return I(r.randint(-4, 9)) if r.random() < .5 or d < -1 \
                else call(r.choice(fs), d - 1)
        if r.random() < .5:
            return call(r.choice(fs), d)
        return ("bin", r.choice("+-*"), ie(d - 1), ie(d - 1))
    for i in range(4):
        x = r.random()
        if x < .7:
            p.append(("assign", ("scb", "o%d" % i), ie(3)))
        elif x < .85:
            p.append(("assign", V("u"), ("cmp", [ie(2), ie(2)], [
                r.choice(["<", "==", "!=", ">="])])))
            p.append(("assign", ("scb", "o%d" % i), ("int", V("u"))))
        else:
            p.append(("if", [(("cmp", [ie(2), ie(2)], [r.choice(["<", ">"])]), [
                ("assign", ("scb", "o%d" % i), ie(1))])], [
                ("assign", V("t"), ie(2))]))
        p.append(("assign", ("scb", "n"), V("n")))
        p.append(("snap", i + 1))
    return p, []


def cases(tier, seed):
    a, b = (900, 250) if tier == "quick" else (25000, 8000)
    return [("seq", s) for s in runner.spread(seed, "C04s", a // 4)] + [("call", s) for s in runner.spread(seed, "C04c", a)] + \
        [("rnd", s) for s in runner.spread(seed, "C04", b)]


def run_case(case, mon):
    r = random.Random("%r" % (case,))
    if case[0] == "rnd":
        prog.run_random(mon, case[1], funcs=4, inlines=3, calls=1.0,
                        structs=1, refs=1.0, effect_funcs=.6, depth=2,
                        n_top=12)
        mon.count("random_programs")
        return
    for _ in range(20):
        p, sched = (sequence if case[0] == "seq" else program)(r)
        try:
            ref = Ref(20000)
            ref.run_main(p)
            for x in sched:
                ref.run_iface(x)
        except UB:
            continue
        if prog.run_fixed(mon, p, key="call:", sched=sched,
                          sample=True) is not None:
            mon.count("sequence_programs" if case[0] == "seq"
                      else "call_programs")
        return
    mon.count("discarded")


MIN = {"call_programs": 700, "random_programs": 200,
       "sequence_programs": 150, "source_calls": 10000}
