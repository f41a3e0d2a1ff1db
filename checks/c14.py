"""C14: structs.

Workload: random struct hierarchies (several bases, nested structs); sequences
of constructions (also from their own fields), assignments, field writes,
copies, argument passing, results, references and swaps with a dump of every
field of every variable after each statement; assignability and field
visibility tables; random programs.  Oracle: reference interpreter; declared
inheritance for the tables."""
import random

from acv import prog, runner, kit
from acv.lang import Ref, UB, text

PROPERTY = "C14"
RULE = ("one evaluation = one program compiled and executed, every field of "
        "every struct compared after every statement, or one "
        "assignability/field-visibility question put to the compiler; "
        "non-trivial = at least one snapshot or a decided question, distinct "
        "by source text")
ASSUME = ["fields a constructor does not mention are not read"]
LEVEL = "exploration"
V = lambda n: ("v", n)
I = lambda n: ("i", n)


class H:
    """a random struct hierarchy"""

    def __init__(self, r, deep=True):
        self.r = r
        self.s = {}         # name -> (bases, own)
        n = r.choice([2, 3, 4, 5])
        fid = 0
        for k in range(n):
            name = "S%d" % k
            bases, have = [], set()
            for b in self.s:
                names = {f for f, _ in self.fields(b)}
                if r.random() < .4 and not names & have:
                    bases.append(b)
                    have |= names
            r.shuffle(bases)
            own = []
            for _ in range(r.randint(0 if bases else 1, 3)):
                fid += 1
                t = r.choice(["int", "int", "bool"] + list(self.s))
                own.append(("f%d" % fid, t))
            self.s[name] = (bases, own)

    def fields(self, n):
        b, own = self.s[n]
        out = list(own)
        for x in b:
            out += self.fields(x)
        return out

    def sub(self, a, b):
        return a == b or any(self.sub(x, b) for x in self.s[a][0])

    def decls(self):
        return [("struct", n, b, o) for n, (b, o) in self.s.items()]

    def leaves(self, e, t):
        if t in self.s:
            for f, ft in self.fields(t):
                yield from self.leaves(("f", e, f), ft)
        else:
            yield e, t

    def subparts(self, e, t):
        """all struct-typed sub-places with their type"""
        yield e, t
        if t in self.s:
            for f, ft in self.fields(t):
                yield from self.subparts(("f", e, f), ft)


def seq(r):
    h = H(r)
    p = h.decls()
    names = list(h.s)
    vs = {}
    leaves = []
    for i in range(r.choice([3, 4, 5])):
        t = r.choice(names)
        n = "x%d" % i
        p.append(("vardef", n, t, None))
        vs[n] = t
        for e, lt in h.leaves(V(n), t):
            leaves.append((e, lt))
            p.append(("assign", e, I(r.randint(-50, 50)) if lt == "int"
                      else ("b", r.random() < .5)))
    if len(leaves) > 60:
        return None
    for t in names:
        p.append(("def", "def", "id%s" % t, [("z", t, "", None)], ("", t),
                  [("result", V("z"))] if r.random() < .5 else
                  [("auto", "k", V("z")), ("result", V("k"))] +
                  [("assign", e, I(99) if lt == "int" else ("b", True))
                   for e, lt in list(h.leaves(V("z"), t))[:2]]))
        p.append(("def", "inline", "in%s" % t, [("z", t, "", None)], ("", t),
                  [("assign", e, I(98) if lt == "int" else ("b", False))
                   for e, lt in list(h.leaves(V("z"), t))[:1]] +
                  [("result", V("z"))]))
        p.append(("def", "inline", "rf%s" % t, [("z", t, "&", None)],
                  ("&", t), [("result", V("z"))]))
    places = []
    for n, t in vs.items():
        places += [(e, ty) for e, ty in h.subparts(V(n), t)]
    snap = 0

    def dump():
        nonlocal snap
        snap += 1
        return [("assign", ("scb", "o%d" % i), e if t == "int" else
                 ("int", e)) for i, (e, t) in enumerate(leaves)] + \
            [("snap", snap)]

    def val(t, d):
        """an expression assignable to type t"""
        c = [(e, ty) for e, ty in places
             if ty == t or (ty in h.s and t in h.s and h.sub(ty, t))]
        x = r.random()
        if t in h.s:
            if d > 0 and x < .45:
                return new(t, d)
            if c:
                e, ty = r.choice(c)
                y = r.random()
                if y < .25 and d > 0:
                    return ("call", r.choice(["id", "in"]) + ty, [e], [])
                if y < .35:
                    return ("call", "rf" + ty, [e], [])
                return e
            return new(t, d)
        if t == "int":
            if c and x < .8:
                e = r.choice(c)[0]
                if x < .3:
                    return ("bin", r.choice("+-*"), e, r.choice(
                        [r.choice(c)[0], I(3)]))
                return e
            return I(r.randint(-9, 9))
        if c and x < .8:
            return r.choice(c)[0]
        return ("b", r.random() < .5)

    def new(t, d):
        fs = h.fields(t)
        r.shuffle(fs)
        return ("new", t, [(f, val(ft, d - 1)) for f, ft in fs])
    p += dump()
    k = 0
    for _ in range(r.choice([6, 10, 14])):
        x = r.random()
        e, t = r.choice(places)
        if t in h.s and x < .55:
            if r.random() < .15:
                fs = h.fields(t)
                fs = r.sample(fs, r.randint(1, len(fs))) if fs else []
                p.append(("assign", e, ("new", t, [(f, val(ft, 1))
                                                   for f, ft in fs])))
            else:
                p.append(("assign", e, val(t, 2)))
        elif x < .7:
            c = [y for y in places if y[1] == t]
            a, b = r.choice(c)[0], r.choice(c)[0]
            if a != b and not prefix(a, b) and not prefix(b, a):
                p.append(("swap", a, b))
        elif t in h.s and x < .8:
            k += 1
            n = "y%d" % k
            if r.random() < .5:
                p.append(("auto", n, val(t, 2)))
                # its real type may be a sub type: track only when exact
                ty = None
            else:
                p.append(("vardef", n, t, val(t, 2)))
                for l in h.leaves(V(n), t):
                    leaves.append(l)
                places.extend(h.subparts(V(n), t))
        elif t in h.s and x < .85:
            k += 1
            p.append(("ref", "r%d" % k, None, e))
            places.extend(h.subparts(V("r%d" % k), t))
        elif t == "int":
            p.append(("aug", r.choice("+-*"), e, val("int", 1)))
        else:
            p.append(("assign", e, val(t, 2)))
        p += dump()
        if len(leaves) > 90:
            break
    return p


def prefix(a, b):
    while True:
        if a == b:
            return True
        if b[0] != "f":
            return False
        b = b[1]


def cases(tier, seed):
    a, b, c = (500, 250, 200) if tier == "quick" else (9000, 6000, 4000)
    return [("seq", s) for s in runner.spread(seed, "C14s", a)] + \
        [("tab", s) for s in runner.spread(seed, "C14t", c)] + \
        [("rnd", s) for s in runner.spread(seed, "C14", b)]


def run_case(case, mon):
    r = random.Random("%r" % (case,))
    if case[0] == "rnd":
        prog.run_random(mon, case[1], structs=3, depth=2, funcs=3, inlines=2,
                        swaps=1.0, refs=1.0, dump=.5)
        mon.count("random_programs")
        return
    if case[0] == "seq":
        for _ in range(20):
            p = seq(r)
            if p is None:
                continue
            try:
                Ref(20000).run_main(p)
            except UB:
                continue
            if prog.run_fixed(mon, p, key="seq:") is not None:
                mon.count("struct_sequences")
            return
        mon.count("discarded")
        return
    h = H(r)
    base = text(h.decls())
    names = list(h.s)
    allf = sorted({f for n in names for f, _ in h.fields(n)} | {"nope"})
    for _ in range(6):
        a, b = r.choice(names), r.choice(names)
        k = r.choice(["def", "assign", "arg", "result", "inl", "cmpfield",
                      "ctor"])
        ok = h.sub(b, a)
        if k == "def":
            src = "v: %s\nw: %s = v\n" % (b, a)
        elif k == "assign":
            src = "v: %s\nw: %s\nw = v\n" % (b, a)
        elif k == "arg":
            src = "def f(z: %s):\n    pass\nv: %s\nf(v)\n" % (a, b)
        elif k == "inl":
            src = "inline def f(&z: %s):\n    pass\nv: %s\nf(v)\n" % (a, b)
        elif k == "result":
            src = "v: %s\ndef f() -> %s:\n    result v\nw := f()\n" % (b, a)
        elif k == "cmpfield":
            f = r.choice(allf)
            t = dict(h.fields(a)).get(f)
            ok = t is not None
            src = "v: %s\nw := v.%s\n" % (a, f)
        else:
            f = r.choice(allf)
            t = dict(h.fields(a)).get(f)
            ok = t is not None and t in ("int", "bool") or t in h.s
            val = {"int": "1", "bool": "True", None: "1"}.get(
                t, "%s()" % t)
            if ok and r.random() < .4:
                ok = False
                val = {"int": "True", "bool": "3"}.get(t, "1")
            src = "v: %s = %s(%s=%s)\n" % (a, a, f, val)
        res = kit.compile_src(base + src)
        mon.evaluated()
        mon.count("questions")
        mon.count("accept" if ok else "reject")
        if res.kind == "crash":
            mon.violation("tab:crash", "compiler crashed: %s" % res.message,
                          source=base + src, traceback=res.tb)
        elif res.ok != ok:
            mon.violation("tab:%s" % k, "%s: compiler %s (%s)" % (
                src.replace("\n", " ; "), "accepts an assignment between "
                "unrelated types" if res.ok else "refuses a legal use",
                res.message), source=base + src)
        else:
            mon.nontrivial(base + src)


MIN = {"struct_sequences": 400, "random_programs": 200, "questions": 800,
       "accept": 150, "reject": 150}
