"""C20: compile-time lists and maps follow sequence and mapping semantics.

Workload: random container expressions at the top level and random mutating
programs inside const functions, the same operations performed on Python
lists and dicts; every intermediate container is unrolled into marker commands
by indexing, iteration, size, membership and lookup, and unrolled again at the
end (operands unchanged).  A table of out-of-range and ill-typed operations
must be diagnosed.  Monitor: the marker log of the executed program."""
import random

from acv import gen, kit, runner, vm as vmmod

PROPERTY = "C20"
RULE = ("one evaluation = one program whose containers are unrolled and "
        "compared element by element with Python, or one faulty operation "
        "diagnosed; distinct by source text")
ASSUME = ["maps keep insertion order; keys of different types differ",
          "copying operations copy one level; mutable elements are not "
          "mutated through two containers in the workload"]
LEVEL = "exploration"

# values: ("i", n) ("b", bool) ("s", str) ("f", float) ("n",)
#         ("l", [values]) ("m", [(k, v)])  - Python lists, mutable


class Bad(Exception):
    pass


def key_of(v):
    if v[0] == "l":
        return ("l",) + tuple(key_of(x) for x in v[1])
    if v[0] in "nm":
        raise Bad("key")
    return (v[0], v[1])


def mget(m, k):
    kk = key_of(k)
    for a, b in m[1]:
        if key_of(a) == kk:
            return b
    return None


def mset(m, k, v):
    kk = key_of(k)
    for i, (a, b) in enumerate(m[1]):
        if key_of(a) == kk:
            m[1][i] = (a, v)
            return
    m[1].append((k, v))


def mkmap(pairs):
    m = ("m", [])
    for k, v in pairs:
        mset(m, k, v)
    return m


def show(v):
    return {"i": lambda: str(v[1]), "b": lambda: str(v[1]).lower(),
            "s": lambda: v[1], "f": lambda: str(v[1]),
            "n": lambda: "None"}[v[0]]()


def lit(v):
    """source text of a value"""
    k = v[0]
    if k == "i":
        return str(v[1])
    if k == "b":
        return str(v[1])
    if k == "s":
        return '"%s"' % v[1]
    if k == "f":
        return repr(v[1])
    if k == "n":
        return "None"
    if k == "l":
        return "{%s}" % ", ".join(map(lit, v[1]))
    return "{%s}" % (", ".join("%s: %s" % (lit(a), lit(b))
                               for a, b in v[1]) or ":")


ATOMS = [("i", n) for n in (0, 1, 2, 3, -1, -5, 7, 100, 2147483647)] + \
    [("b", True), ("b", False), ("s", "a"), ("s", "b"), ("s", "x y"),
     ("s", "1"), ("f", 1.5), ("f", 1.0), ("f", 0.25)]


class G:
    def __init__(self, r, ct=False):
        self.r = r
        self.ct = ct            # inside a const function
        self.env = []           # [name, value, mutable]
        self.n = 0

    def atom(self):
        x = self.r.random()
        if x < .55:
            return ("i", self.r.randint(-4, 9))
        if x < .6 and not self.ct:
            return ("n",)
        return self.r.choice(ATOMS)

    def value(self, d=1):
        if d > 0 and self.r.random() < .15:
            return ("l", [self.value(d - 1)
                          for _ in range(self.r.randint(0, 3))])
        return self.atom()

    def key(self):
        x = self.r.random()
        if x < .08:
            return ("l", [self.r.choice(ATOMS)
                          for _ in range(self.r.randint(0, 2))])
        return self.r.choice(ATOMS) if x < .5 else \
            ("i", self.r.randint(0, 4))

    def idx(self, n):
        return self.r.randint(-n, n - 1)

    def some(self, kind):
        return [(n, v) for n, v, _ in self.env if v[0] == kind]

    def opt(self, lo=-6, hi=8):
        return None if self.r.random() < .3 else self.r.randint(lo, hi)

    # (text, value) pairs
    def list_(self, d):
        r = self.r
        have = self.some("l")
        x = r.random()
        if d <= 0 or x < .18:
            if have and r.random() < .75:
                n, v = r.choice(have)
                return n, v
            v = ("l", [self.value() for _ in range(r.choice(
                [0, 1, 2, 3, 3, 5, 7]))])
            return lit(v), v
        if x < .26 and not self.ct:
            a, b = self.list_(d - 1), self.list_(d - 1)
            return "(%s + %s)" % (a[0], b[0]), ("l", a[1][1] + b[1][1])
        if x < .32 and not self.ct:
            a = self.list_(d - 1)
            k = r.choice([0, 1, 2, 3, -1])
            return "%s * %d" % (a[0], k), ("l", a[1][1] * k)
        if x < .54:
            a = self.list_(d - 1)
            y = r.random()
            if y < .2:
                s = self.r.randint(-6, 8)
                return "%s.slice(%d)" % (self.p(a[0]), s), \
                    ("l", a[1][1][:s])
            b, e = self.opt(), self.opt()
            if y < .5:
                return "%s.slice(%s, %s)" % (self.p(a[0]), b, e), \
                    ("l", a[1][1][b:e])
            st = r.choice([1, 2, 3, -1, -2, -3])
            return "%s.slice(%s, %s, %d)" % (self.p(a[0]), b, e, st), \
                ("l", a[1][1][b:e:st])
        if x < .6:
            a = self.list_(d - 1)
            k = r.choice([0, 1, 2, 3])
            kw = "times=" if r.random() < .3 else ""
            return "%s.cycle(%s%d)" % (self.p(a[0]), kw, k), \
                ("l", a[1][1] * k)
        if x < .64:
            a = self.list_(d - 1)
            return "%s.copy()" % self.p(a[0]), ("l", list(a[1][1]))
        if x < .76:
            y = r.random()
            a, b = r.randint(-5, 6), r.randint(-5, 6)
            st = r.choice([1, 2, 3, -1, -2, 5])
            if y < .3:
                t, v = "list.range(%d)" % b, range(b)
            elif y < .6:
                t, v = "list.range(%d, %d)" % (a, b), range(a, b)
            else:
                t, v = "list.range(%d, %d, %d)" % (a, b, st), \
                    range(a, b, st)
            return t, ("l", [("i", i) for i in v])
        if x < .81:
            v = self.value(1)
            if v[0] == "n":
                v = ("i", 4)
            k = r.choice([0, 1, 2, 4])
            return r.choice(["list.repeat(%s, %d)",
                             "list.repeat(object=%s, times=%d)"]) % (
                lit(v), k), ("l", [v] * k)
        if x < .86:
            s, q, k = r.randint(-3, 4), r.randint(-3, 4), r.randint(0, 6)
            return "list.geometric(%d, %d, %d)" % (s, q, k), \
                ("l", [("i", s * q ** i) for i in range(k)])
        if x < .9:
            if r.random() < .5:
                a = self.list_(d - 1)
                return "list(%s)" % a[0], ("l", list(a[1][1]))
            m = self.map_(d - 1)
            return "list(%s)" % m[0], ("l", [k for k, _ in m[1][1]])
        m = self.map_(d - 1)
        if r.random() < .5:
            return "%s.keys()" % self.p(m[0]), ("l", [k for k, _ in m[1][1]])
        return "%s.values()" % self.p(m[0]), ("l", [v for _, v in m[1][1]])

    def p(self, t):
        return t if t.isidentifier() or t[0] in "{(" and t[-1] in "})" \
            and t.count("{") + t.count("(") <= 1 else "(%s)" % t

    def map_(self, d):
        r = self.r
        have = self.some("m")
        x = r.random()
        if d <= 0 or x < .5:
            if have and r.random() < .6:
                return r.choice(have)
            m = [(self.key(), self.value()) for _ in range(
                r.choice([0, 1, 2, 3, 4, 6]))]
            t = "{%s}" % (", ".join("%s: %s" % (lit(a), lit(b))
                                    for a, b in m) or ":")
            return t, mkmap(m)
        if x < .65:
            m = self.map_(d - 1)
            return "%s.copy()" % self.p(m[0]), ("m", list(m[1][1]))
        ks = self.keys_(d)
        if x < .85:
            vs = self.list_(d - 1)
            t = r.choice(["map(%s, %s)", "map(iter1=%s, iter2=%s)"])
            return t % (ks[0], vs[0]), mkmap(zip(ks[1][1], vs[1][1]))
        if r.random() < .3 and not self.ct:
            return "map.from_keys(%s)" % ks[0], \
                mkmap((k, ("n",)) for k in ks[1][1])
        v = self.atom()
        if v[0] == "n":
            v = ("i", 0)
        return r.choice(["map.from_keys(%s, %s)",
                         "map.from_keys(%s, fill=%s)"]) % (ks[0], lit(v)), \
            mkmap((k, v) for k in ks[1][1])

    def keys_(self, d):
        """a list usable as keys"""
        for _ in range(8):
            t, v = self.list_(d - 1)
            try:
                for x in v[1]:
                    key_of(x)
                return t, v
            except Bad:
                continue
        v = ("l", [self.key() for _ in range(3)])
        return lit(v), v


class Obs:
    """unrolls containers into marker commands"""
    def __init__(self, r):
        self.r = r
        self.out = []
        self.want = []

    def see(self, expr, v, ind=""):
        self.out.append("%s/see ${%s}" % (ind, expr))
        self.want.append("see " + show(v))

    def value(self, e, v, depth=0):
        r = self.r
        if v[0] not in "lm":
            if v[0] != "n":
                self.see(e, v)
            return
        if v[0] == "l":
            self.see("%s.size()" % e, ("i", len(v[1])))
            flat = all(x[0] not in "lmn" for x in v[1])
            if flat and (r.random() < .6 or not v[1]):
                self.out.append("for xx in %s:" % e)
                self.out.append("    /see ${xx}")
                self.want += ["see " + show(x) for x in v[1]]
            else:
                n = len(v[1])
                for i, x in enumerate(v[1]):
                    self.value("%s[%d]" % (e, i if r.random() < .5
                                           else i - n), x, depth + 1)
            return
        self.see("%s.size()" % e, ("i", len(v[1])))
        ks = [k for k, _ in v[1]]
        if all(k[0] != "l" for k in ks):
            self.out.append("for xx in %s:" % e)
            self.out.append("    /see ${xx}")
            self.want += ["see " + show(x) for x in ks]
        for k, x in v[1]:
            y = r.random()
            if y < .6 or x[0] in "lmn":
                self.value("%s[%s]" % (e, lit(k)), x, depth + 1)
            elif y < .8:
                self.see("%s.get(%s)" % (e, lit(k)), x)
            else:
                self.see("%s.has(%s)" % (e, lit(k)), ("b", True))
        for k in r.sample(ATOMS, 3):
            h = mget(v, k) is not None
            if r.random() < .5:
                self.see("%s.has(%s)" % (e, lit(k)), ("b", h))
            else:
                x = mget(v, k) or ("i", 77)
                if x[0] not in "lmn":
                    self.see("%s.get(%s, %s)" % (e, lit(k), 77), x)


def execute(mon, src, want, key):
    x = kit.compile_src(src)
    if not x.ok:
        mon.violation(key + x.kind, x.message, source=src, tb=x.tb or "")
        return
    got = []
    v = vmmod.VM(x.functions())
    v.on_raw = lambda vm, ctx, line: (got.append(line), True)[1]
    v.run_function("main")
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        mon.violation(key + "diff", "marker %d: expected %r, saw %r" % (
            i, want[i:i + 1], got[i:i + 1]), source=src)
        return
    mon.evaluated()
    mon.count("markers", len(want))
    mon.nontrivial(src)
    mon.sample(src)


def top(mon, r):
    g = G(r)
    o = Obs(r)
    src = []
    for k in range(r.randint(4, 9)):
        t, v = g.list_(3) if r.random() < .65 else g.map_(3)
        name = "c%d" % k
        src.append("const %s = %s" % (name, t))
        g.env.append((name, v, False))
        o.value(name, v)
        src += o.out
        o.out = []
    for n, v, _ in g.env:       # operands unchanged
        o.value(n, v)
    src += o.out
    execute(mon, "\n".join(src) + "\n", o.want, "top:")
    mon.count("top_programs")


def fun(mon, r):
    """mutations inside const functions"""
    src, o = [], Obs(r)
    outer = G(r)
    for k in range(2):
        v = ("l", [outer.atom() for _ in range(r.randint(0, 5))])
        v = ("l", [("i", 1) if x[0] == "n" else x for x in v[1]])
        m = mkmap([(outer.key(), ("i", r.randint(0, 9)))
                   for _ in range(r.randint(0, 4))])
        src.append("const gl%d = %s" % (k, lit(v)))
        src.append("const gm%d = %s" % (k, lit(m)))
        outer.env += [("gl%d" % k, v, False), ("gm%d" % k, m, False)]
    calls = []
    for fn in range(r.randint(1, 3)):
        g = G(r, ct=True)
        out = []
        ps = []
        for kind, ty in (("l", "list"), ("m", "map")):
            if r.random() < .6:
                n, v = r.choice(outer.some(kind))
                ps.append(("p" + kind, ty, n))
                g.env.append(("p" + kind, v, False))
        g.env += [e for e in outer.env if r.random() < .3]
        for _ in range(r.randint(3, 12)):
            stmt(g, out, r)
        cands = [e for e in g.env if e[0][0] == "v"]
        if not cands:
            continue
        n, v, _ = r.choice(cands)
        v = freeze(v)
        src.append("const def f%d(%s) -> %s:" % (
            fn, ", ".join("%s: %s" % p[:2] for p in ps),
            {"l": "list", "m": "map"}[v[0]]))
        src += ["    " + s for s in out] + ["    result " + n]
        calls.append(("f%d(%s)" % (fn, ", ".join(p[2] for p in ps)), v))
    for k, (c, v) in enumerate(calls):
        src.append("const r%d = %s" % (k, c))
        o.value("r%d" % k, v)
    for n, v, _ in outer.env:
        o.value(n, v)
    for k, (c, v) in enumerate(calls):   # calling again gives the same
        src.append("const q%d = %s" % (k, c))
        o.value("q%d" % k, v)
    src += o.out
    execute(mon, "\n".join(src) + "\n", o.want, "fun:")
    mon.count("const_functions", len(calls))


def freeze(v):
    if v[0] == "l":
        return ("l", [freeze(x) for x in v[1]])
    if v[0] == "m":
        return ("m", [(k, freeze(x)) for k, x in v[1]])
    return v


def stmt(g, out, r):
    mut = [e for e in g.env if e[2]]
    ls = [e for e in mut if e[1][0] == "l"]
    ms = [e for e in mut if e[1][0] == "m"]
    x = r.random()
    if x < .28 or not (ls or ms):
        # a new mutable container: literal or the result of a copying method
        if r.random() < .6:
            t, v = g.list_(2)
            if t.isidentifier() or not (
                    t.startswith("{") and "." not in t):
                t, v = "%s.copy()" % g.p(t), ("l", list(v[1]))
        else:
            t, v = g.map_(2)
            if t.isidentifier() or not (
                    t.startswith("{") and "." not in t):
                t, v = "%s.copy()" % g.p(t), ("m", list(v[1]))
        g.n += 1
        n = "v%d" % g.n
        out.append("%s := %s" % (n, t))
        g.env.append((n, (v[0], list(v[1])), True))
        return

    def val():
        v = g.atom()
        return v
    if ls and (x < .75 or not ms):
        n, v, _ = r.choice(ls)
        L = v[1]
        k = r.choice(["append", "append", "extend", "extend", "insert",
                      "reverse", "pop", "set", "aug", "loop"])
        if k == "append":
            a = g.value(1) if r.random() < .3 else val()
            out.append("%s.append(%s)" % (n, lit(a)))
            L.append(a)
        elif k == "extend":
            if r.random() < .7:
                t, a = g.list_(1)
                add = list(a[1])
            else:
                t, a = g.map_(1)
                add = [q for q, _ in a[1]]
            if len(L) + len(add) > 40:
                return
            out.append("%s.extend(%s)" % (n, t))
            L.extend(add)
        elif k == "insert" and L:
            i, a = g.idx(len(L)), val()
            out.append("%s.insert(%d, %s)" % (n, i, lit(a)))
            L.insert(i, a)
        elif k == "reverse":
            out.append("%s.reverse()" % n)
            L.reverse()
        elif k == "pop" and L:
            i = g.idx(len(L))
            if r.random() < .5:
                out.append("%s.pop(%d)" % (n, i))
                L.pop(i)
            else:
                # use what was popped
                a = L.pop(i)
                g.n += 1
                out.append("w%d := %s.pop(%s%d)" % (
                    g.n, n, r.choice(["", "index="]), i))
                out.append("%s.append(w%d)" % (n, g.n))
                L.append(a)
        elif k == "set" and L:
            i, a = g.idx(len(L)), val()
            out.append("%s[%d] = %s" % (n, i, lit(a)))
            L[i] = a
        elif k == "aug" and L:
            i = g.idx(len(L))
            if L[i][0] == "i" and abs(L[i][1]) < 10000:
                out.append("%s[%d] += 3" % (n, i))
                L[i] = ("i", L[i][1] + 3)
        elif k == "loop":
            t, a = g.list_(1)
            if t == n or n in t or len(L) + len(a[1]) > 40:
                return
            out.append("for e%d in %s:" % (g.n, t))
            out.append("    %s.append(e%d)" % (n, g.n))
            L.extend(a[1])
        return
    n, v, _ = r.choice(ms)
    k = r.choice(["set", "update", "update", "pop", "popd", "default",
                  "clear", "if"])
    ks = [a for a, _ in v[1]]
    if k == "set" and ks:
        q, a = r.choice(ks), val()
        out.append("%s[%s] = %s" % (n, lit(q), lit(a)))
        mset(v, q, a)
    elif k == "update":
        t, m = g.map_(1)
        out.append("%s.update(%s)" % (n, t))
        for q, a in list(m[1]):
            mset(v, q, a)
    elif k == "pop" and ks:
        q = r.choice(ks)
        out.append("%s.pop(%s)" % (n, lit(q)))
        v[1][:] = [(a, b) for a, b in v[1] if key_of(a) != key_of(q)]
    elif k == "popd":
        q = g.key()
        had = mget(v, q)
        g.n += 1
        out.append("w%d := %s.pop(%s, 5)" % (g.n, n, lit(q)))
        v[1][:] = [(a, b) for a, b in v[1] if key_of(a) != key_of(q)]
        if ls:
            out.append("%s.append(w%d)" % (ls[0][0], g.n))
            ls[0][1][1].append(had or ("i", 5))
    elif k == "default":
        q, a = g.key(), val()
        had = mget(v, q)
        out.append("%s.set_default(%s, %s)" % (n, lit(q), lit(a)))
        if had is None:
            v[1].append((q, a))
    elif k == "clear" and r.random() < .3:
        out.append("%s.clear()" % n)
        del v[1][:]
    elif k == "if" and ls:
        q = g.key()
        out.append("if %s%s.has(%s):" % (r.choice(["", "not not "]), n,
                                         lit(q)))
        out.append("    %s.append(%s)" % (ls[0][0], 81))
        out.append("else:")
        out.append("    %s.append(%s)" % (ls[0][0], 82))
        ls[0][1][1].append(("i", 81 if mget(v, q) is not None else 82))


def bad(mon, r):
    """operations outside their domain are diagnosed at their line"""
    n = r.randint(0, 4)
    l = ("l", [("i", r.randint(0, 9)) for _ in range(n)])
    m = mkmap([(("i", i), ("s", "x")) for i in range(n)])
    off = r.choice([n, n + 1, -n - 1, -n - 2, 100, -100])
    ops_rt = ["l[%d]" % off, "m[%d]" % (n + 3), "m[True]", 'm["0"]',
              "m[0.0]", "l.slice(1, 2, 0)", "list.range(1, 5, 0)",
              "l.cycle(-1)", 'l["a"]', "l[True]", "l[0, 1]",
              'list.range("a")', "list.range()", "list.range(1, 2, 3, 4)",
              "l.slice()", "list(5)", "map(1, 2)", "map({1: 2}, 5)",
              "map.from_keys(3)", "{{1: 2}: 3}", "{None: 3}", "m.get()",
              "m[{1: 2}]", "l + m", "l + 1", 'l * "a"', "l * l", "l - l",
              "l.append(1)", "l.nothing()", "list.geometric(1, 2)",
              "list.geometric(1, 10, 12)", "list.repeat(1)",
              "l[var]", "l * var", "{var}", "{1: var}", "m[var]",
              "list.range(var)", "l.slice(var)", "l.cycle(var)"]
    ops_ct = ["x.pop(%d)" % off, "x.insert(%d, 1)" % (off + (off == n)),
              "x[%d] = 1" % off, "x[%d] += 1" % off, "y.pop(%d)" % (n + 2),
              "y[%d] = 1" % (n + 2), 'y["0"] = 1', "y.pop(True)",
              "x.append()", "x.append(1, 2)", "x.extend(5)",
              "y.update({1, 2})", "y.update(5)", "a.append(1)",
              "a[0] = 1", "y.set_default({1: 2}, 3)",
              "y.set_default(None, 3)", "a.reverse()",
              "x.pop()", "x.insert(0)", "x.reverse(1)"]
    if n == 0:
        ops_ct = [o for o in ops_ct if o != "a[0] = 1"]
    pick = [("rt", o) for o in ops_rt] + [("ct", o) for o in ops_ct]
    for kind, o in r.sample(pick, 12):
        if kind == "rt":
            src = ("var := 1\nconst l = %s\nconst m = %s\nfor q in {%s}:\n"
                   "    /x\n" % (lit(l), lit(m), o))
            line = 4
        else:
            src = ("const def f(a: list, b: map) -> int:\n    x := a.copy()\n"
                   "    y := b.copy()\n    %s\n    result 1\n"
                   "/x ${f(%s, %s)}\n" % (o, lit(l), lit(m)))
            line = 4
        x = kit.compile_src(src)
        mon.evaluated()
        mon.count("faulty_operations")
        mon.nontrivial(src)
        if x.kind != "error":
            mon.violation("bad:" + o, "%s is %s" % (
                o, "accepted" if x.ok else "a crash: " + x.message),
                source=src, tb=x.tb or "")
        elif "main.aca:%d:" % line not in x.message:
            mon.violation("where:" + o, "not located: " + x.message,
                          source=src)


def cases(tier, seed):
    q = tier == "quick"
    out = [("top", s) for s in runner.spread(seed, "C20t",
                                             500 if q else 9000)]
    out += [("fun", s) for s in runner.spread(seed, "C20f",
                                              700 if q else 12000)]
    out += [("bad", s) for s in runner.spread(seed, "C20b",
                                              60 if q else 800)]
    return out


def run_case(case, mon):
    {"top": top, "fun": fun, "bad": bad}[case[0]](
        mon, random.Random("%r" % (case,)))


MIN = {"markers": 20000, "const_functions": 800, "faulty_operations": 600,
       "top_programs": 400}
