"""Random program generator for acv.lang, and the harness that runs a program
on the real compiler + the monitored VM and compares with the reference."""
from . import kit, vm as vmmod
from .lang import (INT_MAX, INT_MIN, Ref, UB, text, Style)

INTS = [0, 1, 2, 3, 5, 7, 10, 12, 16, 100, -1, -2, -3, -7, -10, 46341, 65536,
        -65536, 1000003, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1]

DEFAULTS = dict(
    n_top=14,            # top-level statements
    depth=3,             # expression depth
    block=3,             # nested block depth
    funcs=2, inlines=1, structs=0, ifaces=0,
    loops=1.0, ifs=1.0, fors=0.4, calls=1.0, consts=0.4, refs=0.4,
    bools=1.0, scb=0.7, big=0.15, raws=0.1, swaps=0.3,
    effect_funcs=0.5, observe=0.5, dump=0.15, const_if=0.1,
)


class Var:
    __slots__ = ("name", "type", "kind")

    def __init__(self, name, type_, kind="var"):
        self.name, self.type, self.kind = name, type_, kind
        # kind: var | ro (constant) | ctr (loop counter: never written)


class FuncInfo:
    __slots__ = ("name", "kind", "params", "rtype", "rport", "effect", "idx")


class Gen:
    def __init__(self, rng, **knobs):
        self.r = rng
        self.k = dict(DEFAULTS)
        self.k.update(knobs)
        self.uid = 0
        self.snap_n = 0
        self.funcs = []
        self.structs = {}       # name -> (bases, fields(all))
        self.scopes = [[]]      # lists of Var
        self.in_func = 0
        self.pure = False       # generating a pure function body
        self.obs_written = set()
        self.scb_init = []      # user slots safe to read
        self.inline_only = False
        self.cond_depth = 0
        self.iface_paths = []

    # helpers ---------------------------------------------------------------
    def name(self, p="v"):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def chance(self, p):
        return self.r.random() < p

    def visible(self, type_=None, writable=False):
        seen = set()
        out = []
        for i, sc in reversed(list(enumerate(self.scopes))):
            for v in reversed(sc):
                if v.name in seen:
                    continue
                seen.add(v.name)
                if type_ is not None and v.type != type_:
                    continue
                if writable:
                    if v.kind != "var":
                        continue
                    if self.pure and i < self.pure_base:
                        continue
                out.append(v)
        return out

    pure_base = 0

    def add(self, name, type_, kind="var"):
        self.scopes[-1].append(Var(name, type_, kind))

    # lvalues ------------------------------------------------------------
    def places(self, type_, writable=False):
        """expressions denoting storage of the given type"""
        out = []
        for v in self.visible(None, writable):
            if v.type == type_:
                out.append(("v", v.name))
            elif v.type in self.structs and v.kind == "var":
                self._fields(("v", v.name), v.type, type_, out)
        if type_ == "int" and not self.pure:
            for h in self.scb_init:
                out.append(("scb", h))
        return out

    def _fields(self, base, st, type_, out):
        for f, t in self.structs[st][1]:
            if t == type_:
                out.append(("f", base, f))
            elif t in self.structs:
                self._fields(("f", base, f), t, type_, out)

    # expressions -----------------------------------------------------------
    def lit(self):
        if self.chance(self.k["big"]):
            return self.r.choice(INTS)
        return self.r.randint(-12, 30)

    def int_(self, d):
        return self._int(d)[0]

    def _int(self, d):
        """returns (expr, bound): bound is None for run-time values, else
        a bound on the magnitude of the compile-time constant"""
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.25:
            ps = self.places("int")
            y = r.random()
            if ps and y < 0.7:
                e = r.choice(ps)
                if e[0] == "v":
                    v = next(v for v in self.visible() if v.name == e[1])
                    if v.kind == "ro":
                        return e, 64
                return e, None
            n = self.lit()
            return ("i", n), abs(n)
        if x < 0.33:
            e, b = self._int(d - 1)
            op = "-" if self.chance(0.8) else "+"
            if op == "-" and b is not None and b > INT_MAX:
                op = "+"
            return ("un", op, e), b
        if x < 0.41 and self.k["bools"]:
            e = self.bool_(d - 1)
            return ("int", e), (None if not self.isconst(e) else 1)
        if x < 0.50 and self.k["calls"]:
            c = self.call_expr("int", d)
            if c is not None:
                return c, (None if self.last_port != "const" else 64)
        op = r.choice("+-*+-*/%")
        a, ba = self._int(d - 1)
        if op in "/%":
            y = r.random()
            if y < 0.75:
                n = r.choice([1, 2, 3, 4, 5, 7, 10, 16, 100, -1, -2, -3, -5,
                              INT_MAX, INT_MIN, 65536])
                if self.k["big"] == 0 and abs(n) > 200:
                    n = 3
                if n == -1:
                    n = -2
                b, bb = ("i", n), abs(n)
                if ba is not None and n == INT_MIN:
                    bb = abs(n)
                return ("bin", op, a, b), (ba if ba is not None else None)
            b, bb = self._int(d - 1)
            if bb is not None:
                b, bb = ("i", r.choice([2, 3, -3, 9])), 9
                return ("bin", op, a, b), (ba if ba is not None else None)
            return ("bin", op, a, b), None
        b, bb = self._int(d - 1)
        if ba is not None and bb is not None:
            bound = ba * bb if op == "*" else ba + bb
            if bound > INT_MAX:
                ps = [p for p in self.places("int") if not self.isconst(p)]
                if ps:
                    return ("bin", op, a, r.choice(ps)), None
                return a, ba
            return ("bin", op, a, b), bound
        return ("bin", op, a, b), None

    def isconst(self, e):
        k = e[0]
        if k in ("i", "b"):
            return True
        if k == "v":
            for v in self.visible():
                if v.name == e[1]:
                    return v.kind == "ro"
            return False
        if k in ("un",):
            return self.isconst(e[2])
        if k == "bin":
            return self.isconst(e[2]) and self.isconst(e[3])
        if k == "cmp":
            # (one constant pair may decide the whole chain)
            c = [self.isconst(x) for x in e[1]]
            return any(a and b for a, b in zip(c, c[1:]))
        if k in ("and", "or"):
            # a constant operand may decide, so treat as constant
            return any(map(self.isconst, e[1]))
        if k == "int":
            return self.isconst(e[1])
        if k == "call":
            return any(f.name == e[1] and f.rport == "const"
                       for f in self.funcs)
        return False

    def bool_(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < 0.18:
            ps = self.places("bool")
            if ps and self.chance(0.85):
                return r.choice(ps)
            if self.chance(0.3):
                return ("b", self.chance(0.5))
            return self.cmp_(0)
        if x < 0.45:
            return self.cmp_(d - 1)
        if x < 0.57:
            return ("un", "not", self.bool_(d - 1))
        if x < 0.75:
            return ("and", [self.bool_(d - 1)
                            for _ in range(r.choice([2, 2, 3, 4]))])
        if x < 0.91:
            return ("or", [self.bool_(d - 1)
                           for _ in range(r.choice([2, 2, 3, 4]))])
        if x < 0.97:
            return ("cmp", [self.bool_(d - 1), self.bool_(d - 1)],
                    [r.choice(["==", "!="])])
        c = self.call_expr("bool", d) if self.k["calls"] else None
        return c or self.cmp_(d - 1)

    def cmp_(self, d):
        r = self.r
        n = r.choice([2, 2, 2, 3, 4])
        es = [self.int_(d) for _ in range(n)]
        if self.chance(0.3):
            # compare one place against several constants
            ps = self.places("int")
            if ps:
                p = r.choice(ps)
                es = [("i", self.lit()), p, ("i", self.lit())][:max(2, n)]
                if self.chance(0.4):
                    es.reverse()
        ops = [r.choice(["==", "!=", "<", ">", "<=", ">="])
               for _ in es[1:]]
        return ("cmp", es, ops)

    def struct_(self, st, d):
        ps = self.places(st)
        x = self.r.random()
        if ps and x < 0.5:
            return self.r.choice(ps)
        if x < 0.65 and d > 0 and self.k["calls"]:
            c = self.call_expr(st, d)
            if c is not None:
                return c
        return self.new_(st, d)

    def new_(self, st, d, partial=False):
        fs = list(self.structs[st][1])
        self.r.shuffle(fs)
        if partial and len(fs) > 1:
            fs = fs[:self.r.randint(1, len(fs))]
        return ("new", st, [(f, self.simple(t, d - 1)) for f, t in fs])

    def simple(self, t, d):
        return self.value(t, d)

    def value(self, t, d):
        if t == "int":
            return self.int_(d)
        if t == "bool":
            return self.bool_(d)
        return self.struct_(t, d)

    last_port = ""

    def call_expr(self, rtype, d, effect=False):
        fs = [f for f in self.funcs if f.rtype == rtype
              and f.effect == effect]
        if not fs:
            return None
        f = self.r.choice(fs)
        self.last_port = f.rport
        return self.call_of(f, d)

    def call_of(self, f, d):
        vals = []
        used_refs = set()
        for n, ty, port, dflt in f.params:
            if dflt is not None and self.chance(0.4):
                vals.append(None)
                continue
            if port == "const":
                if ty == "bool":
                    vals.append(("b", self.chance(0.5)))
                else:
                    ro = [("v", v.name) for v in self.visible("int")
                          if v.kind == "ro"]
                    vals.append(self.r.choice(ro) if ro and self.chance(0.4)
                                else ("i", self.r.randint(-9, 20)))
            elif port == "&":
                ps = self.refplaces(ty)
                if not ps:
                    return None
                vals.append(self.r.choice(ps))
            else:
                vals.append(self.value(ty, max(0, d - 2)))
        args, kws = [], []
        npos = len(vals)
        for i, v in enumerate(vals):
            if v is None:
                npos = i
                break
        npos = self.r.randint(0, npos)
        for i, v in enumerate(vals):
            if i < npos:
                args.append(v)
            elif v is not None:
                kws.append((f.params[i][0], v))
        self.r.shuffle(kws)
        return ("call", f.name, args, kws)

    def refplaces(self, t):
        """places a reference may be bound to"""
        return self.places(t, writable=True)

    # statements -------------------------------------------------------------
    def snap(self):
        self.snap_n += 1
        return ("snap", self.snap_n)

    def observe(self, out, e=None):
        h = "o%d" % self.r.randint(1, 4)
        if e is None:
            e = self.int_(self.k["depth"]) if self.chance(0.7) else \
                ("int", self.bool_(self.k["depth"]))
        out.append(("assign", ("scb", h), e))
        if h not in self.scb_init and self.cond_depth == 0 and \
                not self.in_func and self.k["scb"]:
            self.scb_init.append(h)
        out.append(self.snap())

    def dump(self, out):
        n = 0
        for v in self.visible():
            if v.kind == "ro" and self.chance(0.5):
                continue
            n = self._dump(("v", v.name), v.type, out, n)
        if n:
            out.append(self.snap())

    def _dump(self, e, t, out, n):
        if t in self.structs:
            for f, ft in self.structs[t][1]:
                n = self._dump(("f", e, f), ft, out, n)
            return n
        out.append(("assign", ("scb", "d%d" % n),
                    ("int", e) if t == "bool" else e))
        return n + 1

    def types(self):
        t = ["int", "int", "int"]
        if self.k["bools"]:
            t += ["bool", "bool"]
        t += list(self.structs)
        return t

    def vardef(self, out):
        t = self.r.choice(self.types())
        n = self.name()
        e = self.value(t, self.k["depth"])
        if self.pure or not self.chance(0.25):
            pass
        else:
            c = self.call_expr(t, 2, effect=True) if self.k["calls"] else None
            if c is not None:
                e = c
        if t in self.structs and e[0] == "new":
            # all fields, since an unset field has no value
            e = self.new_(t, self.k["depth"])
        if self.chance(0.5):
            out.append(("vardef", n, t, e))
        else:
            out.append(("auto", n, e))
        self.add(n, t)

    def assign(self, out):
        r = self.r
        t = r.choice(self.types())
        ps = self.places(t, writable=True)
        if not ps:
            return self.vardef(out) if self.cond_depth == 0 else \
                out.append(("pass",))
        p = r.choice(ps)
        if t == "int" and self.chance(0.4):
            op = r.choice("+-*+-/%")
            e = self.int_(self.k["depth"] - 1)
            if op in "/%" and (self.isconst(e) or self.chance(0.6)):
                e = ("i", r.choice([2, 3, 5, 7, -2, -3, 10, 1000]))
            out.append(("aug", op, p, e))
            return
        if t in self.structs and self.chance(0.5):
            out.append(("assign", p, self.new_(t, self.k["depth"], True)))
            return
        c = None
        if not self.pure and self.chance(0.2) and self.k["calls"]:
            c = self.call_expr(t, 2, effect=True)
        out.append(("assign", p, c or self.value(t, self.k["depth"])))

    def block(self, depth, n=None):
        out = []
        self.cond_depth += 1
        for _ in range(n if n is not None else self.r.randint(0, 3)):
            self.statement(out, depth)
        if not self.pure and self.chance(0.5):
            self.observe(out)
        self.cond_depth -= 1
        return out

    def cond(self):
        if not self.pure and self.k["calls"] and self.chance(0.15):
            c = self.call_expr("bool", 1, effect=True)
            if c is not None:
                return c
            c = self.call_expr("int", 1, effect=True)
            if c is not None:
                return ("cmp", [c, ("i", self.lit())],
                        [self.r.choice(["<", ">", "==", "!="])])
        return self.bool_(self.k["depth"] - 1)

    def if_(self, out, depth):
        mark = [len(s) for s in self.scopes]
        br = []
        for _ in range(self.r.choice([1, 1, 2, 3])):
            c = self.cond()
            br.append((c, self.block(depth - 1)))
            self._cut(mark)
        els = None
        if self.chance(0.6):
            els = self.block(depth - 1)
            self._cut(mark)
        out.append(("if", br, els))

    def _cut(self, mark):
        # names defined in a conditional block stay unused afterwards
        for s, m in zip(self.scopes, mark):
            del s[m:]

    def while_(self, out, depth):
        mark = [len(s) for s in self.scopes]
        w = self.name("w")
        n = self.r.randint(0, 4)
        out.append(("vardef", w, "int", ("i", 0)))
        self.add(w, "int", "ctr")
        mark2 = [len(s) for s in self.scopes]
        guard = self.r.choice([
            ("cmp", [("v", w), ("i", n)], ["<"]),
            ("cmp", [("i", n), ("v", w)], [">"]),
            ("un", "not", ("cmp", [("v", w), ("i", n)], [">="])),
            ("cmp", [("i", -1), ("v", w), ("i", n)], ["<", "<"]),
        ])
        x = self.r.random()
        if x < 0.5:
            c = guard
        elif x < 0.85:
            ops = [guard, self.bool_(2)]
            self.r.shuffle(ops)
            c = ("and", ops)
        else:
            c = ("un", "not", ("or", [("un", "not", guard),
                                      self.bool_(1)]))
        body = self.block(depth - 1)
        self._cut(mark2)
        step = ("aug", "+", ("v", w), ("i", 1))
        body.insert(self.r.randint(0, len(body)), step)
        out.append(("while", c, body))

    def for_(self, out, depth):
        i = self.name("i")
        x = self.r.random()
        if x < 0.5:
            it = ("list", [("i", self.r.randint(-20, 20))
                           for _ in range(self.r.randint(0, 3))])
        else:
            a = self.r.randint(-3, 5)
            it = ("range", [("i", a), ("i", a + self.r.randint(0, 3))])
        self.scopes.append([])
        self.add(i, "int", "ro")
        body = self.block(depth - 1)
        self.scopes.pop()
        out.append(("for", i, it, body))

    def const_(self, out):
        ds = []
        for _ in range(self.r.choice([1, 1, 2])):
            n = self.name("c")
            ds.append((n, self.r.choice([None, "int"]),
                       ("i", self.r.randint(-60, 60))))
        out.append(("const", ds))
        for n, _, _ in ds:
            self.add(n, "int", "ro")

    def ref_(self, out):
        t = self.r.choice(self.types())
        ps = self.refplaces(t)
        # (a reference to a loop counter or constant is not writable)
        if not ps:
            return
        n = self.name("r")
        out.append(("ref", n, self.r.choice([None, t]), self.r.choice(ps)))
        self.add(n, t)

    def effect_call(self, out):
        fs = [f for f in self.funcs if f.effect or self.chance(0.3)]
        if not fs:
            return
        c = self.call_of(self.r.choice(fs), 2)
        if c is not None:
            out.append(("expr", c))

    def statement(self, out, depth):
        k = self.k
        r = self.r
        opts = [("vardef", 1.2), ("assign", 3.0)]
        if depth > 0:
            opts += [("if", k["ifs"]), ("while", k["loops"] * 0.6),
                     ("for", k["fors"])]
        opts += [("const", k["consts"]), ("ref", k["refs"])]
        if not self.pure:
            opts += [("observe", k["observe"] * 2), ("raw", k["raws"]),
                     ("dump", k["dump"] * 2),
                     ("ecall", k["calls"] * 0.6)]
        opts += [("swap", k["swaps"])]
        tot = sum(w for _, w in opts)
        x = r.random() * tot
        for what, w in opts:
            x -= w
            if x < 0:
                break
        if what == "vardef":
            self.vardef(out)
        elif what == "assign":
            self.assign(out)
        elif what == "if":
            self.if_(out, depth)
        elif what == "while":
            self.while_(out, depth)
        elif what == "for":
            self.for_(out, depth)
        elif what == "const":
            self.const_(out)
        elif what == "ref":
            self.ref_(out)
        elif what == "observe":
            self.observe(out)
        elif what == "dump":
            self.dump(out)
        elif what == "raw":
            if self.scb_init:
                out.append(("rawset", r.choice(self.scb_init), self.lit()))
        elif what == "ecall":
            self.effect_call(out)
        elif what == "swap":
            t = r.choice(self.types())
            ps = self.places(t, writable=True)
            if len(ps) >= 2:
                a, b = r.sample(ps, 2)
                if not overlap(a, b):
                    out.append(("swap", a, b))

    # functions ---------------------------------------------------------------
    def func(self, out, kind):
        r = self.r
        f = FuncInfo()
        f.name = self.name("f")
        f.kind = kind
        f.effect = self.chance(self.k["effect_funcs"])
        f.rtype = r.choice(self.types() + ["int", "int"])
        if f.effect and self.chance(0.3):
            f.rtype = None
        f.rport = ""
        f.params = []
        # the body sees globals only
        saved = self.scopes
        self.scopes = [self.scopes[0], []]
        old = (self.pure, self.pure_base, self.cond_depth, self.in_func)
        self.pure = not f.effect
        self.pure_base = 1
        self.cond_depth = 0
        self.in_func += 1
        dflt = False
        for i in range(r.choice([0, 1, 2, 2, 3])):
            n = self.name("p")
            ty = r.choice(self.types())
            port = ""
            if kind == "inline":
                x = r.random()
                if x < 0.3:
                    port = "&"
                elif x < 0.5:
                    port = "const"
                    ty = r.choice(["int", "bool"])
            d = None
            if port != "&" and ty in ("int", "bool") and \
                    (dflt or self.chance(0.3)):
                d = ("i", r.randint(-20, 20)) if ty == "int" else \
                    ("b", self.chance(0.5))
                dflt = True
            elif dflt:
                port = "&" if False else port
                if d is None:
                    break
            # (inline functions may leave the type to the default value)
            f.params.append((n, ty, port, d))
        body = []
        for n, ty, port, d in f.params:
            if port == "const":
                self.add(n, ty, "ro")
            elif port == "&":
                # writing through a reference is an effect
                self.add(n, ty, "var" if f.effect else "ctr")
            else:
                self.add(n, ty)
        for _ in range(r.randint(0, 3)):
            self.statement(body, 1)
        if f.rtype is not None:
            refs = [p for p in f.params if p[2] == "&" and p[1] == f.rtype]
            cps = [p for p in f.params if p[2] == "const"
                   and p[1] == f.rtype]
            x = r.random()
            if kind == "inline" and refs and x < 0.5:
                f.rport = "&"
                body.append(("result", ("v", refs[0][0])))
            elif kind == "inline" and cps and x < 0.7:
                f.rport = "const"
                body.append(("result", ("v", cps[0][0])))
            else:
                if f.rtype in self.structs:
                    e = self.struct_(f.rtype, 2)
                    if e[0] == "new":
                        e = self.new_(f.rtype, 2)
                    body.append(("result", e))
                else:
                    body.append(("result", self.value(f.rtype, 3)))
                if self.chance(0.3):
                    # a later result replaces the earlier one
                    e = self.value(f.rtype, 1)
                    if e[0] == "new":
                        e = self.new_(f.rtype, 1)
                    body.append(("if", [(self.bool_(1), [("result", e)])],
                                 None))
        if f.effect and self.chance(0.7):
            self.observe(body)
        self.scopes = saved
        self.pure, self.pure_base, self.cond_depth, self.in_func = old
        rt = None if f.rtype is None else (f.rport, f.rtype)
        out.append(("def", kind, f.name, f.params, rt, body))
        self.funcs.append(f)

    def struct(self, out):
        n = self.name("S")
        bases = []
        have = set()
        allf = []
        for b in list(self.structs):
            if self.chance(0.35):
                names = {f for f, _ in self.structs[b][1]}
                if not names & have:
                    bases.append(b)
                    have |= names
                    allf += self.structs[b][1]
        own = []
        for _ in range(self.r.randint(0 if bases else 1, 3)):
            f = self.name("q")
            own.append((f, self.r.choice(
                ["int", "int", "bool"] + list(self.structs))))
        out.append(("struct", n, bases, own))
        self.structs[n] = (bases, own + allf)

    def iface(self, out):
        p = "%s/%s" % (self.r.choice(["a", "b/c", "x_y"]), self.name("n"))
        saved = self.scopes
        self.scopes = [self.scopes[0], []]
        old = self.cond_depth, self.in_func
        self.cond_depth = 0
        self.in_func += 1
        body = []
        for _ in range(self.r.randint(1, 4)):
            self.statement(body, 1)
        self.observe(body)
        self.scopes = saved
        self.cond_depth, self.in_func = old
        out.append(("iface", p, body))
        self.iface_paths.append(p)

    def program(self):
        out = []
        k = self.k
        for _ in range(k["structs"]):
            self.struct(out)
        for _ in range(3):
            self.vardef(out)
        todo = ["def"] * k["funcs"] + ["inline"] * k["inlines"] + \
            ["iface"] * k["ifaces"] + ["stmt"] * k["n_top"]
        self.r.shuffle(todo)
        # definitions come early enough to be used
        todo.sort(key=lambda t: self.r.random() *
                  (1.0 if t == "stmt" else 0.5))
        for t in todo:
            if t == "stmt":
                self.statement(out, k["block"])
            elif t == "iface":
                self.iface(out)
            else:
                self.func(out, t)
        self.observe(out)
        self.dump(out)
        return out


def overlap(a, b):
    """does one place contain the other (or may they be the same)?"""
    def path(e):
        p = []
        while e[0] == "f":
            p.append(e[2])
            e = e[1]
        return [e] + p[::-1]
    pa, pb = path(a), path(b)
    n = min(len(pa), len(pb))
    return pa[:n] == pb[:n]


# --- harness ---------------------------------------------------------------

def make(rng, tries=40, step_limit=4000, plan=None, **knobs):
    """a random program inside the defined domain:
    (ast, interface schedule, reference trace, stats)"""
    for _ in range(tries):
        g = Gen(rng, **knobs)
        prog = g.program()
        sched = []
        if g.iface_paths:
            sched = [rng.choice(g.iface_paths)
                     for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.3:
                sched.insert(rng.randint(0, len(sched)), None)  # main again
        try:
            ref = Ref(step_limit)
            ref.run_main(prog)
            for p in sched:
                if p is None:
                    ref.run_main(prog)
                else:
                    ref.run_iface(p)
        except UB:
            continue
        return prog, sched, ref
    return None


def run_pack(files, sched, main="main", root="", budget=400000, **kw):
    """execute main and the interface schedule on the VM; returns
    (trace, vm)"""
    v = vmmod.VM(files, budget=budget, user_objectives=("obs",), **kw)
    trace = []

    def on_raw(vm, ctx, line):
        if line.startswith("snap "):
            trace.append((int(line[5:]), tuple(sorted(
                (h, val) for (h, o), val in vm.scores.items()
                if o == "obs"))))
            return True
        return False
    v.on_raw = on_raw
    pre = root + "/" if root else ""
    v.run_function(pre + main)
    for p in sched:
        v.run_function(pre + (main if p is None else p))
    return trace, v


def diff(ref, got):
    for i, (a, b) in enumerate(zip(ref, got)):
        if a != b:
            if a[0] != b[0]:
                return "event %d: expected snap %d, saw snap %d" \
                    % (i, a[0], b[0])
            da, db = dict(a[1]), dict(b[1])
            bad = [(h, da.get(h), db.get(h))
                   for h in sorted(set(da) | set(db))
                   if da.get(h) != db.get(h)]
            return "event %d (snap %d): %s" % (i, a[0], "; ".join(
                "%s should be %s but is %s" % t for t in bad[:4]))
    if len(ref) != len(got):
        return "expected %d events, saw %d" % (len(ref), len(got))
    return None


FAULT_KINDS = ("syntax", "literal-range", "missing-func", "undeclared-obj",
               "unset-read")


def check(mon, prog, sched, ref, cfg=None, key="", faults=("syntax",
          "literal-range", "missing-func", "undeclared-obj"), srcs=None,
          style=None, tolerate=None):
    """compile + run + compare with the reference; returns the VM or None"""
    cfg = cfg or {}
    src = srcs or text(prog, style)
    r = kit.compile_src(src, **cfg)
    if not r.ok:
        if tolerate and r.kind == "error" and any(
                t in r.message for t in tolerate):
            mon.count("discarded")
            return None
        mon.violation("%srefused" % key if r.kind == "error"
                      else "%scrash" % key,
                      "legal program %s: %s" % (
                          "refused" if r.kind == "error" else
                          "crashes the compiler", r.message),
                      source=src, config=cfg, traceback=r.tb or "")
        return None
    try:
        root = cfg.get("root_folder") or ""
        got, v = run_pack(r.functions(), sched, root=root,
                          main=cfg.get("main_file") or "main")
    except vmmod.BudgetExceeded:
        mon.violation(key + "endless", "generated commands do not stop",
                      source=src, config=cfg)
        return None
    d = diff(ref.trace, got)
    if d:
        mon.violation(key + "diff", d, source=src, config=cfg,
                      schedule=sched)
        return None
    bad = [f for f in v.faults if f[0] in faults]
    if bad:
        mon.violation(key + "fault", "%s: %s" % bad[0], source=src,
                      config=cfg)
        return None
    return v
