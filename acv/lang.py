"""The scalar/struct part of Acacia: AST, printer and reference interpreter.

Expressions
  ('i', n) ('b', bool) ('v', name) ('f', expr, field) ('scb', holder)
  ('un', op, e)   op: + - not
  ('bin', op, a, b)   ('cmp', [operands], [ops])   ('and', [..]) ('or', [..])
  ('int', e)      ('call', name, [args], [(kw, arg)])
  ('new', structname, [(field, expr)])
  ('idx', e, e)   constant list indexing   ('list', [..])   ('range', [..])
Statements
  ('vardef', name, type, expr|None)  ('auto', name, expr)
  ('assign', target, expr)  ('aug', op, target, expr)
  ('if', [(cond, body), ...], else|None)  ('while', cond, body)
  ('for', name, iterable, body)
  ('const', [(name, type|None, expr)])  ('ref', name, type|None, expr)
  ('def', kind, name, params, (port, type)|None, body)
        params: [(name, type|None, port, default|None)]
  ('result', e)  ('expr', e)  ('snap', n)  ('rawset', holder, n)
  ('iface', path, body)  ('struct', name, [bases], [(field, type)])
  ('swap', a, b)  ('pass',)
"""

INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1


def wrap(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def cmod(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


# --- printing -----------------------------------------------------------

class Style:
    """Decides redundant layout.  The base style is canonical."""
    rng = None
    extra_paren = 0.0
    indent = "    "

    def int_lit(self, n):
        return str(n)


PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "+": 5, "-": 5,
        "*": 6, "/": 6, "%": 6, "un": 7}


def prec(e):
    k = e[0]
    if k in ("or", "and", "cmp"):
        return PREC[k]
    if k == "un":
        return 3 if e[1] == "not" else 7
    if k == "bin":
        return PREC[e[1]]
    if k == "i" and e[1] < 0 and e[1] != INT_MIN:
        return 7
    return 8


def toks(e, style, need=0):
    """token list of an expression, parenthesised if its precedence is
    lower than `need`"""
    t = _toks(e, style)
    paren = prec(e) < need
    if paren or (style.rng is not None and style.extra_paren
                 and style.rng.random() < style.extra_paren):
        t = ["("] + t + [")"]
        if style.rng is not None and style.extra_paren and \
                style.rng.random() < style.extra_paren * 0.3:
            t = ["("] + t + [")"]
    return t


def comma(lists, style, trailing_ok=True):
    out = []
    for i, t in enumerate(lists):
        if i:
            out.append(",")
        out.extend(t)
    if lists and trailing_ok and style.rng is not None and \
            style.extra_paren and style.rng.random() < 0.1:
        out.append(",")
    return out


def _toks(e, style):
    k = e[0]
    if k == "i":
        n = e[1]
        if n == INT_MIN:
            return ["int", ".", "MIN"]
        if n < 0:
            return ["-", style.int_lit(-n)]
        return [style.int_lit(n)]
    if k == "b":
        return ["True" if e[1] else "False"]
    if k == "v":
        return [e[1]]
    if k == "raw":
        return list(e[1])
    if k == "xe":       # extension: (tokens and sub-expressions, meaning)
        return xtoks(e[1], style)
    if k == "f":
        return toks(e[1], style, 8) + [".", e[2]]
    if k == "scb":
        return ["scb", "(", '"%s"' % e[1], ",", '"obs"', ")"]
    if k == "un":
        if e[1] == "not":
            return ["not"] + toks(e[2], style, 3)
        return [e[1]] + toks(e[2], style, 7)
    if k == "bin":
        p = PREC[e[1]]
        return toks(e[2], style, p) + [e[1]] + toks(e[3], style, p + 1)
    if k == "cmp":
        out = toks(e[1][0], style, 5)
        for o, x in zip(e[2], e[1][1:]):
            out += [o] + toks(x, style, 5)
        return out
    if k in ("and", "or"):
        p = PREC[k]
        out = []
        for i, x in enumerate(e[1]):
            if i:
                out.append(k)
            out += toks(x, style, p + 1)
        return out
    if k == "int":
        return ["int", "("] + toks(e[1], style) + [")"]
    if k == "call":
        args = [toks(a, style) for a in e[2]]
        args += [[n, "="] + toks(a, style) for n, a in e[3]]
        return e[1].split("\0") + ["("] + comma(args, style) + [")"]
    if k == "new":
        return [e[1], "("] + comma([[n, "="] + toks(a, style)
                                    for n, a in e[2]], style) + [")"]
    if k == "idx":
        return toks(e[1], style, 8) + ["["] + toks(e[2], style) + ["]"]
    if k == "list":
        return ["{"] + comma([toks(x, style) for x in e[1]], style) + ["}"]
    if k == "range":
        return ["list", ".", "range", "("] + \
            comma([toks(x, style) for x in e[1]], style) + [")"]
    if k in EXPR_PRINT:
        return EXPR_PRINT[k](e, style)
    raise AssertionError(e)


EXPR_PRINT = {}     # extension nodes: kind -> f(e, style)
STMT_PRINT = {}     # kind -> f(s, style, depth, out)


def xtoks(ts, style):
    out = []
    for t in ts:
        if isinstance(t, tuple):
            out += toks(t, style)
        else:
            out.append(t)
    return out


def lines(body, style, depth=0, out=None):
    """statement list -> [(depth, tokens)]"""
    if out is None:
        out = []
    if not body:
        out.append((depth, ["pass"]))
    for s in body:
        _stmt(s, style, depth, out)
    return out


def _stmt(s, style, d, out):
    k = s[0]

    def T(e, need=0):
        return toks(e, style, need)
    if k == "vardef":
        t = [s[1], ":", s[2]]
        if s[3] is not None:
            t += ["="] + T(s[3])
        out.append((d, t))
    elif k == "auto":
        out.append((d, [s[1], ":="] + T(s[2])))
    elif k == "assign":
        out.append((d, _toks(s[1], style) + ["="] + T(s[2])))
    elif k == "aug":
        out.append((d, _toks(s[2], style) + [s[1] + "="] + T(s[3])))
    elif k == "if":
        for i, (c, b) in enumerate(s[1]):
            out.append((d, ["elif" if i else "if"] + T(c) + [":"]))
            lines(b, style, d + 1, out)
        if s[2] is not None:
            out.append((d, ["else", ":"]))
            lines(s[2], style, d + 1, out)
    elif k == "while":
        out.append((d, ["while"] + T(s[1]) + [":"]))
        lines(s[2], style, d + 1, out)
    elif k == "for":
        out.append((d, ["for", s[1], "in"] + T(s[2]) + [":"]))
        lines(s[3], style, d + 1, out)
    elif k == "const":
        ds = []
        for n, ty, e in s[1]:
            ds.append([n] + ([":", ty] if ty else []) + ["="] + T(e))
        t = comma(ds, style, trailing_ok=False)
        if len(ds) > 1 or (style.rng is not None and style.extra_paren
                           and style.rng.random() < style.extra_paren):
            t = ["("] + t + [")"]
        out.append((d, ["const"] + t))
    elif k == "ref":
        out.append((d, ["&", s[1]] + ([":", s[2]] if s[2] else [])
                    + ["="] + T(s[3])))
    elif k == "def":
        _, kind, name, params, rt, body = s
        t = def_tokens(kind, name, params, rt, style)
        out.append((d, t + [":"]))
        lines(body, style, d + 1, out)
    elif k == "result":
        out.append((d, ["result"] + T(s[1])))
    elif k == "expr":
        out.append((d, T(s[1])))
    elif k == "snap":
        out.append((d, ["/snap %d" % s[1]]))
    elif k == "rawset":
        out.append((d, ["/scoreboard players set %s obs %d" % (s[1], s[2])]))
    elif k == "rawline":
        out.append((d, list(s[1])))
    elif k == "xs":     # extension: (tokens, meaning[, sub-block])
        out.append((d, xtoks(s[1], style)))
        if len(s) > 3:
            lines(s[3], style, d + 1, out)
    elif k == "iface":
        out.append((d, ["interface", s[1], ":"]))
        lines(s[2], style, d + 1, out)
    elif k == "struct":
        t = ["struct", s[1]]
        if s[2]:
            t += ["extends"] + comma([[b] for b in s[2]], style, False)
        out.append((d, t + [":"]))
        if not s[3]:
            out.append((d + 1, ["pass"]))
        for n, ty in s[3]:
            out.append((d + 1, [n, ":", ty]))
    elif k == "swap":
        out.append((d, ["swap", "("] + T(s[1]) + [","] + T(s[2]) + [")"]))
    elif k == "pass":
        out.append((d, ["pass"]))
    elif k in STMT_PRINT:
        STMT_PRINT[k](s, style, d, out)
    else:
        raise AssertionError(s)


def def_tokens(kind, name, params, rt, style):
    """head of a function or method definition, without the colon"""
    t = {"def": [], "inline": ["inline"], "const": ["const"]}[kind]
    t = t + (["def", name] if name else []) + ["("]
    ps = []
    for n, ty, port, dflt in params:
        p = ([port] if port else []) + [n]
        if ty:
            p += [":", ty]
        if dflt is not None:
            p += ["="] + toks(dflt, style)
        ps.append(p)
    t += comma(ps, style) + [")"]
    if rt:
        t += ["->"] + ([rt[0]] if rt[0] else []) + [rt[1]]
    return t


NOSPACE_BEFORE = {")", "]", "}", ",", ":", ".", "("}
NOSPACE_AFTER = {"(", "[", "{", ".", "&"}
WORDS = {"and", "or", "not", "in", "if", "elif", "while", "for", "result",
         "const", "extends", "=", "->", "+", "-", "*", "/", "%", ":", ",",
         "<", ">", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=",
         ":="}


def join(ts):
    """canonical text of a token list"""
    out = []
    for i, t in enumerate(ts):
        if i:
            p = ts[i - 1]
            sp = True
            if t in NOSPACE_BEFORE and not (t == "(" and p in WORDS):
                sp = False
            if p in NOSPACE_AFTER:
                sp = False
            if t == "[":
                sp = False
            if sp:
                out.append(" ")
        out.append(t)
    return "".join(out)


def text(body, style=None):
    style = style or Style()
    return "\n".join(style.indent * d + join(t)
                     for d, t in lines(body, style)) + "\n"


# --- reference interpreter -----------------------------------------------

class UB(Exception):
    """The program leaves the domain for which Acacia (or Minecraft)
    defines a result; it is not used as a test."""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class StructV(dict):
    """field -> Cell or StructV"""


class Scope:
    __slots__ = ("names", "up")

    def __init__(self, up=None):
        self.names = {}
        self.up = up

    def get(self, n):
        s = self
        while s is not None:
            if n in s.names:
                return s.names[n]
            s = s.up
        raise KeyError(n)


class Const:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Func:
    __slots__ = ("node", "scope")

    def __init__(self, node, scope):
        self.node, self.scope = node, scope


class Ref:
    """Executes a program the way its source reads."""

    def __init__(self, step_limit=6000):
        self.obs = {}
        self.trace = []
        self.glob = Scope()
        self.ifaces = {}
        self.steps = 0
        self.limit = step_limit
        self.structs = {}
        self.result = [None]
        self.ct = 0
        self.stats = {"loops": 0, "branches": 0, "calls": 0}

    # values -------------------------------------------------------------
    def copyval(self, v):
        if isinstance(v, StructV):
            return StructV((k, self.copyval(x) if isinstance(x, StructV)
                            else Cell(x.v)) for k, x in v.items())
        return v

    def new_loc(self, ty):
        if ty in self.structs:
            return StructV((f, self.new_loc(t))
                           for f, t in self.structs[ty])
        return Cell()

    def store(self, loc, v):
        if isinstance(loc, StructV):
            src = self.copyval(v)
            for k in loc:
                x = src[k]
                self.store(loc[k], x if isinstance(x, StructV) else x.v)
        else:
            loc.v = v

    def load(self, loc):
        if isinstance(loc, StructV):
            return self.copyval(loc)
        if isinstance(loc, Const):
            return loc.v
        if loc.v is None:
            raise UB("read of an uninitialised variable")
        return loc.v

    def loc_of(self, e, sc):
        k = e[0]
        if k == "v":
            return sc.get(e[1])
        if k == "f":
            return self.loc_of(e[1], sc)[e[2]]
        if k == "scb":
            return self.obs.setdefault(e[1], Cell())
        if k == "call":
            return self.call(e, sc, want_ref=True)
        raise AssertionError(e)

    # expressions: return (value, is_compile_time_constant) --------------
    def ev(self, e, sc):
        return self.evc(e, sc)[0]

    def evc(self, e, sc):
        k = e[0]
        if k == "i":
            return e[1], True
        if k == "b":
            return e[1], True
        if k == "v":
            loc = sc.get(e[1])
            return self.load(loc), isinstance(loc, Const)
        if k == "f":
            if e[1][0] in ("call", "new"):
                x = self.ev(e[1], sc)[e[2]]
                return (x if isinstance(x, StructV) else x.v), False
            return self.load(self.loc_of(e, sc)), False
        if k == "scb":
            return self.load(self.loc_of(e, sc)), False
        if k == "un":
            v, c = self.evc(e[2], sc)
            if e[1] == "-":
                if (c or self.ct) and v == INT_MIN:
                    raise UB("constant overflow")
                return wrap(-v), c
            if e[1] == "+":
                return v, c
            return (not v), c
        if k == "bin":
            a, ca = self.evc(e[2], sc)
            b, cb = self.evc(e[3], sc)
            return self.arith(e[1], a, b, (ca and cb) or self.ct), \
                ca and cb
        if k == "cmp":
            vals = [self.evc(x, sc) for x in e[1]]
            ok = True
            for o, (a, _), (b, _) in zip(e[2], vals, vals[1:]):
                ok = ok and {"==": a == b, "!=": a != b, "<": a < b,
                             ">": a > b, "<=": a <= b, ">=": a >= b}[o]
            return ok, all(c for _, c in vals)
        if k == "and":
            vals = [self.evc(x, sc) for x in e[1]]
            return all(v for v, _ in vals), all(c for _, c in vals)
        if k == "or":
            vals = [self.evc(x, sc) for x in e[1]]
            return any(v for v, _ in vals), all(c for _, c in vals)
        if k == "int":
            v, c = self.evc(e[1], sc)
            return int(v), c
        if k == "call":
            v = self.call(e, sc)
            if isinstance(v, Const):
                return v.v, True
            return v, False
        if k == "new":
            s = StructV()
            given = {n: self.ev(x, sc) for n, x in e[2]}
            for f, ty in self.structs[e[1]]:
                if f in given:
                    v = given[f]
                    s[f] = v if isinstance(v, StructV) else Cell(v)
                else:
                    s[f] = self.new_loc(ty)
            return s, False
        if k == "idx":
            l = self.ev(e[1], sc)
            i = self.ev(e[2], sc)
            if not -len(l) <= i < len(l):
                raise UB("index")
            return l[i], True
        if k == "list":
            return [self.ev(x, sc) for x in e[1]], True
        if k == "range":
            return list(range(*[self.ev(x, sc) for x in e[1]])), True
        if k == "xe":
            return e[2](self, sc)
        return self.ev_ext(e, sc)

    def ev_ext(self, e, sc):
        raise AssertionError(e)

    def stmt_ext(self, s, sc):
        raise AssertionError(s)

    def arith(self, op, a, b, const=False):
        if op in "/%" and b == 0:
            raise UB("division by zero")
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if a == INT_MIN and b == -1:
                raise UB("overflowing division")
            r = cdiv(a, b)
        else:
            if a == INT_MIN and b == -1:
                raise UB("overflowing division")
            r = cmod(a, b)
        if const and not INT_MIN <= r <= INT_MAX:
            raise UB("constant overflow")
        return wrap(r)

    # calls ----------------------------------------------------------------
    def call(self, e, sc, want_ref=False):
        self.stats["calls"] += 1
        return self.apply(sc.get(e[1]), e[2], e[3], sc, want_ref)

    def apply(self, f, args, kws, sc, want_ref=False, bind=None):
        _, kind, name, params, rt, body = f.node
        self.tick(2)
        inner = Scope(f.scope)
        given = {}
        for p, a in zip(params, args):
            given[p[0]] = a
        for n, a in kws:
            given[n] = a
        todo = []
        for n, ty, port, dflt in params:
            if n in given:
                a, asc = given[n], sc
            else:
                a, asc = dflt, f.scope
            if port == "&":
                todo.append((n, self.loc_of(a, asc)))
            elif port == "const" or kind == "const":
                v, c = self.evc(a, asc)
                todo.append((n, Const(v)))
            else:
                v = self.ev(a, asc)
                if isinstance(v, StructV):
                    loc = self.new_loc(ty) if ty else self.copyval(v)
                    if ty:
                        self.store(loc, v)
                    todo.append((n, loc))
                else:
                    todo.append((n, Cell(v)))
        inner.names.update(bind or {})
        for n, loc in todo:
            inner.names[n] = loc
        self.result.append(None)
        old, self._rsc = getattr(self, "_rsc", None), (kind, rt)
        self.ct += kind == "const"
        self.run(body, inner)
        self.ct -= kind == "const"
        self._rsc = old
        r = self.result.pop()
        if r is None:
            if rt is not None:
                raise UB("no result")
            return None
        if kind != "const" and rt and rt[0] == "&":
            return r if want_ref else self.load(r)
        return r

    # statements -----------------------------------------------------------
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.limit:
            raise UB("too long")

    def run(self, body, sc):
        for s in body:
            self.stmt(s, sc)

    def stmt(self, s, sc):
        self.tick()
        k = s[0]
        if k == "vardef":
            v = None if s[3] is None else self.ev(s[3], sc)
            loc = self.new_loc(s[2])
            sc.names[s[1]] = loc
            if v is not None:
                self.store(loc, v)
        elif k == "auto":
            v = self.ev(s[2], sc)
            sc.names[s[1]] = v if isinstance(v, StructV) else Cell(v)
        elif k == "assign":
            if s[2][0] == "new":
                # fields that are not given keep their values
                given = {n: self.ev(x, sc) for n, x in s[2][2]}
                loc = self.loc_of(s[1], sc)
                for n, v in given.items():
                    if n in loc:
                        self.store(loc[n], v)
            else:
                v = self.ev(s[2], sc)
                self.store(self.loc_of(s[1], sc), v)
        elif k == "aug":
            b = self.ev(s[3], sc)
            loc = self.loc_of(s[2], sc)
            loc.v = self.arith(s[1], self.load(loc), b, self.ct)
        elif k == "if":
            for c, b in s[1]:
                self.stats["branches"] += 1
                if self.ev(c, sc):
                    self.run(b, sc)
                    break
            else:
                if s[2] is not None:
                    self.run(s[2], sc)
        elif k == "while":
            while self.ev(s[1], sc):
                self.tick()
                self.stats["loops"] += 1
                self.run(s[2], sc)
        elif k == "for":
            for v in self.ev(s[2], sc):
                inner = Scope(sc)
                inner.names[s[1]] = Const(v)
                self.run(s[3], inner)
        elif k == "const":
            for n, ty, e in s[1]:
                sc.names[n] = Const(self.ev(e, sc))
        elif k == "ref":
            sc.names[s[1]] = self.loc_of(s[3], sc)
        elif k == "def":
            sc.names[s[2]] = Func(s, sc)
        elif k == "result":
            kind, rt = self._rsc
            if rt and rt[0] == "&" and kind == "inline":
                self.result[-1] = self.loc_of(s[1], sc)
            elif kind == "const" or (rt and rt[0] == "const"):
                self.result[-1] = Const(self.ev(s[1], sc))
            else:
                self.result[-1] = self.copyval(self.ev(s[1], sc))
        elif k == "expr":
            self.ev(s[1], sc)
        elif k == "snap":
            self.trace.append((s[1], tuple(sorted(
                (h, c.v) for h, c in self.obs.items() if c.v is not None))))
        elif k == "rawset":
            self.obs.setdefault(s[1], Cell()).v = s[2]
        elif k == "iface":
            self.ifaces[s[1]] = (s[2], sc)
        elif k == "struct":
            fields = list(s[3])
            for b in s[2]:
                fields += self.structs[b]
            self.structs[s[1]] = fields
        elif k == "swap":
            a, b = self.loc_of(s[1], sc), self.loc_of(s[2], sc)
            va, vb = self.load(a), self.load(b)
            self.store(a, vb)
            self.store(b, va)
        elif k in ("pass", "rawline"):
            pass
        elif k == "xs":
            s[2](self, sc)
        else:
            self.stmt_ext(s, sc)

    def run_main(self, body):
        self.glob = Scope()
        self.run(body, self.glob)

    def run_iface(self, path):
        body, sc = self.ifaces[path]
        self.run(body, Scope(sc))
