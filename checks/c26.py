"""C26: statements change only what they name; names follow scope.

Workload: random programs in which every live variable is dumped after almost
every statement; the same programs alpha-renamed so that locals of functions,
interfaces and loops shadow global names; a table of definitions of every kind
in every kind of scope, used inside and outside.  Monitors: the dumps
(compared with the reference interpreter, which resolves names lexically), and
the diagnostics for names that are out of scope."""
import random

from acv import gen, kit, prog, runner
from acv.lang import Ref, UB, text

PROPERTY = "C26"
RULE = ("one evaluation = one program compiled, executed and all its "
        "variables compared with the reference after each statement, or one "
        "scope/definition combination accepted or refused; distinct by "
        "source text and schedule")
ASSUME = ["locals are static (there is no call stack), so a function does "
          "not call itself",
          "a local whose definition was not executed yet has no value"]
LEVEL = "exploration"

NAMES = ("vardef", "auto", "ref")


# --- alpha renaming ---------------------------------------------------------

def rename_expr(e, m):
    if not isinstance(e, tuple) or not e:
        return e
    k = e[0]
    if k == "v":
        return ("v", m.get(e[1], e[1]))
    if k in ("i", "b", "scb"):
        return e
    if k == "f":
        return ("f", rename_expr(e[1], m), e[2])
    if k == "un":
        return (k, e[1], rename_expr(e[2], m))
    if k == "bin":
        return (k, e[1], rename_expr(e[2], m), rename_expr(e[3], m))
    if k == "cmp":
        return (k, [rename_expr(x, m) for x in e[1]], e[2])
    if k in ("and", "or", "list", "range"):
        return (k, [rename_expr(x, m) for x in e[1]])
    if k == "int":
        return (k, rename_expr(e[1], m))
    if k == "call":
        return (k, m.get(e[1], e[1]), [rename_expr(x, m) for x in e[2]],
                [(n, rename_expr(x, m)) for n, x in e[3]])
    if k == "new":
        return (k, e[1], [(n, rename_expr(x, m)) for n, x in e[2]])
    raise AssertionError(e)


def used(e, out):
    """names used in an AST fragment (over-approximation)"""
    if isinstance(e, tuple):
        if len(e) >= 2 and e[0] in ("v", "call") and isinstance(e[1], str):
            out.add(e[1])
        for x in e:
            used(x, out)
    elif isinstance(e, list):
        for x in e:
            used(x, out)
    return out


def defined(body, out):
    """names defined directly in the scope of `body` (if/while transparent)"""
    for s in body:
        k = s[0]
        if k in NAMES:
            out.append(s[1])
        elif k == "const":
            out += [d[0] for d in s[1]]
        elif k == "if":
            for _, b in s[1]:
                defined(b, out)
            if s[2] is not None:
                defined(s[2], out)
        elif k == "while":
            defined(s[2], out)
    return out


class Alpha:
    def __init__(self, r, globs):
        self.r, self.globs = r, globs
        self.n = 0

    def pick(self, locs, body, m, extra=()):
        """choose shadowing names for the locals of a scope"""
        u = {m.get(x, x) for x in used(body, set())} | \
            used(body, set()) | set(extra)
        m = dict(m)
        taken = set(u)
        for n in dict.fromkeys(locs):
            cand = [g for g in self.globs if g not in taken]
            if cand and self.r.random() < .7:
                g = self.r.choice(cand)
                taken.add(g)
                m[n] = g
                self.n += 1
            else:
                m.pop(n, None)
                taken.add(n)
        return m

    def body(self, b, m):
        out = []
        for s in b:
            out.append(self.stmt(s, m))
        return out

    def stmt(self, s, m):
        R = lambda e: rename_expr(e, m)
        k = s[0]
        if k == "vardef":
            return (k, m.get(s[1], s[1]), s[2],
                    None if s[3] is None else R(s[3]))
        if k == "auto":
            return (k, m.get(s[1], s[1]), R(s[2]))
        if k == "assign":
            return (k, R(s[1]), R(s[2]))
        if k == "aug":
            return (k, s[1], R(s[2]), R(s[3]))
        if k == "if":
            return (k, [(R(c), self.body(b, m)) for c, b in s[1]],
                    None if s[2] is None else self.body(s[2], m))
        if k == "while":
            return (k, R(s[1]), self.body(s[2], m))
        if k == "for":
            locs = [s[1]] + defined(s[3], [])
            m2 = self.pick(locs, [s[3]], m)
            return (k, m2.get(s[1], s[1]), R(s[2]), self.body(s[3], m2))
        if k == "const":
            return (k, [(m.get(n, n), t, R(e)) for n, t, e in s[1]])
        if k == "ref":
            return (k, m.get(s[1], s[1]), s[2], R(s[3]))
        if k == "def":
            # (parameter names are part of the call interface, so only the
            # other locals are renamed)
            ps = [p[0] for p in s[3]]
            locs = [n for n in defined(s[5], []) if n not in ps]
            m2 = self.pick(locs, [s[5], s[3]], m, extra=ps)
            return (k, s[1], s[2],
                    [(n, t, po, None if d is None else R(d))
                     for n, t, po, d in s[3]], s[4], self.body(s[5], m2))
        if k == "iface":
            m2 = self.pick(defined(s[2], []), [s[2]], m)
            return (k, s[1], self.body(s[2], m2))
        if k in ("result", "expr"):
            return (k, R(s[1]))
        if k == "swap":
            return (k, R(s[1]), R(s[2]))
        return s


def alpha(r, p):
    globs = defined(p, []) + [s[2] for s in p if s[0] == "def"]
    a = Alpha(r, globs)
    return a.body(p, {}), a.n


def case_rnd(case, mon, shadow):
    r = random.Random(case[1])
    knobs = dict(n_top=r.choice([6, 10, 16]), depth=2, dump=r.choice(
        [1.0, 2.5]), structs=r.choice([0, 1, 2]), funcs=r.choice([1, 3]),
        inlines=r.choice([1, 2]), ifaces=r.choice([0, 1, 2]), fors=1.0,
        refs=1.0, effect_funcs=.7, swaps=.6)
    m = gen.make(r, **knobs)
    if m is None:
        mon.count("discarded")
        return
    p, sched, ref = m
    if shadow:
        q, n = alpha(r, p)
        ref2 = Ref(6000)
        ref2.run_main(q)
        for s in sched:
            ref2.run_main(q) if s is None else ref2.run_iface(s)
        if ref2.trace != ref.trace:
            raise AssertionError("alpha renaming is not neutral:\n" + text(p)
                                 + "\n----\n" + text(q))
        p, ref = q, ref2
        mon.count("shadowing_names", n)
    v = gen.check(mon, p, sched, ref, key="shadow:" if shadow else "frame:")
    if v is None:
        return
    prog.observe(mon, p, sched, ref, v)
    mon.count("variables_dumped", sum(
        sum(h[0] == "d" for h, _ in t[1]) for t in ref.trace))
    mon.sample(text(p))
    mon.count("shadow_programs" if shadow else "frame_programs")


# --- scopes -----------------------------------------------------------------

DEFS = {   # name n: (definition, use as a statement)
    "var": (["n: int = 5"], "t = n"),
    "auto": (["n := 5"], "t = n"),
    "const": (["const n = 5"], "t = n"),
    "ref": (["&n = g"], "t = n"),
    "def": (["def n() -> int:", "    result 5"], "t = n()"),
    "inline": (["inline def n() -> int:", "    result 5"], "t = n()"),
    "constdef": (["const def n() -> int:", "    result 5"], "t = n()"),
    "struct": (["struct n:", "    q: int"], "t = n(q=5).q"),
    "import": (["import math as n"], "t = n.min(5, 6)"),
    "from": (["from math import min as n"], "t = n(5, 6)"),
    "for": (["for n in {5}:", "    pass"], None),
    "entity": (["entity n:", "    pass"], "k: n"),
    "gfor": (["entity GN:", "    new():", "        new(\"pig\", Pos(1, 2, 3))",
              "    inline def v() -> int:", "        result 5",
              "gx := GN()", "gn := Engroup[GN]()", "gn.add(gx)"], None),
}
# scopes: (lines around the body, closes, run after)
SCOPES = {
    "def": ("def scope():", "scope()"),
    "inline": ("inline def scope():", "scope()"),
    "param": ("def scope(n: int = 5):", "scope()"),
    "for": ("for it in {1}:", ""),
    "iface": ("interface sc:", ""),
    "if": ("if g == 5:", ""),
    "elif": ("if g == 4:\n    pass\nelif g == 5:", ""),
    "else": ("if g == 4:\n    pass\nelse:", ""),
    "while": ("while w != 6:\n    w = 6", ""),
    "method": ("entity Scope:\n    def m():", ""),
    "gfor": ("entity GT:\n    new():\n        new(\"pig\", Pos(1, 2, 3))\n"
             "gv := GT()\ngg := Engroup[GT]()\ngg.add(gv)\n"
             "for it in gg:", ""),
    "ctor": ("entity Scope:\n    new():\n"
             "        new(\"pig\", Pos(1, 2, 3))", "sv := Scope()"),
    "vmethod": ("entity Scope:\n    new():\n"
                "        new(\"pig\", Pos(1, 2, 3))\n"
                "    virtual def m():", "sv := Scope()\nsv.m()"),
    "smethod": ("entity Scope:\n    static def m():", "Scope.m()"),
    "imethod": ("entity Scope:\n    new():\n"
                "        new(\"pig\", Pos(1, 2, 3))\n"
                "    inline def m():", "sv := Scope()\nsv.m()"),
    "top": (None, ""),
}
DEEP = ("method", "ctor", "vmethod", "smethod", "imethod")
TRANSPARENT = {"if", "elif", "else", "while", "top"}


def case_scope(case, mon):
    _, sc, df, where, shadow = case
    lines, use = DEFS[df]
    head, run = SCOPES[sc]
    out = ["g := 5", "t := 0", "w := 1"]
    if shadow:
        out.append("n := 40")
    pad = "    "
    if sc in DEEP:
        pad = "        "
    if sc == "param":
        lines, use = [], "t = n"
    if use is None:
        use = "t = n"
    if df == "gfor":
        # the loop variable over a group, likewise
        inner = lines + ["for n in gn:", "    t = n.v()"]
        use = "t = n.v()"
        visible_after = False
    elif df == "for" and sc != "param":
        # the loop variable itself: only visible in the body
        inner = ["for n in {5}:", "    " + use]
        visible_after = False
    else:
        inner = lines + [use]
        visible_after = sc in TRANSPARENT
    if head is None:
        out += inner
    else:
        out += head.split("\n") + [pad + x for x in inner]
    if run:
        out += run.split("\n")
    key = "scope:%s/%s/%s/%d" % (sc, df, where, shadow)
    expect_ok = True
    if where == "outside":
        out.append("t = t" if sc == "iface" else "t = t")
        out.append("scb(\"i\", \"obs\") = t")
        if shadow:
            out.append("scb(\"o\", \"obs\") = n")
            expect_val = None if visible_after else 40
        else:
            out.append(use.replace("k:", "k2:"))
            out.append("scb(\"o\", \"obs\") = t")
            expect_ok = visible_after
            expect_val = 5 if use.startswith("t = ") else None
    else:
        out.append("scb(\"i\", \"obs\") = t")
        expect_val = None
    redefined = shadow and visible_after and df not in ("for", "gfor")
    src = "\n".join(out) + "\n"
    r = kit.compile_src(src)
    mon.evaluated()
    mon.nontrivial("scope", src)
    if r.kind == "crash":
        mon.violation(key, "crash: " + r.message, source=src, traceback=r.tb)
        return
    if redefined:
        # two definitions of one name in one scope
        if r.ok:
            mon.violation(key, "a second definition of n in the same scope "
                          "is accepted", source=src)
        elif r.etype() != "SHADOWED_NAME":
            mon.violation(key, "wrong diagnosis: " + r.message, source=src)
        else:
            mon.count("redefinitions_refused")
        return
    if not expect_ok:
        line = len(out) - 1
        if r.ok:
            mon.violation(key, "a name local to %s is visible outside" % sc,
                          source=src)
        elif r.etype() != "NAME_NOT_DEFINED" or \
                r.exc.location.linecol[0] != line:
            mon.violation(key, "wrong diagnosis: " + r.message, source=src)
        else:
            mon.count("hidden_names")
        return
    if not r.ok:
        mon.violation(key, "refused: " + r.message, source=src)
        return
    trace, v = gen.run_pack(r.functions(), ["sc"] if sc == "iface" else [])
    obs = {h: x for (h, o), x in v.scores.items() if o == "obs"}
    inside_runs = sc not in ("iface", "method") and use.startswith("t = ")
    if inside_runs and obs.get("i") != 5:
        mon.violation(key, "inside, the name gives %s instead of 5"
                      % obs.get("i"), source=src)
        return
    if where == "outside" and expect_val is not None and \
            sc not in ("iface", "method") and obs.get("o") != expect_val:
        mon.violation(key, "outside, the name gives %s instead of %s"
                      % (obs.get("o"), expect_val), source=src)
        return
    mon.count("scope_cases")


def cases(tier, seed):
    a, b = (500, 700) if tier == "quick" else (12000, 18000)
    out = [("rnd", s) for s in runner.spread(seed, "C26r", a)] + \
        [("shadow", s) for s in runner.spread(seed, "C26s", b)]
    for sc in SCOPES:
        for df in DEFS:
            if sc == "param" and df != "var":
                continue
            for where in ("inside", "outside"):
                for sh in (0, 1):
                    out.append(("scope", sc, df, where, sh))
    return out


def run_case(case, mon):
    if case[0] == "scope":
        case_scope(case, mon)
    else:
        case_rnd(case, mon, case[0] == "shadow")


MIN = {"redefinitions_refused": 80, "frame_programs": 350, "shadow_programs": 500, "shadowing_names": 800,
       "scope_cases": 200, "hidden_names": 40, "variables_dumped": 10000}
