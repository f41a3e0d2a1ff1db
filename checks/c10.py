"""C10: located diagnostics.

Workload A (table): every kind of static fault (acv/faults.py: expressions,
statements, declarations that are wrong), used in every way an expression can
be used, in every kind of context, in one file or across modules.  The program
around the fault is right, and compiles without it.  Monitor: the compiler
refuses, and names the file and the line of the fault.

Workload B (robustness): the programs of the other checks, the hostile
programs and the library calls of the fault table, damaged at random - tokens
deleted, doubled, swapped, replaced; characters and lines likewise; two
programs crossed over; random calls of everything the libraries export with
arguments of random types; bytes that do not decode.  Monitor: the compiler
accepts or diagnoses - never an internal exception, never a hang - and the
diagnostic names a file that was read, a line and column inside it, and has
frames that do the same."""
import os
import random
import re
import signal
import sys
import traceback

from acv import faults as F
from acv import hostile, kit, layout, runner, universal

PROPERTY = "C10"
RULE = ("one evaluation = one faulty or damaged program compiled and what "
        "came of it checked; non-trivial = a program with a known single "
        "fault that was refused at its line, or a damaged program that was "
        "diagnosed with a location, distinct by source text")
ASSUME = ["a program whose own compile-time computation does not end, or needs "
          "more memory than there is, is outside the property",
          "an override that does not fit may be reported at its entity"]
LEVEL = "exploration"
MIN = {"table": 3000, "table_multi": 800, "mutants": 2500, "diagnosed": 3000,
       "soup": 1500, "bytes": 40, "frames": 200, "kinds": 60,
       "operand pairs": 6000,
       "context_ok": 60}
CASE_LIMIT = 200
ONE_LIMIT = 12      # seconds for one compilation


class Slow(BaseException):
    pass


NPRE = F.PRE.count("\n")

# what a compile-time computation of the program itself may not end in
LOOPS = re.compile(r"const\s+def|list\.range|\*")


def attempt(sources, main="main.aca", **cfg):
    """compile under a time limit and at the recursion limit users have ->
    Result, or None when it took too long"""
    def ring(*a):
        raise Slow()
    old = signal.getsignal(signal.SIGALRM)
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    lim = sys.getrecursionlimit()
    kit.load()
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, ONE_LIMIT)
    sys.setrecursionlimit(1000)
    try:
        return kit.compile_src(sources, main, **cfg)
    except Slow:
        return None
    finally:
        sys.setrecursionlimit(lim)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.setitimer(signal.ITIMER_REAL, max(left, 1))


def site(res):
    """a stable name of where an internal failure came from"""
    tb = res.exc.__traceback__
    last = None
    for fr, _ in traceback.walk_tb(tb):
        fn = fr.f_code.co_filename
        if "acaciamc" in fn:
            last = "%s:%s" % (os.path.basename(fn), fr.f_code.co_name)
    return "%s@%s" % (type(res.exc).__name__, last)


def base(path):
    return os.path.basename(path) if path else None


def where_ok(loc, texts, need):
    """is the location inside the sources?"""
    if loc is None:
        return not need
    if not hasattr(loc, "linecol") or not hasattr(loc, "file"):
        return False        # (something that is no location at all)
    if loc.file is None:
        return not need
    f = loc.file
    if f.startswith("<") and not need:
        return True         # a label for code the compiler makes itself
    text = None
    for name, t in texts.items():
        if f.replace(os.sep, "/").endswith("/" + name) or f == name:
            if text is None or len(name) > len(text[0]):
                text = (name, t)
    if text is None:
        # a module of the compiler's own
        if os.path.realpath(f).startswith(os.path.realpath(kit.REPO)):
            return not need
        return False
    if loc.linecol is None:
        return not need or isinstance(text[1], bytes)
    ln, col = loc.linecol
    if isinstance(text[1], bytes):
        return True
    # sources are read with universal newlines
    lines = text[1].replace("\r\n", "\n").replace("\r", "\n").split("\n")
    if not 1 <= ln <= len(lines) + 1:
        return False
    line = lines[ln - 1] if ln <= len(lines) else ""
    return 0 <= col <= len(line) + 2


def judge(mon, sources, res, kindname, main="main.aca", tolerate_slow=None):
    """the robustness part: -> the Result kind"""
    if isinstance(sources, str):
        sources = {main: sources}
    mon.evaluated()
    if res is None:
        if tolerate_slow and any(LOOPS.search(s) for s in sources.values()
                                 if isinstance(s, str)):
            mon.count("slow")
            return "slow"
        mon.violation("hang:" + kindname, "no answer within %d s" % ONE_LIMIT,
                      source=sources)
        return "slow"
    if res.kind == "crash":
        if isinstance(res.exc, MemoryError):
            mon.count("memory")
            return "slow"
        mon.violation("crash:" + site(res), "internal failure: %s"
                      % (res.tb or res.message)[-700:], source=sources)
        return "crash"
    if res.kind == "ok":
        mon.count("accepted")
        return "ok"
    mon.count("diagnosed")
    mon.count("type:" + str(res.etype()))
    if not where_ok(res.exc.location, sources, True):
        mon.violation("where:%s" % res.etype(), "diagnostic outside the "
                      "sources: %s" % res.message, source=sources)
        return "error"
    for fr in res.exc.frames:
        mon.count("frames")
        if not where_ok(fr.location, sources, False):
            mon.violation("frame:%s" % res.etype(), "frame outside the "
                          "sources: %s" % res.message, source=sources)
            break
    mon.nontrivial("d", sorted(sources.items(), key=lambda x: x[0]))
    return "error"


# --- workload A

CTX = {n: (t, k) for n, t, k in F.CONTEXTS}
LAYOUTS = ["single", "single", "single", "inmodule", "indeep", "calledfrom",
           "usesmodule"]


def legal(kind, fault, ctx):
    """may a fault of this kind be put in this context at all?"""
    k = CTX[ctx][1]
    if kind in ("expr", "pexpr", "stmt"):
        return True
    if kind == "decl":
        return k in ("top", "decl", "rt")
    return k == "top"


def build(lay, ctx, body):
    """-> sources, file at fault, line at fault"""
    text, line = F.place(CTX[ctx][0], body)
    if lay == "single":
        return {"main.aca": F.PRE + text}, "main.aca", NPRE + line
    if lay == "inmodule":
        return ({"main.aca": "/say a\n\n\n\nimport mod as mod_\n/say b\n",
                 "mod.aca": F.PRE + text}, "mod.aca", NPRE + line)
    if lay == "indeep":
        return ({"main.aca": "/say a\n\nfrom m1 import x1\n/say b\n" * 1,
                 "m1.aca": "import pk.mod as m_\nx1 := m_.vi\n",
                 "pk/mod.aca": F.PRE + text}, "pk/mod.aca", NPRE + line)
    if lay == "calledfrom":
        # what is wrong is in a body that main makes the compiler visit
        lines = text.rstrip("\n").split("\n")
        last = lines[-1]
        m = re.fullmatch(r"(\w+ := )?host\((.*)\)", last)
        if not m or line == len(lines):
            return build("inmodule", ctx, body)
        return ({"main.aca": "/say a\n\nimport mod as mod_\n/say b\n"
                 + (m.group(1) or "") + "mod_.host(%s)\n" % m.group(2)
                 + "\n" * 3,
                 "mod.aca": F.PRE + "\n".join(lines[:-1]) + "\n"},
                "mod.aca", NPRE + line)
    if lay == "usesmodule":
        # the names come from a module; what is wrong is in main
        return ({"main.aca": "/say a\nfrom lib import *\nimport math\n"
                 "import world\nimport print\nimport schedule\n" + text,
                 "lib.aca": F.PRE}, "main.aca", 6 + line)
    raise AssertionError(lay)


def table(rng, n):
    """n random cells of the table, every fault seen about equally often"""
    pool = ([("expr", f) for f in F.EXPRS] * 3 + [("pexpr", f) for f in
            F.PEXPRS] + [("stmt", f) for f in F.STMTS] * 2
            + [("decl", f) for f in F.DECLS] + [("top", f) for f in F.TOP])
    out = []
    while len(out) < n:
        rng.shuffle(pool)
        out.extend(pool)
    out = out[:n]
    names = [c[0] for c in F.CONTEXTS]
    for kind, fault in out:
        ctx = rng.choice([c for c in names if legal(kind, fault, c)])
        use = None
        if kind in ("expr", "pexpr"):
            use = rng.choice([u for u in F.USES if CTX[ctx][1] != "ct"
                              or u[0] in F.CT_USES])
        yield kind, fault, ctx, use, rng.choice(LAYOUTS)


def body_of(kind, fault, use):
    if use is None:
        return fault
    u = use[1]
    f = fault
    b = u.replace("%%", "\0").replace("%s", f).replace("\0", "%")
    return b


# cells that are no faults after all: (fault, use) or (fault, context kind)
def exempt(kind, fault, ctx, use, lay):
    u = use[0] if use else None
    if (fault, u) in F.FINE or (fault, None, CTX[ctx][1]) in F.FINE:
        return True
    if fault in F.SELF and ctx in ("method", "virtual", "vinline", "minline",
                                   "new", "inew"):
        return True
    return False


def run_cell(cell, mon):
    kind, fault, ctx, use, lay = cell
    if exempt(kind, fault, ctx, use, lay):
        return
    sources, file, line = build(lay, ctx, body_of(kind, fault, use))
    res = attempt(sources)
    k = judge(mon, sources, res, "table")
    mon.count("table_multi" if len(sources) > 1 else "table")
    if k in ("crash", "slow"):
        return
    label = "%s|%s|%s|%s" % (fault, use and use[0], ctx, lay)
    if k == "ok":
        mon.violation("accepted:" + label, "the faulty program was accepted",
                      source=sources, line=line)
        return
    loc = res.exc.location
    got = loc.linecol[0] if loc.linecol else None
    okf = loc.file and loc.file.replace(os.sep, "/").endswith("/" + file)
    # a bracket that is not closed goes on into the next lines
    first = last = line
    if F.leaves_open(fault):
        last = sources[file].count("\n") + 1
    if CTX[ctx][1] == "ct" and use is None:
        # any line of a statement that is not allowed there at all
        ls = fault.split("\n")
        at = [i for i, l in enumerate(ls) if "@@" in l] or [0]
        first = line - at[0]
        last = max(last, first + len(ls) - 1)
    if use and use[0] == "multi":
        first, last = line - 1, max(last, line + 1)     # one statement
    if not okf or got is None or not first <= got <= last:
        mon.violation("line:" + label, "fault at %s:%s reported at: %s"
                      % (file, line, res.message[-300:]), source=sources,
                      line=line)
        return
    mon.nontrivial("t", tuple(sorted(sources.items())))


# --- workload B

TOK = re.compile(r"[A-Za-z_]\w*|\d+(?:\.\d+)?|\"(?:\\.|[^\"\\\n])*\"|->|:=|"
                 r"[<>=!+\-*/%]=|\n *|.", re.S)
SPARE = ["def", "if", "elif", "else", "while", "for", "in", "entity", "struct",
         "const", "inline", "virtual", "override", "static", "new", "result",
         "import", "from", "as", "interface", "extends", "pass", "and", "or",
         "not", "True", "False", "None", "self", "(", ")", "{", "}", "[", "]",
         ",", ":", ".", ":=", "=", "->", "&", "+", "-", "*", "/", "%", "==",
         "<", ">=", "+=", "%=", "\\", "@", "#", "#*", "*#", "\"", "${",
         "\n", "\n    ", "\n        ", " ", "\t", "/", "/*", "*/", "0", "1",
         "-1", "2147483648", "0x", "0b2", "1.5", "1e", "...", "\"a\"",
         "\"\\u{110000}\"", "\"\\#(bold)\"", "\"\\#(nope)\"", "nope", "int",
         "bool", "Pos", "Rot", "Entity", "Engroup", "list", "map", "upcast",
         "swap", "\u00e9", "\U0001f600", "\0", "\r", "\x0c", "\ufeff"]


def damage(rng, text, other):
    toks = TOK.findall(text)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not toks:
            break
        i = rng.randrange(len(toks))
        x = rng.random()
        if x < .2:
            del toks[i]
        elif x < .3:
            toks.insert(i, toks[i])
        elif x < .5:
            toks[i] = rng.choice(toks)
        elif x < .65:
            toks[i] = rng.choice(SPARE)
        elif x < .75:
            toks.insert(i, rng.choice(SPARE))
        elif x < .85:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < .9:
            j = min(len(toks), i + rng.randint(1, 30))
            del toks[i:j]
        elif x < .95 and other:
            o = TOK.findall(other)
            j = rng.randrange(len(o))
            toks[i:i] = o[j:j + rng.randint(1, 40)]
        else:
            j = rng.randrange(len(toks[i]) + 1)
            toks[i] = toks[i][:j] + rng.choice(SPARE) + toks[i][j:]
    text = "".join(toks)
    y = rng.random()
    if y < .12:
        ls = text.split("\n")
        i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
        z = rng.random()
        if z < .3:
            ls[i], ls[j] = ls[j], ls[i]
        elif z < .6:
            ls.insert(j, ls[i])
        elif z < .8:
            ls[i] = " " * rng.randint(0, 9) + ls[i].lstrip()
        else:
            del ls[i]
        text = "\n".join(ls)
    elif y < .17:
        text = text[:rng.randrange(len(text) + 1)]
    elif y < .2:
        text = text[rng.randrange(len(text) + 1):]
    elif y < .24 and other:
        ls, os_ = text.split("\n"), other.split("\n")
        i, j = rng.randrange(len(ls)), rng.randrange(len(os_))
        text = "\n".join(ls[:i] + os_[j:])
    return text


# a damaged loop must not make the compiler itself count to infinity
def harmless(text):
    text = re.sub(r"\b\d{5,}\b", "99", text)
    text = re.sub(r"(const\s+def\b[^\n]*\n(?:[ ]+[^\n]*\n|\n)*)",
                  lambda m: m.group(1).replace("while ", "if "), text)
    return text


VALUES = """vi vb ki ks kl km sv ev gv fn il cd tk tick_ ST EN 1 -1 0 2 300
True False None 1.5 -0.25 "" "a" "a b" "minecraft:pig" "@s" {} {1} {1,2} {"a"}
{1:2} {} {"a":"b"} int bool Pos Rot Entity EN ST list Engroup[EN] vi+1 vi*2
-vi vi==1 vb\x20and\x20(vi<2) not\x20vb fn(1) cd(2) ev.f ev.m(1) ev.m ev.vm sv.x
Pos(0,0,0) Pos(1.5,-2,3) Pos(vi,0,0) Pos(ev) Rot(ev) Rot(0,0)
Offset() Offset().offset(x=1) print.format("%0",vi) print.format("") 
print.translate("a",{1}) Enfilter() Enfilter().is_type("pig")
world.Block("stone") world.Block("stone",{"a":1}) world.BLOCK_AIR
nope 2147483647 -2147483647 int.MIN int.MAX math world schedule self
Engroup[EN]() ExternEngroup() kl[0] km[1] ks.nope (1) ((vi)) ev==ev
scb("a","b") new struct list.range(3) upcast(ev,Entity) gv.size()
""".replace("\n", " ").split(" ")
VALUES = [v.replace("\x20", " ") for v in VALUES if v]

EXPORTS = """AbsPos Any Enfilter Engroup Entity ExternEngroup Offset
Offset.local Pos Rot bool float int int.MIN list list.range map map.from_keys
scb swap upcast math.floordiv math.max math.min math.mod math.pow math.randint
world.Block world.Item world.ability world.clear world.clear_inventory
world.clone world.clone_only world.damage world.effect_clear
world.effect_give world.enchant world.event_entity world.fill
world.fill_replace world.gamemode world.give world.is_block world.is_entity
world.is_same_area world.kick world.kill world.move world.move_local
world.msg_me world.msg_say world.msg_tell world.recipe
world.replaceitem_block world.replaceitem_entity world.ride_evict_riders
world.ride_start_tp_ride world.ride_start_tp_rider world.ride_stop
world.rotate world.setblock world.spawnpoint_clear world.spawnpoint_set
world.spread world.summon world.summon_ride world.summon_rider world.tag_add
world.tag_remove world.tp world.xp_add_levels world.xp_add_points print.format
print.tell print.title print.title_clear print.translate print.with_font
schedule.Task schedule.register_loop""".split()


METHODS = """vi.x sv.x ev.f ev.m ev.vm EN.sc ev.im gv.add gv.remove gv.clear
gv.copy gv.size gv.is_empty gv.has_member gv.select gv.has gv.has_instance
kl.append kl.insert kl.pop kl.copy kl.size kl.get kl.reverse
km.get km.size km.copy km.has_key km.keys km.values list.range list.geometric
map.from_list Pos.offset Pos(0,0,0).offset Pos(0,0,0).local Pos(ev).align
Pos(ev).dim Pos(0,0,0).apply Pos(0,0,0).abs Pos(ev).context
Rot(ev).face_entity Rot(ev).face_pos Rot(0,0).copy Rot(ev).abs
Rot(0,0).rel Enfilter().has_tag Enfilter().is_type Enfilter().has_name
Enfilter().distance_from Enfilter().rot_vertical Enfilter().rot_horizontal
Enfilter().nearest_from Enfilter().farthest_from Enfilter().random
Enfilter().not_type Enfilter().in_gamemode Enfilter().player_level
Enfilter().owns_item Enfilter().except_ Enfilter().scoreboard
Enfilter().intersects Enfilter().has_no_tag Enfilter().has_tag_n
Enfilter().all_players tk.after tk.cancel tk.has_schedule
Engroup[EN]().add Engroup ExternEngroup ExternEngroup().resolve
EN Entity.new ev.resolve upcast swap scb ST ST(1,True).copy
Offset().offset Offset().align Offset().local new""".split()


def soup(rng):
    """PRE and a few statements that use the library at random"""
    z = rng.random()
    if z < .45:
        t = F.derive(rng, "stmt", 0, rng.choice([0, 0, .03, .06])) + "\n"
        if rng.random() < .3:
            t, _ = F.place(CTX[rng.choice(sorted(CTX))][0], t.rstrip("\n"))
        return harmless(F.PRE + t)
    if z < .75:
        t = ("const def cq(qa, ql: list, qm: map) -> %s:\n" % rng.choice(
            ["int", "list", "map", "Any", "Any", "Any", "None", "Pos"]))
        for _ in range(rng.choice([1, 1, 2, 3])):
            t += "    " + F.derive(rng, "ctstmt", 0, .03).replace(
                "\n", "\n    ") + "\n"
        t += "    result %s\n" % F.derive(rng, "ct")
        t += rng.choice(["zq := cq(1, {1, 2}, {1: 2})\n",
                         "const zq = cq(1, {1, \"a\"}, {\"a\": 2})\n",
                         "/say ${cq(3, {}, {1: 2})}\n",
                         "for zq in cq(\"s\", {{1}}, {1: {2}}):\n    /a\n"])
        return harmless(F.PRE + t)
    out = []

    def val(depth=0):
        x = rng.random()
        if depth < 2 and x < .16:
            return call(depth + 1)
        if depth < 3 and x < .2:
            return "%s %s %s" % (val(depth + 1), rng.choice(
                ["+", "-", "*", "/", "%", "==", "<", ">=", "!=", "and", "or"]),
                val(depth + 1))
        if x < .24:
            return "%s.%s" % (rng.choice(VALUES), rng.choice(
                ["x", "f", "m", "size", "new", "nope", "add", "offset",
                 "MAX", "copy", "__getitem__", "__class__", "name"]))
        if x < .27:
            return "%s[%s]" % (rng.choice(VALUES), rng.choice(VALUES))
        if x < .3:
            return "{%s}" % ", ".join(val(2) for _ in range(rng.randint(0, 3)))
        if x < .32:
            return "{%s: %s}" % (val(2), val(2))
        if x < .34:
            return "\"a${%s}\"" % rng.choice(VALUES)
        return rng.choice(VALUES)

    def call(depth=0):
        f = rng.choice(METHODS) if rng.random() < .5 else rng.choice(EXPORTS)
        args = [val(depth + 1) for _ in range(
            rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5]))]
        if rng.random() < .2:
            args.append("%s=%s" % (rng.choice(
                ["x", "y", "z", "a", "entity", "pos", "rot", "filter", "text",
                 "block", "target", "interval", "type", "name", "event",
                 "player", "mode", "value", "min_", "max_", "id", "count"]),
                val(depth + 1)))
        return "%s(%s)" % (f, ", ".join(args))
    for i in range(rng.choice([1, 1, 1, 1, 2, 3])):
        x = rng.random()
        if x < .4:
            s = call()
        elif x < .6:
            s = "z%d := %s" % (i, call() if rng.random() < .6 else val())
        elif x < .64:
            s = "z%d: %s = %s" % (i, rng.choice(
                ["int", "bool", "EN", "ST", "Pos", "list", "nope", "Entity",
                 "Engroup[EN]", "Engroup", "None"]), val())
        elif x < .68:
            s = "%s = %s" % (rng.choice(VALUES), val())
        elif x < .72:
            s = "%s %s %s" % (rng.choice(VALUES), rng.choice(
                ["+=", "-=", "*=", "/=", "%="]), val())
        elif x < .76:
            s = "const z%d = %s" % (i, val())
        elif x < .79:
            s = "&z%d = %s" % (i, val())
        elif x < .84:
            s = "for z%d in %s:\n    /say ${%s}" % (
                i, val(), rng.choice(["z%d" % i, "vi", "ki"]))
        elif x < .88:
            s = "if %s:\n    /say a" % val()
        elif x < .9:
            s = "while %s:\n    vi += 1" % val()
        elif x < .93:
            s = "/say ${%s} ${%s}" % (val(), val())
        elif x < .95:
            s = "def z%d(a: %s, b: int = %s) -> %s:\n    result %s" % (
                i, rng.choice(["int", "bool", "EN", "ST", "Pos", "Entity"]),
                val(2), rng.choice(["int", "bool", "EN", "None", "ST"]),
                val())
        elif x < .97:
            s = ("const def z%d(a, b = %s):\n    q := %s\n    result %s\n"
                 "y%d := z%d(%s)" % (i, val(2), val(), val(), i, i, val()))
        elif x < .985:
            s = ("inline def z%d(const a, &b: int, c: int = 1):\n    q := %s\n"
                 "    result %s\ny%d := z%d(%s, vi)" % (
                     i, val(), rng.choice(["a", "b", "c", val()]), i, i,
                     val()))
        else:
            s = ("entity Z%d extends %s:\n    %s: %s\n    new(k: int):\n"
                 "        new(%s)\n        self.a = %s\n    def m() -> int:\n"
                 "        result %s\nZ%d(%s)" % (
                     i, rng.choice(["EN", "Entity", "E2", "ST", "EN, E2"]),
                     "a", rng.choice(["int", "bool", "ST", "EN"]),
                     rng.choice(["type=\"pig\"", val(), "pos=" + val(),
                                 "type=\"pig\", pos=" + val()]),
                     val(), val(), i, rng.choice(["1", val(), ""])))
        out.append(s)
    t = "\n".join(out) + "\n"
    if rng.random() < .25:
        c, _ = F.place(CTX[rng.choice(sorted(CTX))][0], t.rstrip("\n"))
        t = c
    return harmless(F.PRE + t)


NESTED = [
    ("inline", "inline def f(x: int):\n    f(x)\nf(1)\n"),
    ("inline2", "inline def g():\n    h()\ninline def h():\n    g()\ng()\n"),
    ("const", "const def f(x: int) -> int:\n    result f(x)\ny := f(1)\n"),
    ("deepconst", "const def f(n: int) -> int:\n    if n == 0:\n        "
     "result 0\n    result f(n - 1) + 1\ny := f(3000)\n"),
    ("imethod", "entity E:\n    new():\n        new(type=\"pig\", pos=Pos(0,"
     " 0, 0))\n    inline def m():\n        self.m()\nE().m()\n"),
    ("ctor", "entity E:\n    inline new():\n        E()\nE()\n"),
    ("parens", "x := " + "(" * 900 + "1" + ")" * 900 + "\n"),
    ("minus", "x := " + "-" * 900 + "1\n"),
    ("sum", "y := 1\nx := y" + " + y" * 1500 + "\n"),
    ("call", "x := y" + "()" * 1500 + "\n"),
    ("attr", "x := y" + ".a" * 1500 + "\n"),
    ("index", "x := y" + "[0]" * 1500 + "\n"),
    ("list", "const x = " + "{" * 500 + "1" + "}" * 500 + "\n"),
    ("not", "y := True\nx := " + "not " * 900 + "y\n"),
    ("blocks", "y := 1\n" + "".join(" " * i + "while y == 1:\n"
                                    for i in range(400)) + " " * 400
     + "/a\n"),
    ("ifs", "y := 1\n" + "".join(" " * i + "if y == %d:\n" % i
                                 for i in range(400)) + " " * 400 + "/a\n"),
    ("elifs", "y := 1\nif y == 0:\n    /b\n" + "".join(
        "elif y == %d:\n    /a%d\n" % (i, i) for i in range(1, 700))),
    ("defs", "".join(" " * i + "def f%d():\n" % i for i in range(300))
     + " " * 300 + "/a\n"),
    ("fexpr", "/" + "${\"" * 1 + "a" + "\"}" * 1 + "\n"),
    ("virtual", "entity E:\n    new():\n        new(type=\"pig\", pos=Pos(0,"
     " 0, 0))\n    virtual inline def m():\n        self.m()\nentity F "
     "extends E:\n    new():\n        E.new()\n    override inline def m():\n"
     "        /a\ne: E = F()\ne.m()\n"),
    ("selfstruct", "struct S:\n    x: S\nt := S()\n"),
    ("chain", "".join("def f%d():\n    f%d()\n" % (i, i - 1) if i else
                      "def f0():\n    /a\n" for i in range(1200))
     + "f1199()\n"),
    ("consts", "const a0 = 1\n" + "".join("const a%d = a%d + 1\n"
                                          % (i, i - 1)
                                          for i in range(1, 2000))),
    ("inherit", "entity E0:\n    x: int\n" + "".join(
        "entity E%d extends E%d:\n    y%d: int\n" % (i, i - 1, i)
        for i in range(1, 150))),
    ("bools", "y := 1\nx := y == 1" + " and y == 1" * 900 + "\n"),
    ("strings", "/say " + "${\"a\"}" * 900 + "\n"),
    ("chaincmp", "y := 1\nx := y" + " < y" * 500 + "\n"),
]

BYTES = [b"\xff", b"x := 1\n\xc3\x28\n", b"/say \xe9\n", b"\xef\xbb\xbfx := 1\n",
         b"x := 1\n" * 3000 + b"\x80", b"\xfe\xffx", b"#\xf0\x28\x8c\x28\n",
         b"", b"\n", b"\r", b"\r\n\r\n", b"\0", b"x\0y", b"   ", b"\t",
         b"x := 1", b"#", b"#*", b"/", b"/*", b"\\", b"\\\n", b"\"", b"${",
         b"\x1a", b"x := \"\\", b"if 1:", b"if 1:\n", b"if 1:\n ",
         b"interface", b"interface ", b"interface a", b"interface a:\n",
         b"import", b"from", b"from .", b"from . import", b"import .",
         b"import a.", b"import ..a", b"import .......a",
         b"from main import *\n", b"import main\n", b"/${", b"/${}", b"/\\",
         b"\"\\u{", b"\"\\x", b"\"\\#", b"\"\\#(", b"0x", b"0b", b"0o", b"1.",
         b".1", b"1..2", b"1e5", b"0777", b"1_000", b"1a"]


def run_bytes(mon, rng):
    kit.load()
    for b in BYTES:
        for multi in (False, True):
            d = kit.fresh_dir("src")
            try:
                text = b.decode("utf8", "surrogateescape")
                if multi:
                    kit.write_tree(d, {"main.aca": "/a\n\n\nimport m\n"})
                with open(os.path.join(d, "m.aca" if multi else "main.aca"),
                          "wb") as f:
                    f.write(b)
                res = compile_dir(d)
            finally:
                import shutil
                shutil.rmtree(d, ignore_errors=True)
            try:
                b.decode("utf8")
                s = text.replace("\r\n", "\n").replace("\r", "\n")
                undecodable = False
            except UnicodeDecodeError:
                s = b
                undecodable = True
            src = {"m.aca": s} if multi else {"main.aca": s}
            if multi:
                src["main.aca"] = "/a\n\n\nimport m\n"
            k = judge(mon, src, res, "bytes")
            mon.count("bytes")
            if undecodable and k == "ok":
                mon.violation("undecodable", "accepted", source=repr(b))
            elif undecodable and k == "error":
                want = "m.aca" if multi else "main.aca"
                if base(res.exc.location.file) != want:
                    mon.violation("undecodable-file", "%r: %s"
                                  % (b[:40], res.message), source=repr(b))
    # what cannot be opened
    for main, srcs in [("nope.aca", {"x.aca": ""}),
                       ("d.aca/x", {"d.aca/x/y": ""}),
                       ("main.aca", {"main.aca": "import m\n",
                                     "m.aca/x": ""})]:
        res = attempt(srcs, main)
        mon.evaluated()
        mon.count("bytes")
        if res is None or res.kind != "error":
            mon.violation("unreadable", "%s: %s %s" % (
                main, res and res.kind, res and res.message), source=srcs)


def compile_dir(d):
    comp, err = kit.load()
    try:
        c = comp.Compiler(os.path.join(d, "main.aca"),
                          comp.Config(encoding="utf8"))
        c.output(os.path.join(d, "__out"))
    except err.Error as e:
        r = kit.Result("error", exc=e)
        r.message = e.full_msg()
        return r
    except Exception as e:
        return kit.Result("crash", exc=e, tb=traceback.format_exc())
    return kit.Result("ok", files={})


# --- interface to the runner

QUICK = {"table": 130, "mutant": 150, "soup": 60}
DEEP = {"table": 900, "mutant": 1500, "soup": 500}


def cases(tier, seed):
    q = QUICK if tier == "quick" else DEEP
    out = [("contexts",), ("bytes",)]
    out += [("circle", n) for n in range(9)]
    out += [("operands", a) for a in sorted(OPERANDS)]
    out += [("nested", i) for i in range(len(NESTED))]
    out += [("table", s, 110) for s in runner.spread(seed, "c10t", q["table"])]
    n = q["mutant"]
    out += [("mutant", s, universal_case) for s, universal_case in zip(
        runner.spread(seed, "c10m", n),
        universal.pool(seed, "c10", n))]
    out += [("hostile", s) for s in runner.spread(seed, "c10h", n // 3)]
    out += [("tablemut", s) for s in runner.spread(seed, "c10x", n // 3)]
    out += [("soup", s, 90) for s in runner.spread(seed, "c10s", q["soup"])]
    return out


def circle(mon, n):
    """a chain of n modules whose last one imports an earlier one (or main):
    refused at that import, in that file"""
    rng = random.Random("circle%d" % n)
    forms = ["import %s", "import %s as zz", "from %s import *",
             "from %s import a, b as c"]
    names = ["main"] + [rng.choice(["m%d", "pk.m%d", "pk.sub.m%d"]) % i
                        for i in range(1, n + 1)]
    for j in range(n + 1):
        src, at = {}, None
        for i, m in enumerate(names):
            pre = ["x%d := %d" % (i, i)] * rng.randint(0, 1) + \
                ["# note", ""] * rng.randint(0, 2)
            t = names[i + 1] if i < n else names[j]
            f = rng.choice(forms if i == n else forms[:3])
            # (every import starts from the folder of the main file)
            line = f % (rng.choice(["", "."]) + t)
            src[m.replace(".", "/") + ".aca"] = "\n".join(
                pre + [line, "y%d := 1" % i]) + "\n"
            at = (m.split(".")[-1] + ".aca", len(pre) + 1)
        res = attempt(src)
        judge(mon, src, res, "circle")
        if res is None or res.kind == "crash":
            continue
        if res.kind == "ok":
            mon.violation("circle:accepted", "modules import each other in a "
                          "circle", source=src)
            continue
        loc = res.exc.location
        if res.etype() != "CIRCULAR_PARSE" or (base(loc.file), loc.linecol
                                               and loc.linecol[0]) != at:
            mon.violation("circle:place", "the import at line %d of %s closes "
                          "a circle; reported: %s" % (at[1], at[0],
                                                      res.message),
                          source=src)
            continue
        mon.count("circles")


# operand types, and which operators they support (everything else is refused)
OPERANDS = {
    "int": "3", "bool": "True", "str": '"ab"', "none": "None",
    "float": "1.5", "list": "{1, 2}", "map": "{1: 2}", "pos": "Pos(1, 2, 3)",
    "rot": "Rot(1, 2)", "off": "Offset(1, 2, 3)", "fn": "fn", "type": "int",
    "ivar": "iv", "bvar": "bv", "struct": "s", "ent": "e", "grp": "g",
    "filt": "Enfilter()", "tmpl": "T", "stt": "S", "mod": "print",
    "fstr": 'print.format("a")', "nvar": "n"}
CONSTS = ["int", "bool", "str", "none", "float", "list", "map", "pos", "rot",
          "off", "fn", "type", "stt", "tmpl"]
ARITH = ["+", "-", "*", "/", "%"]
CMPS = ["==", "!=", "<", "<=", ">", ">="]
BOOLS = ["and", "or"]


def supported(a, op, b):
    p = {a, b}
    if p <= {"int", "float"} and "float" in p:
        return op in ARITH
    if a == "list":
        return (op, b) in (("*", "int"), ("+", "list"))
    p = {{"ivar": "int", "bvar": "bool"}.get(x, x) for x in p}
    if p == {"int"}:
        return op in ARITH + CMPS
    if p == {"bool"}:
        return op in BOOLS + ["==", "!="]
    return p <= {"str", "fstr"} and op == "+"


def operands(mon, a):
    """every operator between a and every other type, at run time and in
    both forms of compile-time evaluation"""
    pre = """import print
struct S:
    a: int
entity T:
    new():
        new(type="pig", pos=Pos(1, 2, 3))
iv := 4
bv := True
s := S()
e := T()
g := Engroup[T]()
n := None
def fn():
    pass
"""
    forms = [("run", "%s\n", 0), ("const", "const zz = %s\n", 0),
             ("cfun", "const def cf():\n    zz := %s\ncf()\n", 1)]
    cells = [(a, op, b) for b in sorted(OPERANDS)
             for op in ARITH + CMPS + BOOLS] + [
                 (None, op, a) for op in ("not ", "-", "+")]
    for x, op, b in cells:
        e = "%s %s %s" % (OPERANDS[x], op, OPERANDS[b]) if x \
            else op + OPERANDS[b]
        if x:
            ok = supported(x, op, b)
        elif op == "not ":
            ok = b in ("bool", "bvar")
        else:
            ok = b in ("int", "ivar", "float")
        for name, form, extra in forms:
            if name != "run" and not {x or b, b} <= set(CONSTS):
                continue
            if name == "cfun" and "list" in (x, b) and ok:
                continue        # (not offered there)
            src = pre + form % e
            res = attempt(src)
            judge(mon, src, res, "operands")
            if res is None or res.kind == "crash":
                continue
            mon.count("operand pairs")
            if res.ok != ok:
                mon.violation("operands:%s:%s%s%s" % (name, x, op, b),
                              "%s of %s and %s is %s" % (
                                  op, x, b, "accepted" if res.ok
                                  else "refused: %s" % res.message),
                              source=src)
            elif not ok and res.exc.location.linecol[0] \
                    != pre.count("\n") + 1 + extra:
                mon.violation("operands:line", res.message, source=src)


def mutants(mon, rng, sets, n, kind):
    """sets: list of (sources, main, cfg)"""
    if not sets:
        return
    texts = [t for s, _, _ in sets for t in s.values()]
    for _ in range(n):
        s, main, cfg = rng.choice(sets)
        s = dict(s)
        name = rng.choice(sorted(s))
        if not s[name]:
            continue
        s[name] = harmless(damage(rng, s[name], rng.choice(texts)))
        res = attempt(s, main, **cfg)
        judge(mon, s, res, kind, main, tolerate_slow=True)
        mon.count("mutants")


def run_case(case, mon):
    kind = case[0]
    if kind == "contexts":
        for lay in sorted(set(LAYOUTS)):
            for n, t, k in F.CONTEXTS:
                src, _, _ = build(lay, n, "pass")
                res = attempt(src)
                mon.evaluated()
                mon.count("context_ok")
                if res is None or not res.ok:
                    mon.violation("context:%s:%s" % (lay, n), "the program "
                                  "without a fault is refused: %s"
                                  % (res and res.message), source=src)
        return
    if kind == "circle":
        return circle(mon, case[1])
    if kind == "operands":
        return operands(mon, case[1])
    if kind == "bytes":
        return run_bytes(mon, random.Random(1))
    if kind == "nested":
        name, text = NESTED[case[1]]
        for src in ({"main.aca": text},
                    {"main.aca": "/a\nimport m\n", "m.aca": text}):
            res = attempt(src)
            judge(mon, src, res, "nested:" + name)
            if res is not None and res.kind == "error" and name in (
                    "inline", "inline2", "const", "imethod", "ctor"):
                loc = res.exc.location
                want = "m.aca" if len(src) > 1 else "main.aca"
                if base(loc.file) != want:
                    mon.violation("nested-file:" + name, res.message,
                                  source=src)
            if res is not None and res.kind == "ok" and name in (
                    "inline", "inline2", "const", "imethod"):
                mon.violation("nested-ok:" + name, "endless recursion "
                              "accepted", source=src)
        return
    if kind == "table":
        rng = random.Random("c10-%s" % case[1])
        for cell in table(rng, case[2]):
            run_cell(cell, mon)
        return
    rng = random.Random("c10-%s-%s" % (kind, case[1]))
    if kind == "mutant":
        _, mod, ucase = case[2]
        try:
            sets = universal.harvest(mod, ucase, 6)
        except runner.CaseTimeout:
            raise
        sets = [({m: x} if isinstance(x, str) else x, m, c)
                for x, m, c in sets]
        # (damaged Python modules are not the compiler's business)
        sets = [t for t in sets if not any(f.endswith(".py") for f in t[0])]
        mutants(mon, rng, sets, 30, "mutant")
    elif kind == "hostile":
        h = hostile.make(case[1])
        h = h if isinstance(h, str) else h[0]
        mutants(mon, rng, [({"main.aca": h}, "main.aca", {})], 12, "hostile")
    elif kind == "tablemut":
        sets = []
        for cell in table(rng, 8):
            s, _, _ = build(cell[4], cell[2], body_of(cell[0], cell[1],
                                                      cell[3]))
            sets.append((s, "main.aca", {}))
        for s, main, cfg in sets:
            for nm in s:
                s[nm] = s[nm][:100000]
        mutants(mon, rng, sets, 30, "tablemut")
    elif kind == "soup":
        for _ in range(case[2]):
            s = soup(rng)
            res = attempt(s)
            judge(mon, s, res, "soup", tolerate_slow=True)
            mon.count("soup")


def post(mon, counts, tier):
    kinds = [k for k in counts if k.startswith("type:")]
    counts["kinds"] = len(kinds)
