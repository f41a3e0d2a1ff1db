"""C12: commands, strings and displayed text reach the game verbatim.

The generator starts from the intended text (characters and constant pieces),
encodes it into Acacia source in one of the many ways the language offers
(plain, escapes, unicode escapes, formatted pieces, constants, concatenation,
list/map elements, compile-time functions, one-line or multi-line commands),
compiles, executes the pack on the monitored VM and compares the recorded
event log - every raw command and every displayed text, who saw it, with
which titles and timings - with the intended one."""
import random
import re

from acv import kit, runner, vm as vmmod

PROPERTY = "C12"
RULE = ("one evaluation = one program executed and its ordered log of raw "
        "commands and displayed texts compared with the intended texts, or "
        "one malformed text refused with a located diagnostic; distinct by "
        "source text")
ASSUME = ["line terminators inside a command are outside the scope (a "
          "command file has one command per line)",
          "when font scopes nest, only what the documentation states is "
          "checked: a scope's own colour and styles win inside it, nothing "
          "leaks outside it"]
LEVEL = "exploration"
MIN = {"events compared": 3000, "raw commands": 1000, "texts shown": 800,
       "escapes": 1500, "formatted pieces": 1200, "refused texts": 40,
       "titles": 150, "fonts": 150, "shared texts": 150,
       "fonts inside fonts": 60, "multi-line commands": 150,
       "score pieces": 400}

COLORS = {"black": "0", "dark_blue": "1", "dark_green": "2", "dark_aqua": "3",
          "dark_red": "4", "dark_purple": "5", "gold": "6", "gray": "7",
          "dark_gray": "8", "blue": "9", "green": "a", "aqua": "b",
          "red": "c", "light_purple": "d", "yellow": "e", "white": "f",
          "minecoin_gold": "g"}
NEW = {"material_quartz": "h", "material_iron": "i",
       "material_netherite": "j", "material_redstone": "m",
       "material_copper": "n", "material_gold": "p",
       "material_emerald": "q", "material_diamond": "s",
       "material_lapis": "t", "material_amethyst": "u"}
FONTS = {"obfuscated": "k", "bold": "l", "italic": "o", "reset": "r"}

PLAIN = "abcXYZ019 ,.;:-_=+()[]<>|~^@!&?`'"
HOSTILE = "\"\\#$%{}*/"
WIDE = "é§中Ωя🎉\u200b\u00a0\u3000ⅷ½\x07\x7f\t"
WORDS = ["say hi", "scoreboard players set", "execute as @a run", "#*", "*#",
         "//", "/*", "${", "${x}", "}", "\\n", "\\x41", "%0", "%%", "%{a}",
         "acacia1", "#", "'", '""', "  ", "tellraw @a {\"rawtext\":[]}",
         "0x1F", "-- -", "@e[name=\"a b\"]", "\\\\", "if True:", "$$"]


def rtext(r, n=12):
    """random intended text"""
    out = []
    for _ in range(r.randrange(n)):
        p = r.random()
        if p < .45:
            out.append(r.choice(PLAIN))
        elif p < .7:
            out.append(r.choice(HOSTILE))
        elif p < .85:
            out.append(r.choice(WIDE))
        else:
            out.append(r.choice(WORDS))
    return "".join(out)


def uni(r, c):
    n = ord(c)
    forms = ["\\U%08X" % n, "\\U%08x" % n]
    if n < 0x10000:
        forms += ["\\u%04X" % n, "\\u%04x" % n]
    if n < 0x100:
        forms += ["\\x%02X" % n, "\\x%02x" % n] * 2
    return r.choice(forms)


class Enc:
    """Encodes intended characters for one of: str, cmd, long."""

    def __init__(self, g):
        self.g, self.r = g, g.r

    def chars(self, s, where, first=False):
        """source for `s`; plain characters are chosen only where they mean
        themselves whatever follows, or looking at the next intended one"""
        r = self.r
        out = []
        for i, c in enumerate(s):
            nxt = s[i + 1] if i + 1 < len(s) else None
            if c == "\n" or c == "\r":
                raise ValueError
            if r.random() < .06:
                out.append(uni(r, c))
                self.g.n["escapes"] += 1
                continue
            if c == "\\":
                # a lone backslash keeps itself when what follows is no escape
                if nxt is not None and nxt in "nabt z.-" and r.random() < .5 \
                        and self.keep(nxt):
                    out.append("\\" + nxt)
                    # consume nxt as plain right now
                    out.append("\0SKIP")
                    self.g.n["lone backslashes"] += 1
                else:
                    out.append("\\\\")
                    self.g.n["escapes"] += 1
            elif c == "§":
                out.append(r.choice(["§", "\\#"]) if nxt != "(" else "§")
                self.g.n["escapes"] += 1
            elif c == "$":
                # `$` followed by `{` starts an expression
                if nxt == "{" or nxt is None or r.random() < .2:
                    out.append("\\$")
                    self.g.n["escapes"] += 1
                else:
                    out.append("$")
            elif c == '"' and where == "str":
                out.append('\\"')
                self.g.n["escapes"] += 1
            elif c == "*" and where == "long" and (nxt == "/" or nxt is None):
                out.append(uni(r, c))
            elif c == "*" and where == "cmd" and first and i == 0:
                out.append(uni(r, c))
            elif c == " " and where == "long" and r.random() < .3:
                out.append("\n")
                self.g.n["long newlines"] += 1
            else:
                out.append(c)
        # drop characters already emitted after a lone backslash
        res, skip = [], False
        for piece in out:
            if piece == "\0SKIP":
                skip = True
                continue
            if skip:
                skip = False
                continue
            res.append(piece)
        return "".join(res)

    @staticmethod
    def keep(c):
        return c not in "\\#xuU\"$\n"


class G:
    def __init__(self, r, new_colors=True):
        self.r = r
        self.n = {"escapes": 0, "lone backslashes": 0, "long newlines": 0,
                  "formatted pieces": 0, "fonts": 0, "score pieces": 0,
                  "multi-line commands": 0, "raw commands": 0,
                  "texts shown": 0, "titles": 0, "shared texts": 0,
                  "fonts inside fonts": 0}
        self.enc = Enc(self)
        self.uid = 0
        self.pre = []           # declarations
        self.consts = {"int": [], "str": [], "bool": [], "float": []}
        self.fstrs = []         # (name of a text constant, pieces)
        self.static = False     # no run-time values
        self.new_colors = new_colors
        self.mem = {}
        self.events = []

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    # -- constant expressions: (source, type, value) ----------------------
    def cint(self, d=2):
        r = self.r
        p = r.random()
        if self.consts["int"] and p < .25:
            return r.choice(self.consts["int"])
        if d <= 0 or p < .6:
            v = r.choice([0, 1, 7, -1, -13, 255, 65536, 2147483647,
                          -2147483647, 42])
            if v < 0:
                return "-%d" % -v, v
            return r.choice(["%d", "0x%x", "0x%X", "0b{0:b}", "0o{0:o}",
                             "%d"]).replace("%d", "{0}").replace(
                "%x", "{0:x}").replace("%X", "{0:X}").format(v), v
        a, x = self.cint(d - 1)
        b, y = self.cint(d - 1)
        op = r.choice("+-*")
        v = {"+": x + y, "-": x - y, "*": x * y}[op]
        if not -2**31 <= v < 2**31:
            return a, x
        return "(%s) %s (%s)" % (a, op, b), v

    def cbool(self):
        r = self.r
        p = r.random()
        if self.consts["bool"] and p < .3:
            return r.choice(self.consts["bool"])
        if p < .6:
            v = r.random() < .5
            return str(v), v
        (a, x), (b, y) = self.cint(0), self.cint(0)
        op = r.choice(["==", "<", ">=", "!="])
        return "%s %s %s" % (a, op, b), {
            "==": x == y, "<": x < y, ">=": x >= y, "!=": x != y}[op]

    def cfloat(self):
        r = self.r
        if self.consts["float"] and r.random() < .3:
            return r.choice(self.consts["float"])
        v = r.choice([0.5, 1.25, 3.0, 100.125, 0.1, 2.75])
        s = repr(v)
        if r.random() < .4:
            return "-" + s, -v
        if r.random() < .4:
            w = r.choice([0.25, 8.0])
            return "%s + %r" % (s, w), v + w
        return s, v

    def cstr(self, d=2, line=True):
        """a constant string expression"""
        r = self.r
        p = r.random()
        if self.consts["str"] and p < .3:
            return r.choice(self.consts["str"])
        if d > 0 and p < .45:
            a, x = self.cstr(d - 1)
            b, y = self.cstr(d - 1)
            return "%s + %s" % (a, b), x + y
        return self.strlit(d)

    def strlit(self, d=2, s=None):
        """a string literal: text and formatted pieces"""
        src, val = self.mixed("str", d, s)
        return '"%s"' % src, val

    def piece(self, d):
        """a ${} piece: (source expression, text)"""
        r = self.r
        self.n["formatted pieces"] += 1
        k = r.choice(["int", "int", "bool", "float", "str", "str"])
        if k == "int":
            s, v = self.cint()
            return s, str(v)
        if k == "bool":
            s, v = self.cbool()
            return s, "true" if v else "false"
        if k == "float":
            s, v = self.cfloat()
            return s, str(v)
        s, v = self.cstr(d - 1)
        return s, v

    def mixed(self, where, d, s=None, head=""):
        """(source, value) of a run of text and ${} pieces; `head` is what
        the value starts with"""
        r = self.r
        parts = [("t", head + (rtext(r) if s is None else s))]
        if s is None:
            while r.random() < (.45 if d > 0 else 0) and len(parts) < 8:
                parts.append(("e",) + self.piece(d))
                parts.append(("t", rtext(r, 8)))
        out, val = [], []
        for i, p in enumerate(parts):
            if p[0] == "t":
                out.append(self.enc.chars(p[1], where, first=i == 0))
                val.append(p[1])
            else:
                pad = r.choice(["", " "])
                if where == "long" and r.random() < .2:
                    pad = "\n  "
                out.append("${%s%s%s}" % (pad, p[1], pad))
                val.append(p[2])
        return "".join(out), "".join(val)

    # -- declarations ----------------------------------------------------
    def declare(self):
        r = self.r
        for _ in range(r.randrange(2, 6)):
            k = r.choice(["int", "str", "str", "bool", "float", "list",
                          "map", "fn"])
            n = self.name("K")
            if k == "int":
                s, v = self.cint()
            elif k == "str":
                s, v = self.cstr()
            elif k == "bool":
                s, v = self.cbool()
            elif k == "float":
                s, v = self.cfloat()
            if k in self.consts:
                ty = "" if k == "str" or r.random() < .5 else ": " + k
                self.pre.append("const %s%s = %s" % (n, ty, s))
                self.consts[k].append((n, v))
            elif k == "list":
                es = [self.cstr() for _ in range(r.randrange(1, 4))]
                self.pre.append("const %s = {%s}" % (
                    n, ", ".join(e[0] for e in es)))
                for i, e in enumerate(es):
                    j = r.choice([i, i - len(es)])
                    self.consts["str"].append(("%s[%d]" % (n, j), e[1]))
            elif k == "map":
                es = [(self.cstr(1), self.cstr(1)) for _ in range(3)]
                self.pre.append("const %s = {%s}" % (
                    n, ", ".join("%s: %s" % (a[0], b[0]) for a, b in es)))
                m = {a[1]: b[1] for a, b in es}
                for a, b in es:
                    self.consts["str"].append(
                        ("%s[%s]" % (n, a[0]), m[a[1]]))
            else:
                a, x = self.cstr()
                b, y = self.strlit(1)
                self.pre.append("const def %s(p, q=%s) -> Any:\n"
                                "    result q + p + q" % (n, b))
                self.consts["str"].append(
                    ("%s(%s)" % (n, a), y + x + y))
                c, z = self.cstr(1)
                self.consts["str"].append(
                    ("%s(%s, q=%s)" % (n, a, c), z + x + z))

    # -- run-time variables ----------------------------------------------
    def rvar(self):
        k = self.r.choice([n for n in self.mem])
        return k

    def rexpr(self):
        """run-time expression formatted as text: (source, fn(mem)->text)"""
        r = self.r
        self.n["score pieces"] += 1
        ints = [n for n in self.mem if n[0] == "i"]
        bools = [n for n in self.mem if n[0] == "b"]
        p = r.random()
        if p < .4:
            n = r.choice(ints)
            return n, lambda m: str(m[n])
        if p < .6:
            n, k = r.choice(ints), r.choice([2, 3, -5])
            op = r.choice("+-*")
            src = "%s %s (%d)" % (n, op, k)
            return src, lambda m: str(wrap(
                m[n] + k if op == "+" else m[n] - k if op == "-"
                else m[n] * k))
        if p < .7:
            n, o = r.choice(ints), r.choice(ints)
            return "%s * %s - %s" % (n, o, n), lambda m: str(wrap(
                wrap(m[n] * m[o]) - m[n]))
        if p < .8:
            n = r.choice(bools)
            return n, lambda m: str(int(m[n]))
        if p < .9:
            n, o = r.choice(ints), r.choice(bools)
            return "%s > 3 %s %s" % (n, "and", o), \
                lambda m: str(int(m[n] > 3 and m[o]))
        n, o = r.choice(ints), r.choice(bools)
        return "not %s or %s == 2" % (o, n), \
            lambda m: str(int(not m[o] or m[n] == 2))

    # -- formatted strings: (source, pieces) --------------------------------
    # piece: (fn(mem)->text, scopes) ; scopes: tuple innermost first of
    # (color|None, frozenset(flags))
    def fstr(self, d=2, font=True):
        """an fstring or str expression: (source, is_fstr, pieces)"""
        r = self.r
        p = r.random()
        if font and self.fstrs and r.random() < .2:
            self.n["shared texts"] += 1
            n, x = r.choice(self.fstrs)
            return n, True, x
        if d <= 0 or p < .2:
            s, v = self.cstr(1)
            if not font or "§" not in v:
                return s, False, [(lambda m, v=v: v, ())]
            p = .9
        if p < .55:
            return self.fmt(d, font)
        if p < .7:
            a, fa, x = self.fstr(d - 1, font)
            b, fb, y = self.fmt(d - 1, font) if not fa else \
                self.fstr(d - 1, font)
            if r.random() < .5 and (fa or fb):
                a, b, x, y = b, a, y, x
            return "%s + %s" % (a, b), True, x + y
        if p < .85 and font:
            a, fa, x = self.fstr(d - 1, font)
            kw = []
            color = None
            if r.random() < .7:
                color = r.choice(list(COLORS) + ["default"] + (
                    list(NEW) if self.new_colors else []))
                kw.append(("color", '"%s"' % color))
            flags = set()
            for f in ("bold", "italic", "obfuscated"):
                if r.random() < .35:
                    v = r.random() < .8
                    kw.append((f, str(v)))
                    if v:
                        flags.add(f)
            r.shuffle(kw)
            if color == "default":
                color = None
            self.n["fonts"] += 1
            sc = (color, frozenset(flags))
            return ("print.with_font(%s)" % ", ".join(
                [a] + ["%s=%s" % t for t in kw]), True,
                [(f, s + (sc,)) for f, s in x])
        if p < .93:
            key = r.choice(["item.diamond.name", "a b", "x%0", "", "k\"q"])
            s, v = self.strlit(0, key)
            return "print.translate(%s)" % s, True, \
                [(lambda m: "{{%s|}}" % v, ())]
        return self.fmt(d, font)

    def fmt(self, d, font):
        r = self.r
        pos = [self.farg(d, font) for _ in range(r.randrange(0, 4))]
        kw = {}
        for _ in range(r.randrange(0, 3)):
            kw[r.choice(["x", "val", "pattern", "args", "a1", "é"])] = \
                self.farg(d, font)
        kw.pop("pattern", None)
        pieces, pat = [], []        # pat: intended characters of the pattern
        for _ in range(r.randrange(1, 6)):
            p = r.random()
            if p < .45 and (pos or kw):
                if pos and (p < .25 or not kw):
                    i = r.randrange(len(pos))
                    pat.append(r.choice(["%%%d", "%%{%d}", "%%{0%d}"]) % i)
                    pieces += pos[i][1]
                else:
                    k = r.choice(list(kw))
                    pat.append("%%{%s}" % k)
                    pieces += kw[k][1]
            elif p < .6:
                pat.append("%%")
                pieces.append((lambda m: "%", ()))
            elif p < .7:
                c = r.choice("abz !.-}é$")
                pat.append("%" + c)
                pieces.append((lambda m, c=c: "%" + c, ()))
            else:
                t = rtext(r, 6)
                if font:
                    t = t.replace("§", "")
                pat.append(t.replace("%", "%%"))
                pieces.append((lambda m, t=t: t, ()))
        if r.random() < .1:
            pat.append("%")
            pieces.append((lambda m: "%", ()))
        # adjacent "%" and text cannot combine: text never starts a format,
        # except a lone "%" which we only put last or before a listed char
        s, _ = self.strlit(0, "".join(pat))
        args = [s] + [a[0] for a in pos] + \
            ["%s=%s" % (k, a[0]) for k, a in kw.items()]
        return "print.format(%s)" % ", ".join(args), True, pieces

    def farg(self, d, font):
        r = self.r
        p = r.random()
        if p < .45 and not self.static:
            s, f = self.rexpr()
            return s, [(f, ())]
        if p < .55:
            s, v = self.cint()
            return s, [(lambda m: str(v), ())]
        if p < .62:
            s, v = self.cbool()
            return s, [(lambda m: str(int(v)), ())]
        s, _, x = self.fstr(d - 1, font)
        return s, x

    def declare_fstrs(self):
        """texts without run-time values, to be used any number of times"""
        self.static = True
        for _ in range(self.r.randrange(0, 4)):
            s, is_f, x = self.fstr(self.r.randrange(1, 4))
            if not is_f or "\n" in s:
                continue
            n = self.name("FS")
            self.pre.append("const %s = %s" % (n, s))
            self.fstrs.append((n, x))
        self.static = False

    # -- statements: (lines, run(mem, log)) --------------------------------
    def command(self, ind):
        r = self.r
        self.n["raw commands"] += 1
        head = self.name("zz") + r.choice([" ", "", ":", "  ", '"'])
        if r.random() < .25:
            self.n["multi-line commands"] += 1
            src, val = self.mixed("long", 2, head=head)
            line = ind + "/*" + src + "*/"
        else:
            src, val = self.mixed("cmd", 2, head=head)
            line = ind + "/" + src
        return [line], lambda m, log: log.append(("cmd", val))

    def font_text(self, x):
        return x

    def who(self):
        r = self.r
        return r.choice([
            (None, (1, 2, 3)),
            ("gall", (1, 2, 3)), ("gred", (1, 3)), ("gspace", (2,)),
            ("gnone", ()),
        ])

    def show(self, ind):
        r = self.r
        font = r.random() < .5
        s, _, x = self.fstr(r.choice([2, 2, 3, 4]) if font else 2, font)
        if any(len(sc) > 1 for _, sc in x) and len({sc for _, sc in x}) > 1:
            self.n["fonts inside fonts"] += 1
        who_s, who = self.who()
        self.n["texts shown"] += 1
        if r.random() < .3 and "\n" not in s:
            # through a constant, used at once
            n = self.name("F")
            lines = [ind + "const %s = %s" % (n, s)]
            s = n
        else:
            lines = []
        if r.random() < .65:
            args = [s]
            if who_s:
                args.append(r.choice(["target=", ""]) + who_s)
            lines.append(ind + "print.tell(%s)" % ", ".join(args))
            return lines, lambda m, log: log.append(("tell", who, x, dict(m)))
        self.n["titles"] += 1
        mode = r.choice(["TITLE", "SUBTITLE", "ACTIONBAR", None])
        kw = []
        if who_s:
            kw.append("target=" + who_s)
        if mode:
            kw.append("mode=" + r.choice(
                ["print." + mode, '"%s"' % mode.lower()]))
        conf = [10, 70, 20]
        for i, n in enumerate(("fade_in", "stay_time", "fade_out")):
            if r.random() < .35:
                conf[i] = r.choice([0, 5, 10, 70, 20, 100, 12345])
                kw.append("%s=%d" % (n, conf[i]))
        r.shuffle(kw)
        lines.append(ind + "print.title(%s)" % ", ".join([s] + kw))
        kind = (mode or "TITLE").lower()

        def run(m, log):
            log.append(("title", kind, who, tuple(conf), x, dict(m)))
        return lines, run

    def stmt(self, ind, depth, allow_def=True):
        r = self.r
        p = r.random()
        if p < .38:
            return self.command(ind)
        if p < .68:
            return self.show(ind)
        if p < .74:
            who_s, who = self.who()
            return [ind + "print.title_clear(%s)" % (who_s or "")], \
                lambda m, log: log.append(("clear", who))
        if p < .86 or depth <= 0:
            n = self.rvar()
            if n[0] == "i":
                v = r.choice([0, 1, 2, 3, 4, -7, 1000, 2147483647])
                return [ind + "%s = %d" % (n, v)], \
                    lambda m, log: m.__setitem__(n, v)
            v = r.random() < .5
            return [ind + "%s = %s" % (n, v)], \
                lambda m, log: m.__setitem__(n, v)
        q = r.random()
        if q < .6:
            n = r.choice([n for n in self.mem if n[0] == "b"])
            a, ra = self.block(ind + "    ", depth - 1)
            b, rb = self.block(ind + "    ", depth - 1)
            lines = [ind + "if %s:" % n] + a
            if r.random() < .6:
                lines += [ind + "else:"] + b
            else:
                rb = lambda m, log: None
            return lines, lambda m, log: (ra if m[n] else rb)(m, log)
        # for over constant strings / ints
        v = self.name("L")
        items = [self.strlit(1) for _ in range(r.randrange(1, 4))]
        pre, post = self.name("zz"), rtext(r, 4)
        post_s = self.enc.chars(post, "cmd")

        def run(m, log):
            for _, val in items:
                log.append(("cmd", "%s %s%s" % (pre, val, post)))
        return [ind + "for %s in {%s}:" % (v, ", ".join(
            i[0] for i in items)),
            ind + "    /%s ${%s}%s" % (pre, v, post_s)], run

    def block(self, ind, depth):
        ls, rs = [], []
        for _ in range(self.r.randrange(1, 4)):
            a, b = self.stmt(ind, depth)
            ls += a
            rs.append(b)

        def run(m, log):
            for b in rs:
                b(m, log)
        return ls, run

    def program(self):
        r = self.r
        self.declare()
        self.declare_fstrs()
        lines = ["import print"] + self.pre
        for n, f in (("gall", ""), ("gred", '.has_tag("red")'),
                     ("gspace", '.has_tag("sp ace")'),
                     ("gnone", '.has_tag("no")')):
            lines += ["%s := ExternEngroup()" % n,
                      "%s.select(Enfilter().all_players()%s)" % (n, f)]
        runs = []
        for i in range(3):
            v = r.choice([0, 1, 2, 3, 5, -8, 99, -2147483648])
            n = "i%d" % i
            self.mem[n] = v
            lines.append("%s := %s" % (n, v if v != -2**31 else "int.MIN"))
        for i in range(2):
            v = r.random() < .5
            self.mem["b%d" % i] = v
            lines.append("b%d := %s" % (i, v))
        mem0 = dict(self.mem)
        for _ in range(r.randrange(6, 14)):
            p = r.random()
            if p < .12:
                n = self.name("f")
                body, run = self.block("    ", 1)
                k = r.choice(["def", "inline def"])
                lines += ["%s %s():" % (k, n)] + body
                for _ in range(r.randrange(1, 3)):
                    lines.append("%s()" % n)
                    runs.append(run)
            else:
                a, run = self.stmt("", 2)
                lines += a
                runs.append(run)
        paths = []
        for i in range(r.randrange(0, 2)):
            n = self.name("p")
            body, run = self.block("    ", 1)
            c, run2 = self.command("    ")
            lines += ["interface %s:" % n] + c + body
            paths.append((n, run2, run))
        # execute the model
        log = []
        m = mem0
        for b in runs:
            b(m, log)
        for n, a, b in paths:
            a(m, log)
            b(m, log)
        return "\n".join(lines) + "\n", log, [p[0] for p in paths]


def wrap(v):
    return (v + 2**31) % 2**32 - 2**31


# -- the observed side ------------------------------------------------------
def styled(s):
    """interpret section-sign codes: list of (char, color, flags)"""
    out, color, flags, i = [], None, set(), 0
    while i < len(s):
        if s[i] == "§" and i + 1 < len(s):
            c = s[i + 1]
            i += 2
            if c == "r":
                color, flags = None, set()
            elif c in "klo":
                flags.add({"k": "obfuscated", "l": "bold", "o": "italic"}[c])
            else:
                color = c
            continue
        out.append((s[i], color, frozenset(flags)))
        i += 1
    return out


def text_diff(pieces, mem, shown):
    want = [(f(mem), s) for f, s in pieces]
    if not any(s for _, s in want):
        w = "".join(t for t, _ in want)
        return None if w == shown else "shown %r, intended %r" % (shown, w)
    got = styled(shown)
    exp = [(c, s) for t, s in want for c in t]
    if "".join(c for c, _ in exp) != "".join(g[0] for g in got):
        return "shown %r, intended %r" % (
            "".join(g[0] for g in got), "".join(c for c, _ in exp))
    allc = dict(COLORS, **NEW)
    for i, ((c, sc), (_, color, flags)) in enumerate(zip(exp, got)):
        if not sc:
            if color is not None or flags:
                return "character %d of %r has a style outside any font " \
                    "scope" % (i, shown)
            continue
        ic, ifl = sc[0]
        if ic and color != allc[ic]:
            return "character %d of %r should be %s" % (i, shown, ic)
        if not ic and color is not None and color not in [
                allc[s[0]] for s in sc if s[0]]:
            return "character %d of %r has a colour of no enclosing scope" \
                % (i, shown)
        if not ifl <= flags:
            return "character %d of %r should be %s" % (
                i, shown, sorted(ifl))
        if not flags <= frozenset().union(*[s[1] for s in sc]):
            return "character %d of %r has a style of no enclosing scope" \
                % (i, shown)
    return None


def expected(log):
    """flatten the model's log to the VM's event vocabulary"""
    for e in log:
        if e[0] == "title":
            _, kind, who, conf, x, m = e
            if conf != (10, 70, 20):
                yield ("times", who, conf)
            yield ("title", kind, who, x, m)
            if conf != (10, 70, 20):
                yield ("reset", who)
        else:
            yield e


def compare(log, events):
    exp = list(expected(log))
    got = []
    for e in events:
        if e[0] == "cmd":
            got.append(("cmd", e[1]))
        elif e[0] == "tell":
            got.append(("tell", e[1], e[2]))
        elif e[0] != "title":
            continue            # compiler-owned set-up
        elif e[1] == "times":
            got.append(("times", e[2], e[3]))
        elif e[1] == "reset":
            got.append(("reset", e[2]))
        elif e[1] == "clear":
            got.append(("clear", e[2]))
        else:
            got.append(("title", e[1], e[2], e[3]))
    # Explicitly stated default timings are as good as none.
    def simplify(evs):
        out = []
        for e in evs:
            out.append(e)
            if len(out) >= 3 and e[0] == "reset" and out[-3][0] == "times" \
                    and tuple(out[-3][2]) == (10, 70, 20):
                out[-3:] = [out[-2]]
        return out
    got = simplify(got)
    for i, (a, b) in enumerate(zip(exp, got)):
        if a[0] != b[0]:
            return "event %d: intended %s, saw %s" % (i, a[:2], b[:2])
        if a[0] == "cmd":
            if a[1] != b[1]:
                return "command %r reached the game as %r" % (a[1], b[1])
        elif a[0] == "tell":
            if a[1] != b[1]:
                return "text for players %s shown to %s" % (a[1], b[1])
            d = text_diff(a[2], a[3], b[2])
            if d:
                return d
        elif a[0] == "title":
            if a[1:3] != b[1:3]:
                return "title %s shown as %s" % (a[1:3], b[1:3])
            d = text_diff(a[3], a[4], b[3])
            if d:
                return d
        elif tuple(a[1:]) != tuple(b[1:]):
            return "intended %s, saw %s" % (a, b)
    if len(exp) != len(got):
        return "intended %d events, saw %d" % (len(exp), len(got))
    return None


def run_program(mon, seed):
    r = random.Random(seed)
    new = r.random() < .7
    g = G(r, new)
    src, log, paths = g.program()
    cfg = {"mc_version": (1, 20, 10) if new else (1, 19, 50)}
    cfg["optimizer"] = r.random() < .7
    res = kit.compile_src(src, **cfg)
    if not res.ok:
        mon.violation("refused" if res.kind == "error" else "crash",
                      "legal program %s: %s" % (res.kind, res.message),
                      source=src, traceback=res.tb or "")
        return
    v = vmmod.VM(res.functions(), players=3)
    ents = v.entities
    ents[0].tags.add("red")
    ents[2].tags.add("red")
    ents[1].tags.add("sp ace")
    v.run_function("main")
    for p in paths:
        v.run_function(p)
    d = compare(log, v.events)
    if d:
        mon.violation("diff", d, source=src)
        return
    bad = [f for f in v.faults]
    if bad:
        mon.violation("fault", "%s: %s" % bad[0], source=src)
        return
    mon.evaluated()
    mon.count("events compared", len(log))
    for k, n in g.n.items():
        mon.count(k, n)
    mon.nontrivial(src)
    mon.sample(src)


# -- fixed table of text features -------------------------------------------
def table():
    """(source lines, intended commands)"""
    out = []
    for name, code in [*COLORS.items(), *FONTS.items(), *NEW.items()]:
        out.append(("/zz \\#(%s)a ${\"\\#(%s)\"}" % (name, name),
                    "zz §%sa §%s" % (code, code)))
    out += [
        ("/zz \\#(red, bold,italic ,  reset)x", "zz §c§l§o§rx"),
        ("/zz \\#a\\##(b)", "zz §a§#(b)"),
        ("/zz \\\\#(red)", "zz \\#(red)"),
        ("/zz \\\\\\#(red)", "zz \\§c"),
        ("/zz \\\\\\\\", "zz \\\\"),
        ("/zz \\a\\b\\n\\t\\'\\\"", "zz \\a\\b\\n\\t\\'\\\""),
        ("/zz ${\"\\a\\b\\n\\t\\'\\\"\"}", "zz \\a\\b\\n\\t\\'\""),
        ("/zz $ $$ \\$ $x {x} \\${x} $\\{x}", "zz $ $$ $ $x {x} ${x} $\\{x}"),
        ("/zz \\x24{1} \\u0024{1} \\x5cx41", "zz ${1} ${1} \\x41"),
        ("/zz # c #* d *# \\\\", "zz # c #* d *# \\"),
        ("/zz ${\"# c #* d *#\"}", "zz # c #* d *#"),
        ("/zz ${1}${2}${\"\"}${\"${\"${\"deep\"}\"}\"}", "zz 12deep"),
        ("/zz ${\"}\"}${\"{\"}}", "zz }{}"),
        ("/zz ${{1, 2}[1]} ${{\"a\": \"b\"}[\"a\"]}", "zz 2 b"),
        ("/* zz\n  a\n\nb ${\n1 +\n2}*/", " zz   a  b 3"),
        ("/*zz **/", "zz *"),
        ("/*zz * / // /* # ${\"*/\"}*/", "zz * / // /* # */"),
        ("/*zz \\x2a/ \\\\*/", "zz */ \\"),
        ("/*zz\\\n  b*/", "zz\\   b"),
        ("/zz  trailing  ", "zz  trailing  "),
        ("/   zz", "   zz"),
        ("/zz \U0001F389\\U0001F389\\U0001f389", "zz " + "\U0001F389" * 3),
        ("/zz \\U0010FFFF\\uFFFD\\xff", "zz \U0010ffff\ufffd\xff"),
        ("/zz ${-5} ${+5} ${- -5} ${int.MIN}", "zz -5 5 5 -2147483648"),
        ("/zz ${True} ${not True} ${1 < 2 < 3}", "zz true false true"),
        ("/zz ${1.50} ${-0.5} ${1.5 + 1}", "zz 1.5 -0.5 2.5"),
        ("/zz ${\"a\" + \"b${1}\" + \"\"}", "zz ab1"),
    ]
    return out


def run_table(mon, wrapper):
    pre, ind, post, entry = {
        "top": ("", "", "", "main"),
        "if": ("x := 1\nif x == 1:\n", "    ", "", "main"),
        "fn": ("def f():\n", "    ", "f()\n", "main"),
        "iface": ("interface a/b:\n", "    ", "", "a/b"),
        "inline": ("inline def f():\n", "    ", "f()\n", "main"),
    }[wrapper]
    for line, want in table():
        src = pre + ind + line + "\n" + post
        res = kit.compile_src(src, mc_version=(1, 20, 0))
        if not res.ok:
            mon.violation("table", "%s: %s" % (res.kind, res.message),
                          source=src)
            continue
        v = vmmod.VM(res.functions(), players=1)
        v.run_function("main")
        if entry != "main":
            v.run_function(entry)
        got = [e[1] for e in v.events if e[0] == "cmd"]
        # a command prefixed with spaces is still that command
        if wrapper == "if":
            ok = [g.strip() for g in got] == [want.strip()]
        else:
            ok = got == [want]
        if not ok or v.faults:
            mon.violation("table", "command %r reached the game as %r %s" % (
                want, got, v.faults[:1]), source=src)
            continue
        mon.evaluated()
        mon.count("events compared")
        mon.count("raw commands")
        mon.nontrivial(src)


# -- refused texts -----------------------------------------------------------
REFUSED = [
    ("/zz \\#(pink)", (1, 20, 0)), ("/zz \\#(red", (1, 20, 0)),
    ("/zz \\#()", (1, 20, 0)), ("/zz \\#(red,)", (1, 20, 0)),
    ("/zz \\#(material_iron)", (1, 19, 70)), ("/zz \\x4", (1, 20, 0)),
    ("/zz \\u12", (1, 20, 0)), ("/zz \\U0011FFFF", (1, 20, 0)),
    ("/zz \\xg1", (1, 20, 0)), ("/zz ${1", (1, 20, 0)),
    ("/zz ${}", (1, 20, 0)), ("/zz ${\"a}", (1, 20, 0)),
    ("/zz ${x}", (1, 20, 0)), ("/zz ${nope}", (1, 20, 0)),
    ("/zz ${x == 1}", (1, 20, 0)), ("/zz ${int}", (1, 20, 0)),
    ("/zz ${{1}}", (1, 20, 0)), ("const s = \"abc", (1, 20, 0)),
    ("const s = \"a${1\"", (1, 20, 0)), ("const s = \"${x}\"", (1, 20, 0)),
    ("const s = \"\\x\"", (1, 20, 0)), ("const s = \"a\" + 1", (1, 20, 0)),
    ("const s = \"a\\\"", (1, 20, 0)),
    ("print.tell(print.format(\"%0\"))", (1, 20, 0)),
    ("print.tell(print.format(\"%{a}\", b=1))", (1, 20, 0)),
    ("print.tell(print.format(\"%{0\", 1))", (1, 20, 0)),
    ("print.tell(print.format(\"%{}\", 1))", (1, 20, 0)),
    ("print.tell(print.format(\"%{ 0}\", 1))", (1, 20, 0)),
    ("print.tell(print.format(\"%{-1}\", 1))", (1, 20, 0)),
    ("print.tell(print.format(\"%0\", print))", (1, 20, 0)),
    ("print.tell(print.format(\"%0\", int))", (1, 20, 0)),
    ("print.tell(print.format(x))", (1, 20, 0)), ("print.tell(x)", (1, 20, 0)),
    ("print.tell(1)", (1, 20, 0)),
    ("print.tell(print.with_font(\"a\", \"pink\"))", (1, 20, 0)),
    ("print.tell(print.with_font(\"a\", color=\"material_iron\"))",
     (1, 19, 70)),
    ("print.tell(\"a\" + print.format(\"b\") + 1)", (1, 20, 0)),
    ("print.tell(1 + print.format(\"b\"))", (1, 20, 0)),
    ("print.title(\"a\", mode=\"chat\")", (1, 20, 0)),
    ("print.title(\"a\", fade_in=x)", (1, 20, 0)),
    ("print.tell(\"a\", target=Enfilter().is_type(\"pig\"))", (1, 20, 0)),
]


def run_refused(mon):
    for line, ver in REFUSED:
        src = "import print\nx := 1\n%s\n" % line
        res = kit.compile_src(src, mc_version=ver)
        if res.kind == "ok":
            mon.violation("accepted", "malformed text accepted: %s" % line,
                          source=src)
            continue
        if res.kind != "error":
            mon.violation("crash", "%s crashes the compiler: %s" % (
                line, res.message), source=src, traceback=res.tb or "")
            continue
        m = re.search(r"main\.aca:(\d+):(\d+)", res.message)
        if not m or int(m.group(1)) != 3:
            mon.violation("located", "%s is on line 3 but is reported as: %s"
                          % (line, res.message), source=src)
            continue
        mon.evaluated()
        mon.count("refused texts")
        mon.nontrivial(src)


def cases(tier, seed):
    n = 900 if tier == "quick" else 12000
    out = [("prog", s) for s in runner.spread(seed, "c12", n)]
    out += [("table", w) for w in ("top", "if", "fn", "iface", "inline")]
    out.append(("refused", 0))
    return out


def run_case(case, mon):
    if case[0] == "prog":
        for i in range(4):
            run_program(mon, case[1] * 10 + i)
    elif case[0] == "table":
        run_table(mon, case[1])
    else:
        run_refused(mon)
