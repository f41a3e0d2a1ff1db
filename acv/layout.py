"""Rewrites the layout of a program: an independent scanner and a small
expression parser of the language, and a renderer that draws a random neutral
layout - or a wrong one - for the same tokens."""
import random
import string as _string

KEYWORDS = set("""True def interface inline entity extends self if elif else
while pass and or not result import as from None for in struct virtual
override const static new False""".split())
TWO = {"==", "!=", ">=", "<=", "->", ":=", "+=", "-=", "*=", "/=", "%="}
ONE = set("()[]{}:,+-*/%><=.@&")
PATHCHARS = set(_string.ascii_letters + _string.digits + ".-_/")
OPEN = {"(": ")", "[": "]", "{": "}"}


class Odd(Exception):
    """text this scanner does not handle"""


class Tok:
    """kind: word num op str path; parts: of a string or a command"""
    __slots__ = ("kind", "text", "parts", "pre", "post")

    def __init__(self, kind, text, parts=None):
        self.kind = kind
        self.text = text
        self.parts = parts
        self.pre = 0
        self.post = 0

    def __repr__(self):
        return "%s:%r" % (self.kind, self.text)


class Line:
    """one logical line; kind: code or cmd"""
    __slots__ = ("depth", "kind", "toks", "long")

    def __init__(self, depth, kind, toks, long=False):
        self.depth = depth
        self.kind = kind
        self.toks = toks
        self.long = long


class Scanner:
    def __init__(self, src):
        self.s = src
        self.i = 0

    def at(self, t):
        return self.s.startswith(t, self.i)

    def skip(self, nl):
        """blanks and comments; nl: line breaks too"""
        while self.i < len(self.s):
            if self.at(" ") or nl and self.at("\n"):
                self.i += 1
            elif self.at("\\\n"):
                self.i += 2
            elif self.at("#*"):
                k = self.s.find("*#", self.i + 2)
                if k < 0:
                    raise Odd("unclosed comment")
                self.i = k + 2
            elif self.at("#"):
                while self.i < len(self.s) and self.s[self.i] != "\n":
                    self.i += 1
            else:
                return

    def lines(self):
        out = []
        stack = [0]
        while True:
            # beginning of a logical line
            ind = 0
            while self.at(" "):
                ind += 1
                self.i += 1
            if self.i >= len(self.s):
                return out
            if self.at("#*") or self.at("\\\n"):
                self.skip(False)
            elif self.at("#"):
                self.skip(False)
            if self.i >= len(self.s):
                return out
            if self.at("\n"):
                self.i += 1
                continue
            if ind > stack[-1]:
                stack.append(ind)
            else:
                while stack and stack[-1] > ind:
                    stack.pop()
                if not stack or stack[-1] != ind:
                    raise Odd("dedent")
            d = len(stack) - 1
            if self.at("/"):
                self.i += 1
                long = self.at("*")
                if long:
                    self.i += 1
                parts = self.parts("*/" if long else "\n")
                out.append(Line(d, "cmd", [Tok("cmd", "", parts)], long))
                self.skip(False)
                if not (self.i >= len(self.s) or self.at("\n")):
                    raise Odd("text after command")
            else:
                out.append(Line(d, "code", self.tokens(None)))
            if self.at("\n"):
                self.i += 1

    def parts(self, end):
        """text and ${} pieces up to `end` (which is consumed, unless it is
        the line break)"""
        parts, cur = [], []
        while True:
            if self.i >= len(self.s):
                if end != "\n":
                    raise Odd("unclosed")
                break
            if self.at(end):
                if end != "\n":
                    self.i += len(end)
                break
            if end == '"' and self.at("\n"):
                raise Odd("unclosed string")
            if end == '"' and self.at('\\"') or self.at("\\\\") \
                    or self.at("\\$"):
                cur.append(self.s[self.i:self.i + 2])
                self.i += 2
            elif self.at("${"):
                self.i += 2
                if cur:
                    parts.append("".join(cur))
                    cur = []
                parts.append(self.tokens("}"))
            else:
                cur.append(self.s[self.i])
                self.i += 1
        if cur:
            parts.append("".join(cur))
        return parts

    def tokens(self, closer):
        """up to the end of the logical line, or the matching closer"""
        out = []
        stack = []
        path = False
        while True:
            self.skip(bool(stack) or closer is not None)
            if self.i >= len(self.s):
                if stack or closer:
                    raise Odd("unclosed bracket")
                return out
            c = self.s[self.i]
            if c == "\n":
                return out
            if path and c != '"':
                j = self.i
                while j < len(self.s) and self.s[j] in PATHCHARS \
                        and self.s[j] not in ":":
                    j += 1
                if j == self.i:
                    raise Odd("path")
                out.append(Tok("path", self.s[self.i:j]))
                self.i = j
                path = False
                continue
            path = False
            if c.isalpha() or c == "_":
                j = self.i
                while j < len(self.s) and (
                        self.s[j].isalpha() or self.s[j] == "_"
                        or self.s[j] in _string.digits):
                    j += 1
                w = self.s[self.i:j]
                self.i = j
                out.append(Tok("word", w))
                path = w == "interface"
            elif c in _string.digits:
                j = self.i
                while j < len(self.s) and (
                        self.s[j] in _string.ascii_letters + _string.digits):
                    j += 1
                if self.s[j:j + 1] == "." and \
                        self.s[j + 1:j + 2] in _string.digits and \
                        self.s[j + 1:j + 2] and \
                        self.s[self.i:j].isdigit():
                    j += 1
                    while j < len(self.s) and self.s[j] in _string.digits:
                        j += 1
                out.append(Tok("num", self.s[self.i:j]))
                self.i = j
            elif c == '"':
                self.i += 1
                out.append(Tok("str", "", self.parts('"')))
            elif self.s[self.i:self.i + 2] in TWO:
                out.append(Tok("op", self.s[self.i:self.i + 2]))
                self.i += 2
            elif c in ONE:
                self.i += 1
                if c in OPEN:
                    stack.append(OPEN[c])
                elif c in ")]}":
                    if not stack and c == closer:
                        return out
                    if not stack or stack.pop() != c:
                        raise Odd("brackets")
                out.append(Tok("op", c))
            else:
                raise Odd("character %r" % c)


# --- expressions ---------------------------------------------------------------

class Spans:
    """finds the token range of every expression of a line"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.spans = []     # (first, last) token indices, outer after inner
        self.commas = []    # index of a closing bracket that may take a comma

    def w(self, k=0):
        j = self.i + k
        return self.t[j].text if j < len(self.t) and \
            self.t[j].kind in ("word", "op") else None

    def eat(self, text=None):
        if self.i >= len(self.t) or text is not None and self.w() != text:
            raise Odd("expected %s at %d of %r" % (text, self.i, self.t))
        self.i += 1

    def name(self):
        if self.i >= len(self.t) or self.t[self.i].kind != "word":
            raise Odd("name expected")
        self.i += 1

    def span(self, a):
        if self.i > a:
            self.spans.append((a, self.i - 1))

    def listof(self, close, item):
        n = 0
        while self.w() != close:
            item()
            n += 1
            if self.w() == ",":
                self.eat()
                if self.w() == close:
                    n = 0
            else:
                break
        if n:
            self.commas.append(self.i)
        self.eat(close)

    def arg(self):
        if self.w(1) == "=" and self.t[self.i].kind == "word":
            self.i += 2
        self.expr()

    def atom(self):
        a = self.i
        if a >= len(self.t):
            raise Odd("expression expected")
        t = self.t[a]
        if t.kind == "str":
            while self.i < len(self.t) and self.t[self.i].kind == "str":
                self.i += 1
        elif t.kind in ("word", "num"):
            if t.text in KEYWORDS and t.text not in (
                    "True", "False", "None", "self"):
                raise Odd("keyword in expression")
            self.i += 1
        elif t.text == "(":
            self.i += 1
            self.expr()
            self.eat(")")
        elif t.text == "{":
            self.i += 1
            if self.w() == ":":
                self.eat()
                self.eat("}")
            else:
                def item():
                    self.expr()
                    if self.w() == ":":
                        self.eat()
                        self.expr()
                self.listof("}", item)
        else:
            raise Odd("atom %r" % t)
        self.span(a)

    def post(self):
        a = self.i
        self.atom()
        while True:
            if self.w() == "." and self.w(1) != "new":
                self.i += 1
                self.name()
            elif self.w() == "(":
                self.i += 1
                self.listof(")", self.arg)
            elif self.w() == "[":
                self.i += 1
                self.listof("]", self.expr)
            else:
                return
            self.span(a)

    def unary(self):
        a = self.i
        if self.w() in ("+", "-"):
            self.i += 1
            self.unary()
            self.span(a)
        else:
            self.post()

    def binary(self, sub, ops):
        a = self.i
        sub()
        while self.w() in ops:
            self.i += 1
            sub()
            self.span(a)

    def nary(self, sub, ops):
        a = self.i
        sub()
        n = 0
        while self.w() in ops:
            self.i += 1
            n = 1
            sub()
        if n:
            self.span(a)

    def mul(self):
        self.binary(self.unary, ("*", "/", "%"))

    def add(self):
        self.binary(self.mul, ("+", "-"))

    def comp(self):
        self.nary(self.add, ("==", "!=", "<", ">", "<=", ">="))

    def no(self):
        a = self.i
        if self.w() == "not":
            self.i += 1
            self.no()
            self.span(a)
        else:
            self.comp()

    def conj(self):
        self.nary(self.no, ("and",))

    def expr(self):
        self.nary(self.conj, ("or",))

    def decl(self):
        self.name()
        if self.w() == ":":
            self.eat()
            self.expr()
        self.eat("=")
        self.expr()

    def exprlist(self):
        self.expr()
        while self.w() == ",":
            self.eat()
            self.expr()

    def param(self):
        if self.w() in ("const", "&"):
            self.eat()
        self.name()
        if self.w() == ":":
            self.eat()
            self.expr()
        if self.w() == "=":
            self.eat()
            self.expr()

    def func(self):
        self.eat("(")
        self.listof(")", self.param)
        if self.w() == "->":
            self.eat()
            if self.w() in ("const", "&"):
                self.eat()
            self.expr()
        self.eat(":")

    def end(self):
        if self.i != len(self.t):
            raise Odd("rest %r" % self.t[self.i:])

    def line(self):
        w = self.w()
        if w in ("if", "elif", "while"):
            self.eat()
            self.expr()
            self.eat(":")
        elif w == "else":
            self.eat()
            self.eat(":")
        elif w == "pass":
            self.eat()
        elif w == "for":
            self.eat()
            self.name()
            self.eat("in")
            self.expr()
            self.eat(":")
        elif w == "result":
            self.eat()
            self.expr()
        elif w in ("import", "from"):
            self.i = len(self.t)
            if self.w(-1) == ")":
                if self.w(-2) != ",":
                    self.commas.append(self.i - 1)
        elif w == "interface":
            self.eat()
            if self.t[self.i].kind == "path":
                self.i += 1
            else:
                # a literal is wanted here, not an expression
                while self.i < len(self.t) and self.t[self.i].kind == "str":
                    self.i += 1
            self.eat(":")
        elif w in ("entity", "struct"):
            self.eat()
            self.name()
            if self.w() == "extends":
                self.eat()
                self.exprlist()
            self.eat(":")
        elif w == "&":
            self.eat()
            self.decl()
        elif w == "new" and self.t[-1].text == ":" or w == "inline" \
                and self.w(1) == "new":
            if w == "inline":
                self.eat()
            self.eat()
            self.func()
        elif w == "new":
            self.eat()
            self.eat("(")
            self.listof(")", self.arg)
        elif w in ("def", "inline", "virtual", "override", "static") or \
                w == "const" and self.w(1) == "def":
            while self.w() in ("inline", "virtual", "override", "static",
                               "const"):
                self.eat()
            self.eat("def")
            self.name()
            self.func()
        elif w == "const":
            self.eat()
            if self.w() == "(":
                self.eat()
                self.listof(")", self.decl)
            else:
                self.decl()
                while self.w() == ",":
                    self.eat()
                    self.decl()
        else:
            self.expr()
            if self.w() in ("=", "+=", "-=", "*=", "/=", "%=", ":="):
                self.eat()
                self.expr()
            elif self.w() == ":":
                # (declarations take a bare name on the left)
                self.spans = [s for s in self.spans if s[0] != 0]
                self.eat()
                self.expr()
                if self.w() == "=":
                    self.eat()
                    self.expr()
            elif self.w() == ".":
                self.eat()
                self.eat("new")
                self.eat("(")
                self.listof(")", self.arg)
        self.end()


def parse(src):
    return Scanner(src).lines()


# --- rendering -----------------------------------------------------------------

JUNK = ["note", "x := 1", "\"", "${", "}", "( [ {", "/* say", "*/", "if a:",
        "\\", "'", "*", "**", "\u00e9\u4e2d", "interface", "/say", "=", "  ",
        "* ", "##", "\\\\", "end\"", "#", ")", "]", "\U0001f600", "->", "1.",
        "\t"]


class Style:
    """probabilities of the neutral rewritings"""
    def __init__(self, rng, level=1.0):
        self.r = rng
        p = lambda m: rng.random() * m * level if rng.random() < .75 else 0
        self.long = p(.15)       # #* *# between tokens
        self.cont = p(.12)       # \ line break
        self.brk = p(.4)         # line break inside brackets
        self.wide = p(.5)        # more blanks
        self.tight = rng.random() if rng.random() < .7 else 0
        self.paren = p(.25)
        self.comma = p(.5)
        self.trail = p(.35)      # trailing blanks / comments
        self.blank = p(.35)      # blank and comment lines
        self.lead = p(.15)       # comment / continuation at the line start
        self.width = rng.choice([1, 2, 3, 4, 8, None])
        self.split = p(.3)       # "ab" -> "a" "b"
        self.base = p(.3)        # 10 -> 0xA
        self.longcmd = p(.3)     # /x -> /*x*/
        self.eofnl = rng.random() < .8
        self.crlf = rng.random() < .08
        self.stats = {}

    def hit(self, p, name):
        if p and self.r.random() < p:
            self.stats[name] = self.stats.get(name, 0) + 1
            return True
        return False

    def junk(self):
        return " ".join(self.r.choice(JUNK)
                        for _ in range(self.r.randint(0, 4)))

    def longcomment(self, multi):
        t = self.junk()
        if multi and self.r.random() < .5:
            t += "\n" + self.junk() + "\n" * self.r.randint(0, 2)
        t = t.replace("*#", "* #")
        while "*#" in t:
            t = t.replace("*#", "*")
        return "#*" + t + ("" if not t.endswith("*") or self.r.random() < .5
                           else " ") + "*#"

    def comment(self):
        t = self.junk()
        return "#" + (" " if t.startswith("*") else "") + t


def merges(a, b):
    """would the texts a, b read differently when put side by side?"""
    if not a or not b:
        return False
    x, y = a[-1], b[0]
    word = lambda c: c.isalpha() or c == "_" or c in _string.digits
    if word(x) and word(y):
        return True
    if x + y in TWO or x + y in ("*#", "#*", "${"):
        return True
    if x == "." and y in _string.digits or x in _string.digits and y == ".":
        return True
    if ord(x) > 127 or ord(y) > 127:
        return True
    return False


class Render:
    def __init__(self, lines, style):
        self.lines = lines
        self.st = style
        self.r = style.r
        self.out = []
        self.oddlines = 0

    def num(self, t):
        st = self.st
        if t.isdigit() and st.hit(st.base, "bases"):
            v = int(t)
            return self.r.choice([hex(v), "0X%X" % v, "0x%X" % v, oct(v),
                                  bin(v), "0" + t, "0B" + bin(v)[2:]])
        return t

    def pieces(self, toks, spans=True, stmt=True):
        """token texts after parens, commas, string splits"""
        st = self.st
        n = len(toks)
        pre = [0] * n
        post = [0] * n
        comma = set()
        if spans:
            sp = Spans(toks)
            try:
                if stmt:
                    sp.line()
                else:
                    sp.expr()
                    sp.end()
            except Odd:
                self.oddlines += 1
                sp.spans = []
                sp.commas = []
            for a, b in sp.spans:
                while st.hit(st.paren, "parens"):
                    pre[a] += 1
                    post[b] += 1
            for k in sp.commas:
                if st.hit(st.comma, "commas"):
                    comma.add(k)
        out = []        # (text, opens, closes) or a Tok for strings
        for k, t in enumerate(toks):
            if k in comma:
                out.append((",", None))
            out += [("(", None)] * pre[k]
            if t.kind == "num":
                out.append((self.num(t.text), None))
            elif t.kind == "str":
                cuts = [t.parts]
                if st.hit(st.split, "splits") and \
                        (k == 0 or toks[k - 1].text != "interface"):
                    cuts = self.cut(t.parts)
                for c in cuts:
                    out.append(("\"", c))
            else:
                out.append((t.text, None))
            out += [(")", None)] * post[k]
        return out

    def cut(self, parts):
        """split a string literal in two"""
        if not parts:
            return [[], parts] if self.r.random() < .5 else [parts]
        i = self.r.randrange(len(parts) + 1)
        if i < len(parts) and isinstance(parts[i], str) and \
                "\\" not in parts[i]:
            j = self.r.randrange(len(parts[i]) + 1)
            a, b = parts[i][:j], parts[i][j:]
            if not (a.endswith("$") or b.startswith("{")):
                return [parts[:i] + ([a] if a else []),
                        ([b] if b else []) + parts[i + 1:]]
            return [parts]
        return [parts[:i], parts[i:]]

    def string(self, parts):
        s = '"'
        for p in parts:
            s += p if isinstance(p, str) else self.fexpr(p, False)
        return s + '"'

    def fexpr(self, toks, multi):
        """${...}; multi: line breaks are fine (inside /* */)"""
        body = self.join(self.pieces(toks, stmt=False), depth=1 if multi
                         else 0, plain=not multi)
        a = self.sep("{", "", 1 if multi else 0, not multi, free=True)
        b = self.sep("", "}", 1 if multi else 0, not multi, free=True)
        return "${" + a + body + b + "}"

    def sep(self, x, y, depth, plain, free=False):
        """what to put between the texts x and y; plain: no line breaks"""
        st, r = self.st, self.r
        s = ""
        need = not free and merges(x, y)
        while st.hit(st.long, "longcomments"):
            s += " " * r.choice([0, 1, 1, 2]) + \
                st.longcomment(not plain)
        if not plain and st.hit(st.cont, "continuations"):
            s += " " * r.choice([0, 1, 1, 3]) + "\\\n" + \
                " " * r.choice([0, 0, 1, 4, 9, 17])
        elif not plain and depth and st.hit(st.brk, "breaks"):
            s += r.choice(["", " ", "  "])
            if st.hit(st.trail, "comments"):
                s += st.comment()
            s += "\n"
            while st.hit(st.blank, "blanklines"):
                s += " " * r.choice([0, 1, 7]) + \
                    (st.comment() if r.random() < .5 else "") + "\n"
            s += " " * r.choice([0, 0, 2, 5, 13])
        if st.hit(st.wide, "blanks"):
            s += " " * r.randint(1, 5)
        if not s or need and not s.strip(" ") and not s:
            if need or r.random() >= st.tight:
                s = " " if need or r.random() < .6 else ""
            else:
                st.stats["tight"] = st.stats.get("tight", 0) + 1
        if need and not s:
            s = " "
        if need and s.startswith("#") and False:
            s = " " + s
        return s

    def join(self, pieces, depth=0, plain=False):
        s = ""
        prev = ""
        for k, (text, parts) in enumerate(pieces):
            t = self.string(parts) if parts is not None else text
            if k:
                # an interface path has no free end: it takes any character
                s += self.sep(prev, t, depth, plain)
            s += t
            prev = t
            if parts is None:
                if text in OPEN:
                    depth += 1
                elif text in (")", "]", "}"):
                    depth -= 1
        return s

    def command(self, ln):
        st = self.st
        long = ln.long
        parts = ln.toks[0].parts
        text = "".join(p if isinstance(p, str) else "" for p in parts)
        if not long and "*/" not in text and not text.startswith("*") and \
                not text.endswith("*") and not text.startswith(" ") and \
                "\\" not in text and text.strip() and \
                st.hit(st.longcmd, "longcommands"):
            long = True
        s = "/*" if long else "/"
        for p in parts:
            if isinstance(p, str):
                if long and not ln.long and self.r.random() < .5:
                    # a line break stands for a blank
                    k = [i for i, c in enumerate(p) if c == " "]
                    if k:
                        i = self.r.choice(k)
                        p = p[:i] + "\n" + p[i + 1:]
                s += p
            else:
                s += self.fexpr(p, long)
        if long:
            s += "*/"
        return s

    def render(self):
        st, r = self.st, self.r
        widths = [0]
        out = []

        def filler():
            while st.hit(st.blank, "blanklines"):
                k = r.random()
                ind = " " * r.choice([0, 0, 1, 3, 4, 6, 11])
                if k < .35:
                    out.append(ind + "\n")
                elif k < .7:
                    out.append(ind + st.comment() + "\n")
                else:
                    out.append(ind + st.longcomment(True) + r.choice(
                        ["", " ", "  #", " #* *#", "#x"]) + "\n")
        for ln in self.lines:
            filler()
            while len(widths) - 1 > ln.depth:
                widths.pop()
            while len(widths) - 1 < ln.depth:
                widths.append(widths[-1] + (st.width or r.randint(1, 7)))
            s = " " * widths[-1]
            while st.hit(st.lead, "leads"):
                k = r.random()
                if k < .5:
                    s += st.longcomment(False) + " " * r.randint(0, 3)
                elif k < .75:
                    s += st.longcomment(True) + " " * r.randint(0, 3)
                else:
                    s += "\\\n" + " " * r.randint(0, 9)
            if ln.kind == "cmd":
                s += self.command(ln)
                long = s.endswith("*/")
            else:
                s += self.join(self.pieces(ln.toks))
                long = True
            if long:
                if st.hit(st.trail, "trailing"):
                    s += " " * r.randint(1, 4)
                while st.hit(st.long, "longcomments"):
                    s += " " + st.longcomment(True)
                if st.hit(st.trail, "comments"):
                    s += " " * r.randint(0, 3) + st.comment()
                elif st.hit(st.cont / 2, "endcont"):
                    s += " \\\n" + " " * r.randint(0, 9)
            out.append(s + "\n")
        filler()
        t = "".join(out)
        if not st.eofnl and t.endswith("\n"):
            t = t[:-1]
            st.stats["noeof"] = 1
            if t.endswith("\\"):
                t += "\n"
        if st.crlf:
            st.stats["crlf"] = 1
            t = t.replace("\n", "\r\n")
        return t


def relayout(src, rng, level=1.0):
    """-> (text, stats)"""
    st = Style(rng, level)
    rd = Render(parse(src), st)
    t = rd.render()
    st.stats["oddlines"] = rd.oddlines
    return t, st.stats


# --- wrong layouts ---------------------------------------------------------------

def plain(lines, width=4):
    """[(indent, text)] one entry per logical line, no rewriting"""
    st = Style(random.Random(0), 0)
    st.tight = 0
    rd = Render(lines, st)
    out = []
    for ln in lines:
        out.append([ln.depth * width, rd.command(ln) if ln.kind == "cmd"
                    else joined(rd, ln.toks)])
    return out


def joined(rd, toks):
    """one blank between any two tokens"""
    out = []
    for t in toks:
        out.append(rd.string(t.parts) if t.kind == "str" else t.text)
    return " ".join(out)


FAULTS = ["dedent", "indent", "noblock", "contchar", "contblank", "tab",
          "tabindent", "unclosed", "closer", "mismatch", "opencomment",
          "quote", "break", "join", "eofcont", "opencmd", "fexprline",
          "char", "commasep"]


def faulty(src, kind, rng):
    """a text with one layout fault -> (text, lines the error may name) or
    None when there is no place for it.  Line numbers are 1-based; an upper
    bound None stands for the end of the file."""
    lines = parse(src)
    if not lines:
        return None
    pl = plain(lines)
    n = len(pl)
    first = []
    at = 1
    for ind, t in pl:
        first.append(at)
        at += t.count("\n") + 1
    code = [k for k in range(n) if lines[k].kind == "code"]
    depth = [ln.depth for ln in lines]

    def opens(k):
        return k + 1 < n and depth[k + 1] > depth[k]

    def text(extra=None):
        return "".join(" " * i + t + "\n" for i, t in pl)

    def toks(k):
        rd = Render(lines, Style(random.Random(0), 0))
        return [rd.string(t.parts) if t.kind == "str" else t.text
                for t in lines[k].toks]

    def levels(k):
        """bracket depth before each token"""
        d, out = 0, []
        for t in lines[k].toks:
            if t.kind == "op" and t.text in ")]}":
                d -= 1
                out.append(d + 1)
                continue
            out.append(d)
            if t.kind == "op" and t.text in OPEN:
                d += 1
        return out

    def pick(c):
        return rng.choice(c) if c else None
    k = None
    last = None     # where the report may be at the latest, None = exact
    if kind == "dedent":
        k = pick([i for i in range(1, n) if depth[i] < depth[i - 1]])
        if k is not None:
            pl[k][0] += rng.choice([1, 2, 3]) if rng.random() < .7 or \
                depth[k] == 0 else -rng.choice([1, 2, 3])
    elif kind == "indent":
        k = pick([i for i in range(n) if i == 0 or
                  depth[i] == depth[i - 1]])
        if k is not None:
            pl[k][0] += rng.randint(1, 8)
    elif kind == "noblock":
        k = pick([i for i in range(1, n) if depth[i] > depth[i - 1]])
        if k is not None:
            pl[k][0] = pl[k - 1][0]
    elif kind in ("contchar", "contblank", "char", "closer", "tab"):
        if kind == "closer":
            k = pick([i for i in code])
            j = 0
            if k is not None:
                j = pick([q for q, d in enumerate(levels(k)) if d == 0])
        else:
            k = pick(code)
            j = rng.randrange(len(lines[k].toks)) if k is not None else 0
        if k is None:
            return None
        t = toks(k)
        if lines[k].toks[j - 1].text == "interface" and j:
            j = 0
        ins = {"contchar": "\\ " + rng.choice(["x", "#c", "\\", "1"]),
               "contblank": "\\ ", "char": rng.choice("$?;'~|^`!\x0c\u00a0"),
               "closer": rng.choice(")]}"), "tab": "\t"}[kind]
        if kind == "contblank":
            # nothing, not even a blank, between \ and the line's end
            pl[k][1] = " ".join(t[:j]) + " \\" + " " * rng.randint(1, 3) \
                + "\n" + " ".join(t[j:])
            if j == 0:
                pl[k][1] = pl[k][1].lstrip()
        else:
            if ins == "!" and t[j][0] == "=":
                ins = "?"
            pl[k][1] = " ".join(t[:j] + [ins] + t[j:])
    elif kind == "tabindent":
        k = pick([i for i in range(n) if depth[i]])
        if k is None:
            return None
        pl[k][1] = "\t" + pl[k][1]
        pl[k][0] -= rng.choice([0, 4])
    elif kind in ("unclosed", "mismatch"):
        k = pick([i for i in code if any(
            t.kind == "op" and t.text in ")]}" for t in lines[i].toks)])
        if k is None:
            return None
        j = pick([q for q, t in enumerate(lines[k].toks)
                  if t.kind == "op" and t.text in ")]}"])
        t = toks(k)
        if kind == "unclosed":
            del t[j]
            last = 1 << 30
        else:
            t[j] = rng.choice([c for c in ")]}" if c != t[j]])
        pl[k][1] = " ".join(t)
    elif kind == "opencomment":
        k = pick(code)
        if k is None or any("*#" in t for _, t in pl):
            return None
        pl[k][1] += " #*" + rng.choice(["", " zzz", "*", " / *"])
    elif kind == "quote":
        k = pick([i for i in code if any(t.kind == "str"
                                         for t in lines[i].toks)])
        if k is None:
            return None
        j = pick([q for q, t in enumerate(lines[k].toks) if t.kind == "str"])
        t = toks(k)
        if any("#" in x for x in t):
            return None     # (what was text may now begin a comment)
        if rng.random() < .5:
            t[j] = t[j][:-1]
            if sum(x.kind == "str" for x in lines[k].toks) > 1 or \
                    len(lines[k].toks[j].parts) > 1:
                last = 1 << 30
        else:
            t[j] = t[j][1:]
            last = 1 << 30  # (or open a bracket, or continue the line)
        if t[j].endswith("\\"):
            return None
        pl[k][1] = " ".join(t)
    elif kind == "break":
        c = []
        for i in code:
            lv = levels(i)
            tk = lines[i].toks
            for q in range(len(tk) - 1):
                if lv[q] or lv[q + 1]:
                    continue
                x = tk[q]
                if x.kind == "op" and x.text not in (":", ")", "]", "}") or \
                        x.kind == "word" and x.text in (
                            "if", "elif", "while", "for", "in", "and", "or",
                            "not", "def", "inline", "entity", "struct",
                            "import", "from", "as", "const", "virtual",
                            "override", "static", "interface", "extends",
                            "result"):
                    c.append((i, q))
        x = pick(c)
        if x is None:
            return None
        k, q = x
        t = toks(k)
        pl[k][1] = " ".join(t[:q + 1]) + "\n" + " " * pl[k][0] + \
            " ".join(t[q + 1:])
    elif kind == "join":
        k = pick([i for i in range(n - 1) if lines[i].kind == "code"
                  and lines[i + 1].kind == "code"
                  and depth[i] == depth[i + 1] and not opens(i)
                  and lines[i + 1].toks[0].kind == "word"
                  and lines[i].toks[-1].text != ":"])
        if k is None:
            return None
        pl[k][1] += " " * rng.randint(1, 3) + pl[k + 1][1]
        del pl[k + 1]
    elif kind == "eofcont":
        k = n - 1
        if lines[k].kind != "code":
            return None
        return text()[:-1] + rng.choice([" \\", "\\"]), \
            (first[k], first[k] + 1)
    elif kind == "opencmd":
        k = rng.randrange(n)
        if any("*/" in t for _, t in pl[k:]):
            return None
        pl.insert(k, [pl[k][0], "/* say hi" if rng.random() < .6
                      else "/* say ${ 1"])
        if "$" in pl[k][1]:
            last = 1 << 30
    elif kind == "fexprline":
        c = []
        for i in code:
            for q, t in enumerate(lines[i].toks):
                if t.kind == "str" and any(not isinstance(p, str)
                                           for p in t.parts):
                    c.append((i, q))
        x = pick(c)
        if x is None:
            return None
        k, q = x
        t = toks(k)
        i = t[q].find("${")
        while i > 0 and t[q][i - 1] == "\\":
            i = t[q].find("${", i + 2)
        if i < 0:
            return None
        t[q] = t[q][:i + 2] + "\n" + t[q][i + 2:]
        pl[k][1] = " ".join(t)
    elif kind == "commasep":
        # two commas in a row, or one right after an opening bracket
        c = []
        for i in code:
            for q, t in enumerate(lines[i].toks):
                if t.kind == "op" and (t.text == "," or t.text in OPEN):
                    c.append((i, q))
        x = pick(c)
        if x is None:
            return None
        k, q = x
        t = toks(k)
        t.insert(q + 1, ",")
        pl[k][1] = " ".join(t)
    if k is None:
        return None
    return text(), (first[k], first[k] if last is None else last)
