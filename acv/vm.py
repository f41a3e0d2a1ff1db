"""A monitored virtual machine for the Minecraft Bedrock commands that the
Acacia compiler emits.

The VM executes the .mcfunction files, keeps scoreboards / tags / entities,
advances game ticks, and records an event log.  On the way it runs online
monitors; everything a monitor objects to is appended to `vm.faults` as
(kind, message) - the checks decide which kinds refute which property.

Fault kinds
  syntax          a command (or selector, coordinate, JSON text) is malformed
  literal-range   an integer literal in a command does not fit in 32 bits
  missing-func    `function`/`schedule` names a file that does not exist
  undeclared-obj  an objective is used before `objectives add`
  unset-read      a score that was never written is read
  selector-zero   a compiler-made reference resolved to no entity (informative)
  budget          more commands executed than the caller allowed
"""
import json
import math
import re

INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1


def wrap(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v & 0x80000000 else v


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def cmod(a, b):
    r = abs(a) % abs(b)
    return r if a >= 0 else -r


class SyntaxFault(Exception):
    pass


class BudgetExceeded(Exception):
    pass


class Entity:
    _n = 0

    def __init__(self, uid, type_, name="", pos=(0.0, 0.0, 0.0),
                 rot=(0.0, 0.0), dim="overworld", tags=(), families=(),
                 level=0, mode="survival", items=None, event=None):
        self.uid = uid
        self.type = type_
        self.name = name
        self.pos = tuple(map(float, pos))
        self.rot = tuple(map(float, rot))   # (xrot=vertical, yrot=horizontal)
        self.dim = dim
        self.tags = set(tags)
        self.families = set(families)
        self.level = level
        self.mode = mode
        self.items = items if isinstance(items, list) else dict(items or {})
        self.permissions = set()
        self.event = event
        self.alive = True

    @property
    def eye(self):
        return 1.62 if self.type == "player" else 1.0

    def __repr__(self):
        return "<%s#%s %s %s>" % (self.type, self.uid, self.name, self.pos)


class Ctx:
    __slots__ = ("ent", "pos", "rot", "dim", "anchor")

    def __init__(self, ent=None, pos=(0.0, 0.0, 0.0), rot=(0.0, 0.0),
                 dim="overworld", anchor="feet"):
        self.ent, self.pos, self.rot = ent, pos, rot
        self.dim, self.anchor = dim, anchor

    def but(self, **kw):
        c = Ctx(self.ent, self.pos, self.rot, self.dim, self.anchor)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


# --- lexing ------------------------------------------------------------

def lex(line):
    """Split a command into tokens: (text, start, quoted)."""
    out = []
    i, n = 0, len(line)
    while i < n:
        c = line[i]
        if c == " ":
            i += 1
            continue
        st = i
        if c == '"':
            i += 1
            buf = []
            while True:
                if i >= n:
                    raise SyntaxFault("unterminated string in %r" % line)
                if line[i] == "\\":
                    if i + 1 >= n:
                        raise SyntaxFault("bad escape in %r" % line)
                    buf.append(line[i + 1])
                    i += 2
                elif line[i] == '"':
                    i += 1
                    break
                else:
                    buf.append(line[i])
                    i += 1
            out.append(("".join(buf), st, True))
            continue
        if c in "{[":
            # JSON-ish / block state tail: read balanced
            i = _balanced(line, i)
            out.append((line[st:i], st, False))
            continue
        while i < n and line[i] != " ":
            if line[i] == "[":
                i = _balanced(line, i)
            else:
                i += 1
        out.append((line[st:i], st, False))
    return out


def lex_prefix(line):
    """Tokens of an execute command: what follows `run` may be any text (a
    command the user wrote), so tokens are read up to the first one that
    does not lex, which then stands for the rest of the line."""
    try:
        return lex(line)
    except SyntaxFault:
        pass
    words = line.split(" ")
    at = len(line)
    for k in range(len(words) - 1, 0, -1):
        at -= len(words[k])
        try:
            t = lex(line[:at])
        except SyntaxFault:
            at -= 1
            continue
        if t and t[-1][0] == "run" or any(x[0] == "run" for x in t):
            rest = line[at:].lstrip(" ")
            return t + [(rest, len(line) - len(rest), False)]
        break
    return lex(line)


def _balanced(line, i):
    depth = 0
    n = len(line)
    while i < n:
        c = line[i]
        if c == '"':
            i += 1
            while i < n and line[i] != '"':
                if line[i] == "\\":
                    i += 1
                i += 1
            if i >= n:
                raise SyntaxFault("unterminated string in %r" % line)
        elif c in "{[":
            depth += 1
        elif c in "}]":
            depth -= 1
            if depth == 0:
                return i + 1
            if depth < 0:
                raise SyntaxFault("unbalanced bracket in %r" % line)
        i += 1
    raise SyntaxFault("unbalanced bracket in %r" % line)


def _split_top(s, sep=","):
    out, depth, cur, q = [], 0, [], False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur.append(c)
            if c == "\\" and i + 1 < len(s):
                cur.append(s[i + 1])
                i += 1
            elif c == '"':
                q = False
        elif c == '"':
            q = True
            cur.append(c)
        elif c in "{[":
            depth += 1
            cur.append(c)
        elif c in "}]":
            depth -= 1
            cur.append(c)
        elif c == sep and depth == 0:
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
        i += 1
    out.append("".join(cur))
    return out


def unquote(s):
    s = s.strip()
    if len(s) >= 2 and s[0] == '"' and s[-1] == '"':
        return re.sub(r"\\(.)", r"\1", s[1:-1])
    if '"' in s:
        raise SyntaxFault("stray quote in selector value %r" % s)
    return s


_RE_INT = re.compile(r"[+-]?\d+\Z")
_RE_NUM = re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)\Z")


def parse_range(s):
    """'a..b', 'a..', '..b', 'a', '!x' -> predicate."""
    neg = s.startswith("!")
    if neg:
        s = s[1:]

    def num(t):
        t = t.strip()
        if not _RE_INT.match(t):
            raise SyntaxFault("bad integer in range %r" % s)
        v = int(t)
        if not INT_MIN <= v <= INT_MAX:
            raise SyntaxFault("literal-range:%d in range %r" % (v, s))
        return v
    if ".." in s:
        parts = s.split("..")
        if len(parts) != 2 or (not parts[0] and not parts[1]):
            raise SyntaxFault("bad range %r" % s)
        lo = num(parts[0]) if parts[0] else INT_MIN
        hi = num(parts[1]) if parts[1] else INT_MAX
        if lo > hi:
            raise SyntaxFault("empty range %r" % s)
    else:
        lo = hi = num(s)
    return (lambda v: not lo <= v <= hi) if neg else (lambda v: lo <= v <= hi)


SEL_ARGS = {"tag", "type", "name", "family", "c", "r", "rm", "x", "y", "z",
            "dx", "dy", "dz", "scores", "m", "l", "lm", "rx", "rxm", "ry",
            "rym", "hasitem", "haspermission"}


class Selector:
    def __init__(self, text):
        self.text = text
        m = re.match(r"@(initiator|[aeprs])", text)
        if not m:
            raise SyntaxFault("bad selector %r" % text)
        self.var = m.group(1)
        rest = text[m.end():]
        self.args = []
        if rest:
            if not (rest[0] == "[" and rest[-1] == "]"):
                raise SyntaxFault("bad selector %r" % text)
            body = rest[1:-1]
            if body.strip():
                for part in _split_top(body):
                    if "=" not in part:
                        raise SyntaxFault("bad selector %r" % text)
                    k, v = part.split("=", 1)
                    k, v = k.strip(), v.strip()
                    if k not in SEL_ARGS:
                        raise SyntaxFault("bad selector arg %r in %r"
                                          % (k, text))
                    if v == "" and k != "tag":
                        raise SyntaxFault("empty selector arg in %r" % text)
                    self.args.append((k, v))
        for once in ("c", "r", "rm", "x", "y", "z", "dx", "dy", "dz",
                     "l", "lm", "rx", "rxm", "ry", "rym", "scores"):
            if sum(1 for k, _ in self.args if k == once) > 1:
                raise SyntaxFault("duplicate %s in %r" % (once, text))
        for once in ("type", "name", "m"):
            if sum(1 for k, v in self.args if k == once
                   and not v.startswith("!")) > 1:
                raise SyntaxFault("duplicate %s in %r" % (once, text))

    def get(self, k):
        for kk, v in self.args:
            if kk == k:
                return v
        return None

    def num(self, k, default=None):
        v = self.get(k)
        if v is None:
            return default
        if not _RE_NUM.match(v):
            raise SyntaxFault("bad number %s=%s in %r" % (k, v, self.text))
        return float(v)


def is_sel(tok):
    return tok.startswith("@")


LIBRARY_CMDS = (
    "kill", "tp", "teleport", "effect", "damage", "enchant", "event",
    "replaceitem", "ride", "spreadplayers", "ability", "clear",
    "clearspawnpoint", "gamemode", "give", "recipe", "spawnpoint", "xp",
    "playsound", "titleraw")


class VM:
    def __init__(self, files, budget=200000, rng=None, players=1,
                 user_objectives=(), strict_unset=True):
        """files: dict path (no extension) -> text."""
        self.files = {}
        self.code = {}
        for p, t in files.items():
            self.files[p] = t.split("\n")
            self.code[p] = [ln for ln in self.files[p]
                            if ln.strip() and not ln.startswith("#")]
        self.objectives = {}
        for o in user_objectives:
            self.objectives[o] = "dummy"
        self.scores = {}        # (holder-key, objective) -> int
        self.entities = []
        self._uid = 0
        self.budget = budget
        self.executed = 0
        self.faults = []
        self._fault_seen = set()
        self.events = []        # event log
        self.rng = rng
        self.tick = 0
        self.scheduled = []     # (due_tick, path)
        self.area_scheduled = []
        self.parse_cache = {}
        self.stats = {"cmds": 0, "writes": 0, "reads": 0, "calls": 0,
                      "max_depth": 0, "selects": 0}
        self.strict_unset = strict_unset
        self.depth = 0
        self.random_log = []    # (candidates, chosen) of every @r
        self.on_cmd = None      # callback(vm, ctx, line) before every command
        self.on_blocks = None   # callback(dim, three points, mode) -> bool
        self.on_raw = None      # callback(vm, ctx, line) -> bool handled
        self.write_log = None   # list to record (holder, obj, value)
        self.created_by_summon = []
        self.blocks = {}        # (x,y,z,dim) -> block string
        self.title_state = []
        for i in range(players):
            self.add_entity("player", name="Player%d" % (i + 1),
                            pos=(100.5 + 7 * i, 64.0, 200.5))

    # --- world ---------------------------------------------------------
    def add_entity(self, type_, **kw):
        self._uid += 1
        e = Entity(self._uid, type_, **kw)
        self.entities.append(e)
        return e

    def fault(self, kind, msg):
        if (kind, msg) not in self._fault_seen:
            self._fault_seen.add((kind, msg))
            self.faults.append((kind, msg))

    def alive(self):
        return [e for e in self.entities if e.alive]

    # --- selectors -----------------------------------------------------
    def select(self, sel_text, ctx):
        key = ("sel", sel_text)
        sel = self.parse_cache.get(key)
        if sel is None:
            sel = self.parse_cache[key] = Selector(sel_text)
        self.stats["selects"] += 1
        v = sel.var
        types = [t for k, t in sel.args if k == "type"]
        if v == "s":
            cand = [ctx.ent] if ctx.ent is not None and ctx.ent.alive else []
        elif v == "initiator":
            cand = []
        elif v in ("a", "p"):
            cand = [e for e in self.alive() if e.type == "player"]
        elif v == "r":
            cand = self.alive()
            if not types:
                cand = [e for e in cand if e.type == "player"]
        else:
            cand = self.alive()
        # relative origin
        ox, oy, oz = ctx.pos
        origin = [ox, oy, oz]
        has_origin = False
        for i, ax in enumerate("xyz"):
            c = sel.get(ax)
            if c is not None:
                has_origin = True
                origin[i] = self.coord1(c, ctx.pos[i])
        r, rm = sel.num("r"), sel.num("rm")
        dvol = [sel.num("d" + a) for a in "xyz"]
        use_vol = any(d is not None for d in dvol)

        def dist(e):
            return math.sqrt(sum((a - b) ** 2 for a, b in zip(e.pos, origin)))
        out = []
        for e in cand:
            if self._match(e, sel, ctx, dist, r, rm, dvol, use_vol, origin,
                           has_origin):
                out.append(e)
        c = sel.num("c")
        if v == "r":
            if self.rng is not None:
                out = list(out)
                self.rng.shuffle(out)
            lim = 1 if c is None else int(c)
            full = frozenset(e.uid for e in out)
            out = out[:lim]
            self.random_log.append((full, frozenset(e.uid for e in out)))
        else:
            if v == "p" and c is None:
                c = 1
            if c is not None:
                c = int(c)
                if c == 0:
                    raise SyntaxFault("c=0 in %r" % sel_text)
                out = sorted(out, key=dist, reverse=c < 0)[:abs(c)]
        return out

    def _match(self, e, sel, ctx, dist, r, rm, dvol, use_vol, origin,
               has_origin):
        if (r is not None or rm is not None or use_vol or has_origin) \
                and e.dim != ctx.dim and sel.var != "s":
            return False
        pos_types, any_pos_type = False, False
        for k, val in sel.args:
            neg = val.startswith("!")
            w = val[1:] if neg else val
            if k == "tag":
                t = unquote(w)
                ok = (t in e.tags) if t else not e.tags
                if ok == neg:
                    return False
            elif k == "type":
                w = unquote(w)
                w = w[10:] if w.startswith("minecraft:") else w
                if (e.type == w) == neg:
                    return False
            elif k == "name":
                if (e.name == unquote(w)) == neg:
                    return False
            elif k == "family":
                if (unquote(w) in e.families) == neg:
                    return False
            elif k == "m":
                if e.type != "player":
                    return False
                if (e.mode == unquote(w)) == neg:
                    return False
            elif k == "l":
                if e.type != "player" or e.level > float(val):
                    return False
            elif k == "lm":
                if e.type != "player" or e.level < float(val):
                    return False
            elif k == "rx":
                if e.rot[0] > sel.num("rx"):
                    return False
            elif k == "rxm":
                if e.rot[0] < sel.num("rxm"):
                    return False
            elif k == "ry":
                if e.rot[1] > sel.num("ry"):
                    return False
            elif k == "rym":
                if e.rot[1] < sel.num("rym"):
                    return False
            elif k == "scores":
                if not (val[0] == "{" and val[-1] == "}"):
                    raise SyntaxFault("bad scores in %r" % sel.text)
                for part in _split_top(val[1:-1]):
                    if "=" not in part:
                        raise SyntaxFault("bad scores in %r" % sel.text)
                    o, rg = part.rsplit("=", 1)
                    o = unquote(o)
                    if o not in self.objectives:
                        self.fault("undeclared-obj", "%s in %s"
                                   % (o, sel.text))
                    have = self.scores.get((e.uid, o))
                    if have is None or not parse_range(rg)(have):
                        return False
            elif k == "hasitem":
                items = val
                defs = (_split_top(items[1:-1]) if items.startswith("[")
                        else [items])
                for d in defs:
                    d = d.strip()
                    if not (d[0] == "{" and d[-1] == "}"):
                        raise SyntaxFault("bad hasitem in %r" % sel.text)
                    kv = {}
                    for p in _split_top(d[1:-1]):
                        a, _, b = p.partition("=")
                        kv[a.strip()] = b.strip()
                    if "item" not in kv:
                        raise SyntaxFault("bad hasitem in %r" % sel.text)
                    q = self._item_count(e, kv)
                    if not parse_range(kv.get("quantity", "1.."))(q):
                        return False
            elif k == "haspermission":
                if not (val[0] == "{" and val[-1] == "}"):
                    raise SyntaxFault("bad haspermission in %r" % sel.text)
                for part in _split_top(val[1:-1]):
                    a, _, b = part.partition("=")
                    if b not in ("enabled", "disabled"):
                        raise SyntaxFault("bad haspermission in %r"
                                          % sel.text)
                    if e.type != "player" or \
                            (a in e.permissions) != (b == "enabled"):
                        return False
        if r is not None and dist(e) > r:
            return False
        if rm is not None and dist(e) < rm:
            return False
        if use_vol:
            for i in range(3):
                d = dvol[i] or 0.0
                lo, hi = min(origin[i], origin[i] + d), \
                    max(origin[i], origin[i] + d)
                # entity must be inside the box (block-inclusive)
                if not (lo - 1e-9 <= e.pos[i] <= hi + 1.0):
                    return False
        return True

    @staticmethod
    def _item_count(e, kv):
        """items: dict item -> count, or list of (item, count, data,
        location, slot)"""
        if isinstance(e.items, dict):
            return e.items.get(kv["item"], 0)
        n = 0
        for item, q, data, loc, slot in e.items:
            if item == kv["item"] and \
                    ("data" not in kv or int(kv["data"]) == data) and \
                    ("location" not in kv or kv["location"] == loc) and \
                    ("slot" not in kv or parse_range(kv["slot"])(slot)):
                n += q
        return n

    # --- coordinates ---------------------------------------------------
    def coord1(self, s, base):
        if s.startswith("~"):
            if s == "~":
                return base
            if not _RE_NUM.match(s[1:]):
                raise SyntaxFault("bad coordinate %r" % s)
            return base + float(s[1:])
        if not _RE_NUM.match(s):
            raise SyntaxFault("bad coordinate %r" % s)
        return float(s)

    def coords(self, toks, ctx):
        if len(toks) != 3:
            raise SyntaxFault("missing coordinate")
        loc = [t.startswith("^") for t in toks]
        if any(loc):
            if not all(loc):
                raise SyntaxFault("mixed local and world coordinates %s"
                                  % (toks,))
            off = []
            for t in toks:
                t = t[1:]
                if t and not _RE_NUM.match(t):
                    raise SyntaxFault("bad coordinate %r" % t)
                off.append(float(t) if t else 0.0)
            return self.local(ctx, off)
        return tuple(self.coord1(t, b) for t, b in zip(toks, ctx.pos))

    def local(self, ctx, off):
        pitch, yaw = map(math.radians, ctx.rot)
        base = list(ctx.pos)
        if ctx.anchor == "eyes" and ctx.ent is not None:
            base[1] += ctx.ent.eye
        f = (-math.sin(yaw) * math.cos(pitch), -math.sin(pitch),
             math.cos(yaw) * math.cos(pitch))
        u = (-math.sin(yaw) * math.sin(pitch), math.cos(pitch),
             math.cos(yaw) * math.sin(pitch))
        lf = (math.cos(yaw), 0.0, math.sin(yaw))
        return tuple(base[i] + off[0] * lf[i] + off[1] * u[i]
                     + off[2] * f[i] for i in range(3))

    # --- scores --------------------------------------------------------
    def holders(self, tok, ctx, quoted=False, for_read=False):
        if not quoted and tok == "*":
            return sorted({h for h, _ in self.scores}, key=str)
        if not quoted and is_sel(tok):
            return [e.uid for e in self.select(tok, ctx)]
        for e in self.entities:
            if e.type == "player" and e.name == tok:
                return [e.uid]
        return [tok]

    def chk_obj(self, o, line):
        if o not in self.objectives:
            self.fault("undeclared-obj", "%s in: %s" % (o, line))
            self.objectives[o] = "dummy"

    def setscore(self, h, o, v):
        self.stats["writes"] += 1
        self.scores[(h, o)] = v
        if self.write_log is not None:
            self.write_log.append((h, o, v))

    def getscore(self, h, o, line):
        self.stats["reads"] += 1
        v = self.scores.get((h, o))
        if v is None and self.strict_unset:
            self.fault("unset-read", "%s %s in: %s" % (h, o, line))
        return v

    def lit(self, tok):
        if not _RE_INT.match(tok):
            raise SyntaxFault("bad integer %r" % tok)
        v = int(tok)
        if not INT_MIN <= v <= INT_MAX:
            self.fault("literal-range", "integer literal %s out of range"
                       % tok)
        return v

    # --- running -------------------------------------------------------
    def run_function(self, path, ctx=None):
        ctx = ctx or Ctx()
        if path not in self.files:
            self.fault("missing-func", path)
            return
        stack = self.depth
        self.depth += 1
        self.stats["calls"] += 1
        if self.depth > self.stats["max_depth"]:
            self.stats["max_depth"] = self.depth
        try:
            lines = self.code[path]
            n = len(lines)
            i = 0
            while i < n:
                # Loop on tail calls so that `while` recursion does not
                # exhaust the Python stack.
                line = lines[i]
                i += 1
                nxt = self.run_line(line, ctx, tail=i >= n)
                if nxt is not None:
                    path2, ctx = nxt
                    self.stats["calls"] += 1
                    lines = self.code[path2]
                    n, i = len(lines), 0
        finally:
            self.depth = stack

    def run_line(self, line, ctx, tail=False):
        self.executed += 1
        if self.executed > self.budget:
            raise BudgetExceeded()
        try:
            return self.exec_cmd(line, ctx, tail)
        except IndexError:
            self.fault("syntax", "truncated command: %s" % line)
            return None
        except SyntaxFault as err:
            msg = str(err)
            if msg.startswith("literal-range:"):
                self.fault("literal-range", msg[14:] + " in: " + line)
            else:
                self.fault("syntax", "%s in: %s" % (msg, line))
            return None

    def exec_cmd(self, line, ctx, tail=False):
        self.stats["cmds"] += 1
        if self.on_cmd is not None:
            self.on_cmd(self, ctx, line)
        name = line.split(" ", 1)[0]
        if name == "scoreboard":
            self.c_scoreboard(line, ctx)
        elif name == "execute":
            return self.c_execute(line, ctx, tail)
        elif name == "function":
            toks = self.toks(line)
            if len(toks) != 2:
                raise SyntaxFault("bad function command")
            path = toks[1][0]
            if path not in self.files:
                self.fault("missing-func", path)
                return None
            if tail:
                return path, ctx
            if self.depth > 400:
                raise BudgetExceeded()
            self.run_function(path, ctx)
        elif name == "tag":
            self.c_tag(line, ctx)
        elif name == "summon":
            self.c_summon(line, ctx)
        elif name in ("tp", "teleport"):
            self.c_tp(line, ctx)
        elif name == "kill":
            self.c_kill(line, ctx)
        elif name in ("tellraw", "titleraw"):
            self.c_rawtext(name, line, ctx)
        elif name == "schedule":
            self.c_schedule(line, ctx)
        elif self.on_raw is not None and self.on_raw(self, ctx, line):
            pass
        else:
            self.events.append(("cmd", line, self.ctx_key(ctx)))
        return None

    def ctx_key(self, ctx):
        return (ctx.ent.uid if ctx.ent is not None else None,
                tuple(round(c, 4) for c in ctx.pos), ctx.dim)

    def toks(self, line):
        t = self.parse_cache.get(line)
        if t is None:
            t = self.parse_cache[line] = lex(line)
        return t

    # scoreboard
    def c_scoreboard(self, line, ctx):
        t = self.toks(line)
        w = [x[0] for x in t]
        if len(w) < 3:
            raise SyntaxFault("bad scoreboard command")
        if w[1] == "objectives":
            if w[2] == "add":
                if len(w) not in (5, 6) or w[4] != "dummy":
                    raise SyntaxFault("bad objectives add")
                if w[3] not in self.objectives:
                    self.objectives[w[3]] = "dummy"
                    self.events.append(("objadd", w[3]))
                return
            if w[2] == "remove":
                self.objectives.pop(w[3], None)
                for k in [k for k in self.scores if k[1] == w[3]]:
                    del self.scores[k]
                self.events.append(("objremove", w[3]))
                return
            if w[2] == "setdisplay":
                self.events.append(("setdisplay",) + tuple(w[3:]))
                return
            raise SyntaxFault("bad scoreboard command")
        if w[1] != "players":
            raise SyntaxFault("bad scoreboard command")
        op = w[2]
        if op in ("set", "add", "remove"):
            if len(w) != 6:
                raise SyntaxFault("bad scoreboard players %s" % op)
            self.chk_obj(w[4], line)
            v = self.lit(w[5])
            for h in self.holders(w[3], ctx, t[3][2]):
                if op == "set":
                    self.setscore(h, w[4], wrap(v))
                else:
                    cur = self.getscore(h, w[4], line) or 0
                    self.setscore(h, w[4], wrap(
                        cur + v if op == "add" else cur - v))
        elif op == "random":
            if len(w) != 7:
                raise SyntaxFault("bad scoreboard players random")
            self.chk_obj(w[4], line)
            a, b = self.lit(w[5]), self.lit(w[6])
            if a > b:
                raise SyntaxFault("bad random range")
            for h in self.holders(w[3], ctx, t[3][2]):
                v = self.rng.randint(a, b) if self.rng else a
                self.events.append(("random", a, b, v))
                self.setscore(h, w[4], v)
        elif op == "reset":
            for h in self.holders(w[3], ctx, t[3][2]):
                for k in [k for k in self.scores if k[0] == h
                          and (len(w) < 5 or k[1] == w[4])]:
                    del self.scores[k]
        elif op == "operation":
            if len(w) != 8:
                raise SyntaxFault("bad scoreboard players operation")
            self.chk_obj(w[4], line)
            self.chk_obj(w[7], line)
            o = w[5]
            for h in self.holders(w[3], ctx, t[3][2]):
                for g in self.holders(w[6], ctx, t[6][2]):
                    self.operation(h, w[4], o, g, w[7], line)
        elif op == "test":
            pass
        else:
            raise SyntaxFault("bad scoreboard players op %r" % op)

    def operation(self, h, ho, o, g, go, line):
        b = self.getscore(g, go, line)
        if b is None:
            if o == "=":
                return
            b = 0
        if o == "=":
            self.setscore(h, ho, b)
            return
        a = self.getscore(h, ho, line)
        if a is None:
            a = 0
        if o == "+=":
            r = wrap(a + b)
        elif o == "-=":
            r = wrap(a - b)
        elif o == "*=":
            r = wrap(a * b)
        elif o == "/=":
            if b == 0:
                self.events.append(("div0",))
                return
            r = wrap(cdiv(a, b))
        elif o == "%=":
            if b == 0:
                self.events.append(("div0",))
                return
            r = cmod(a, b)
        elif o == "<":
            r = min(a, b)
        elif o == ">":
            r = max(a, b)
        elif o == "><":
            self.setscore(h, ho, b)
            self.setscore(g, go, a)
            return
        else:
            raise SyntaxFault("bad scoreboard operation %r" % o)
        self.setscore(h, ho, r)

    # execute
    def c_execute(self, line, ctx, tail):
        key = ("ex", line)
        p = self.parse_cache.get(key)
        if p is None:
            try:
                p = self.parse_execute(line)
            except SyntaxFault as err:
                p = err
            except IndexError:
                p = SyntaxFault("truncated execute")
            self.parse_cache[key] = p
        if isinstance(p, SyntaxFault):
            raise p
        subs, cmd = p
        ctxs = [ctx]
        multi = False
        for i, sub in enumerate(subs):
            new = []
            for c in ctxs:
                r = self.sub_exec(sub, c, line)
                new.extend(r)
            ctxs = new
            if sub[0] in ("as", "at", "positioned_as", "rotated_as"):
                multi = True
            if not ctxs:
                return None
        if cmd is None:
            return None
        if not multi and tail and len(ctxs) == 1:
            return self.exec_cmd(cmd, ctxs[0], True)
        for c in ctxs:
            # each run evaluates only if executor still exists
            self.executed += 1
            if self.executed > self.budget:
                raise BudgetExceeded()
            self.exec_cmd(cmd, c, False)
        return None

    def parse_execute(self, line):
        t = lex_prefix(line)
        w = [x[0] for x in t]
        i = 1
        subs = []
        while i < len(w):
            k = w[i]
            if k == "run":
                if i + 1 >= len(w):
                    raise SyntaxFault("execute without command")
                return subs, line[t[i + 1][1]:]
            if k in ("as", "at"):
                self.need_sel(w, i + 1)
                subs.append((k, w[i + 1], t[i + 1][2]))
                i += 2
            elif k == "in":
                subs.append(("in", w[i + 1]))
                i += 2
            elif k == "align":
                a = w[i + 1]
                if not a or set(a) - set("xyz") or len(set(a)) != len(a):
                    raise SyntaxFault("bad align axes %r" % a)
                subs.append(("align", a))
                i += 2
            elif k == "anchored":
                if w[i + 1] not in ("eyes", "feet"):
                    raise SyntaxFault("bad anchor")
                subs.append(("anchored", w[i + 1]))
                i += 2
            elif k == "positioned":
                if w[i + 1] == "as":
                    self.need_sel(w, i + 2)
                    subs.append(("positioned_as", w[i + 2]))
                    i += 3
                else:
                    subs.append(("positioned", w[i + 1:i + 4]))
                    self.chk_coords(w[i + 1:i + 4])
                    i += 4
            elif k == "rotated":
                if w[i + 1] == "as":
                    self.need_sel(w, i + 2)
                    subs.append(("rotated_as", w[i + 2]))
                    i += 3
                else:
                    for c in w[i + 1:i + 3]:
                        self.coord1(c, 0.0)
                    subs.append(("rotated", w[i + 1:i + 3]))
                    i += 3
            elif k == "facing":
                if w[i + 1] == "entity":
                    self.need_sel(w, i + 2)
                    if w[i + 3] not in ("eyes", "feet"):
                        raise SyntaxFault("bad anchor")
                    subs.append(("facing_e", w[i + 2], w[i + 3]))
                    i += 4
                else:
                    self.chk_coords(w[i + 1:i + 4])
                    subs.append(("facing", w[i + 1:i + 4]))
                    i += 4
            elif k in ("if", "unless"):
                neg = k == "unless"
                kind = w[i + 1] if i + 1 < len(w) else ""
                if kind == "score":
                    if i + 5 > len(w) - 1 and not (
                            i + 5 == len(w)):
                        raise SyntaxFault("bad score condition")
                    if w[i + 4] == "matches":
                        rng = w[i + 5]
                        subs.append(("ifm", neg, w[i + 2], t[i + 2][2],
                                     w[i + 3], parse_range(rng)))
                        i += 6
                    else:
                        if w[i + 4] not in ("=", "<", ">", "<=", ">="):
                            raise SyntaxFault("bad comparison %r" % w[i + 4])
                        if i + 6 >= len(w):
                            raise SyntaxFault("bad score condition")
                        subs.append(("ifs", neg, w[i + 2], t[i + 2][2],
                                     w[i + 3], w[i + 4], w[i + 5],
                                     t[i + 5][2], w[i + 6]))
                        i += 7
                elif kind == "entity":
                    self.need_sel(w, i + 2)
                    subs.append(("ife", neg, w[i + 2]))
                    i += 3
                elif kind == "block":
                    j = i + 6
                    blk = w[i + 5]
                    st = None
                    if j < len(w) and w[j].startswith("["):
                        st = w[j]
                        j += 1
                    elif j < len(w) and _RE_INT.match(w[j]):
                        st = w[j]
                        j += 1
                    self.chk_coords(w[i + 2:i + 5])
                    subs.append(("ifb", neg, w[i + 2:i + 5], blk, st))
                    i = j
                elif kind == "blocks":
                    for a in (2, 5, 8):
                        self.chk_coords(w[i + a:i + a + 3])
                    if w[i + 11] not in ("all", "masked"):
                        raise SyntaxFault("bad blocks condition")
                    subs.append(("ifbs", neg, w[i + 2:i + 12]))
                    i += 12
                else:
                    raise SyntaxFault("bad condition %r" % kind)
            else:
                raise SyntaxFault("bad execute subcommand %r" % k)
        raise SyntaxFault("execute without run")

    def need_sel(self, w, i):
        if i >= len(w):
            raise SyntaxFault("missing target")
        if is_sel(w[i]):
            Selector(w[i])

    def chk_coords(self, w):
        self.coords(list(w), Ctx())

    def ents(self, tok, ctx):
        if is_sel(tok):
            return self.select(tok, ctx)
        return [e for e in self.alive() if e.type == "player"
                and e.name == tok]

    def cond_score(self, tok, quoted, obj, ctx, line):
        self.chk_obj(obj, line)
        hs = self.holders(tok, ctx, quoted)
        if len(hs) != 1:
            return None
        return self.getscore(hs[0], obj, line)

    def sub_exec(self, s, c, line):
        k = s[0]
        if k == "as":
            return [c.but(ent=e) for e in self.ents(s[1], c)]
        if k == "at":
            return [c.but(pos=e.pos, rot=e.rot, dim=e.dim)
                    for e in self.ents(s[1], c)]
        if k == "in":
            return [c.but(dim=s[1])]
        if k == "align":
            return [c.but(pos=tuple(
                float(math.floor(v)) if a in s[1] else v
                for v, a in zip(c.pos, "xyz")))]
        if k == "anchored":
            return [c.but(anchor=s[1])]
        if k == "positioned":
            return [c.but(pos=self.coords(list(s[1]), c), anchor="feet")]
        if k == "positioned_as":
            return [c.but(pos=e.pos) for e in self.ents(s[1], c)]
        if k == "rotated":
            # (the command takes the horizontal rotation first)
            return [c.but(rot=(self.coord1(s[1][1], c.rot[0]),
                               self.coord1(s[1][0], c.rot[1])))]
        if k == "rotated_as":
            return [c.but(rot=e.rot) for e in self.ents(s[1], c)]
        if k == "facing_e":
            out = []
            for e in self.ents(s[1], c)[:1]:
                p = list(e.pos)
                if s[2] == "eyes":
                    p[1] += e.eye
                out.append(c.but(rot=self.face(c, p)))
            return out
        if k == "facing":
            return [c.but(rot=self.face(c, self.coords(list(s[1]), c)))]
        if k == "ifm":
            v = self.cond_score(s[2], s[3], s[4], c, line)
            ok = v is not None and s[5](v)
            return [c] if ok != s[1] else []
        if k == "ifs":
            a = self.cond_score(s[2], s[3], s[4], c, line)
            b = self.cond_score(s[6], s[7], s[8], c, line)
            if a is None or b is None:
                ok = False
            else:
                ok = {"=": a == b, "<": a < b, ">": a > b, "<=": a <= b,
                      ">=": a >= b}[s[5]]
            return [c] if ok != s[1] else []
        if k == "ife":
            ok = bool(self.ents(s[2], c))
            return [c] if ok != s[1] else []
        if k == "ifb":
            p = self.coords(list(s[2]), c)
            bp = tuple(math.floor(v) for v in p) + (c.dim,)
            have = self.blocks.get(bp, ("air", None))
            self.events.append(("ifblock", bp, s[3], s[4]))
            st = None if s[4] == "[]" else s[4]
            ok = have[0] == s[3] and (st is None or st == have[1])
            return [c] if ok != s[1] else []
        if k == "ifbs":
            w = s[2]
            self.events.append(("ifblocks", tuple(
                tuple(round(v, 4) for v in self.coords(list(w[j:j + 3]), c))
                for j in (0, 3, 6)), w[9]))
            if self.on_blocks is not None:
                ok = self.on_blocks(c.dim, tuple(
                    self.coords(list(w[j:j + 3]), c) for j in (0, 3, 6)),
                    w[9])
                return [c] if ok != s[1] else []
            return [c] if s[1] else []
        raise AssertionError(k)

    def face(self, c, p):
        base = list(c.pos)
        if c.anchor == "eyes" and c.ent is not None:
            base[1] += c.ent.eye
        d = [p[i] - base[i] for i in range(3)]
        h = math.hypot(d[0], d[2])
        yaw = math.degrees(math.atan2(-d[0], d[2])) if h else 0.0
        pitch = -math.degrees(math.atan2(d[1], h)) if (h or d[1]) else 0.0
        return (pitch, yaw)

    # others
    def c_tag(self, line, ctx):
        t = self.toks(line)
        w = [x[0] for x in t]
        if len(w) < 3 or w[2] not in ("add", "remove", "list") or \
                (len(w) != 4 and w[2] != "list"):
            raise SyntaxFault("bad tag command")
        for e in self.ents(w[1], ctx):
            if w[2] == "add":
                e.tags.add(w[3])
            elif w[2] == "remove":
                e.tags.discard(w[3])

    def c_summon(self, line, ctx):
        t = self.toks(line)
        w = [x[0] for x in t]
        if len(w) < 2:
            raise SyntaxFault("bad summon")
        pos = ctx.pos
        name = ""
        event = None
        rot = (0.0, 0.0)
        i = 2
        if len(w) > 2:
            if re.match(r"[~^\d.+-]", w[2]):
                pos = self.coords(w[2:5], ctx)
                i = 5
                if len(w) >= i + 2 and re.match(r"[~\d.+-]", w[i]):
                    # <yRot> <xRot>
                    rot = (self.coord1(w[i + 1], ctx.rot[0]),
                           self.coord1(w[i], ctx.rot[1]))
                    i += 2
                if len(w) > i:
                    event = w[i]
                    i += 1
                if len(w) > i:
                    name = w[i]
                    i += 1
            else:
                name = w[2]
                i = 3
        if i != len(w):
            raise SyntaxFault("bad summon")
        if event == "*":
            event = None
        type_ = w[1]
        if type_.startswith("minecraft:"):
            type_ = type_[10:]
        e = self.add_entity(type_, name=name, pos=pos, rot=rot, dim=ctx.dim,
                            event=event)
        self.created_by_summon.append(e)
        self.events.append(("summon", type_, name, event, e.uid))

    def c_tp(self, line, ctx):
        t = self.toks(line)
        w = [x[0] for x in t]
        rest = w[1:]
        if not rest:
            raise SyntaxFault("bad tp")
        if re.match(r"[~^\d.+-]", rest[0]) and len(rest) >= 3:
            victims = [ctx.ent] if ctx.ent is not None else []
            args = rest
        else:
            victims = self.ents(rest[0], ctx)
            args = rest[1:]
        if not args:
            raise SyntaxFault("bad tp")
        if re.match(r"[~^\d.+-]", args[0]):
            pos = self.coords(args[:3], ctx)
            dim = ctx.dim
            extra = args[3:]
        else:
            dst = self.ents(args[0], ctx)
            if not dst:
                return
            pos, dim = dst[0].pos, dst[0].dim
            extra = args[1:]
        rot = None
        check = False
        if extra and extra[-1] in ("true", "false"):
            check = extra[-1] == "true"
            extra = extra[:-1]
        if extra:
            if extra[0] == "facing":
                if len(extra) == 4:
                    p = self.coords(extra[1:], ctx)
                else:
                    d = self.ents(extra[1], ctx)
                    if not d:
                        return
                    p = d[0].pos
                rot = self.face(Ctx(pos=pos), p)
            elif len(extra) in (1, 2):
                # <yRot> [xRot]
                rot = (self.coord1(extra[1], ctx.rot[0])
                       if len(extra) > 1 else None,
                       self.coord1(extra[0], ctx.rot[1]))
            else:
                raise SyntaxFault("bad tp")
        for e in victims:
            e.pos, e.dim = tuple(pos), dim
            if rot is not None:
                e.rot = (e.rot[0] if rot[0] is None else rot[0], rot[1])
        self.events.append(("tp", tuple(e.uid for e in victims),
                            tuple(round(v, 4) for v in pos), dim, check))

    def c_kill(self, line, ctx):
        w = [x[0] for x in self.toks(line)]
        if len(w) > 2:
            raise SyntaxFault("bad kill")
        es = self.ents(w[1], ctx) if len(w) > 1 else (
            [ctx.ent] if ctx.ent else [])
        for e in es:
            e.alive = e.type == "player"
        self.events.append(("kill", tuple(sorted(e.uid for e in es))))

    def c_rawtext(self, name, line, ctx):
        t = self.toks(line)
        if len(t) < 2:
            raise SyntaxFault("bad %s" % name)
        target = t[1][0]
        who = tuple(sorted(e.uid for e in self.ents(target, ctx)))
        if name == "tellraw":
            js = line[t[2][1]:] if len(t) > 2 else ""
            self.events.append(("tell", who, self.render(js, ctx, line)))
            return
        if len(t) < 3:
            raise SyntaxFault("bad titleraw")
        kind = t[2][0]
        if kind in ("title", "subtitle", "actionbar"):
            js = line[t[3][1]:] if len(t) > 3 else ""
            self.events.append(("title", kind, who,
                                self.render(js, ctx, line)))
        elif kind == "times":
            if len(t) != 6:
                raise SyntaxFault("bad titleraw times")
            self.events.append(("title", "times", who,
                                tuple(self.lit(x[0]) for x in t[3:6])))
        elif kind in ("reset", "clear"):
            self.events.append(("title", kind, who, None))
        else:
            raise SyntaxFault("bad titleraw kind %r" % kind)

    def render(self, js, ctx, line):
        try:
            data = json.loads(js)
        except ValueError:
            raise SyntaxFault("bad JSON text")
        return self.render_obj(data, ctx, line)

    def render_obj(self, data, ctx, line):
        if not isinstance(data, dict) or \
                not isinstance(data.get("rawtext"), list):
            raise SyntaxFault("bad rawtext")
        out = []
        for c in data["rawtext"]:
            if not isinstance(c, dict):
                raise SyntaxFault("bad rawtext component")
            if "text" in c:
                out.append(c["text"])
            elif "score" in c:
                s = c["score"]
                o = s["objective"]
                self.chk_obj(o, line)
                hs = self.holders(s["name"], ctx)
                vals = []
                for h in hs:
                    v = self.getscore(h, o, line)
                    if v is not None:
                        vals.append(str(v))
                out.append(", ".join(vals))
            elif "selector" in c:
                out.append(", ".join(
                    e.name or e.type for e in self.ents(c["selector"], ctx)))
            elif "translate" in c:
                w = c.get("with")
                if w is None:
                    args = []
                elif isinstance(w, list):
                    args = w
                else:
                    args = [self.render_obj({"rawtext": [p]}, ctx, line)
                            for p in w["rawtext"]]
                out.append("{{%s|%s}}" % (c["translate"], "|".join(args)))
            else:
                raise SyntaxFault("bad rawtext component")
        return "".join(out)

    def c_schedule(self, line, ctx):
        w = [x[0] for x in self.toks(line)]
        if len(w) >= 5 and w[1] == "delay" and w[2] == "add":
            m = re.match(r"(\d+)([td s]?)\Z", w[4])
            if not m:
                raise SyntaxFault("bad schedule time")
            self.scheduled.append((self.tick + int(m.group(1)), w[3]))
            if w[3] not in self.files:
                self.fault("missing-func", w[3])
            return
        if len(w) >= 4 and w[1] == "on_area_loaded" and w[2] == "add":
            path = w[-1]
            if path not in self.files:
                self.fault("missing-func", path)
            if w[3] == "circle":
                if len(w) != 9:
                    raise SyntaxFault("bad schedule")
                a = ("circle", tuple(round(v, 4) for v in
                                     self.coords(w[4:7], ctx)), w[7])
            elif w[3] == "tickingarea":
                if len(w) != 6:
                    raise SyntaxFault("bad schedule")
                a = ("tickingarea", w[4])
            else:
                if len(w) != 10:
                    raise SyntaxFault("bad schedule")
                a = ("area",
                     tuple(round(v, 4) for v in self.coords(w[3:6], ctx)),
                     tuple(round(v, 4) for v in self.coords(w[6:9], ctx)))
            self.area_scheduled.append((a, path))
            self.events.append(("area", a))
            return
        raise SyntaxFault("bad schedule command")

    # --- static scan ---------------------------------------------------
    def scan(self, user_raw=None):
        """Parse every line of every file without running it (structural
        well-formedness of code the workload may not reach)."""
        n = 0
        for path, lines in sorted(self.files.items()):
            for line in lines:
                if not line.strip() or line.startswith("#"):
                    continue
                n += 1
                self.scan_line(path, line)
        return n

    def scan_line(self, path, line, depth=0):
        name = line.split(" ", 1)[0]
        try:
            if name == "execute":
                subs, cmd = self.parse_execute(line)
                for s in subs:
                    if s[0] == "ifm":
                        self.chk_decl(s[4], line)
                    elif s[0] == "ifs":
                        self.chk_decl(s[4], line)
                        self.chk_decl(s[8], line)
                self.scan_line(path, cmd, depth + 1)
            elif name == "function":
                t = lex(line)
                if len(t) != 2:
                    raise SyntaxFault("bad function command")
                if t[1][0] not in self.files:
                    self.fault("missing-func", "%s called in %s"
                               % (t[1][0], path))
            elif name == "schedule":
                t = lex(line)
                if t[-1][0] not in self.files and t[1][0] != "clear" \
                        and not (t[1][0] == "delay" and t[3][0]
                                 in self.files):
                    self.fault("missing-func", "%s scheduled in %s"
                               % (t[-1][0], path))
            elif name == "scoreboard":
                t = lex(line)
                w = [x[0] for x in t]
                if len(w) >= 5 and w[1] == "players":
                    self.chk_decl(w[4], line)
                    if is_sel(w[3]) and not t[3][2]:
                        Selector(w[3])
                    if w[2] in ("set", "add", "remove"):
                        if len(w) != 6:
                            raise SyntaxFault("bad scoreboard command")
                        self.lit(w[5])
                    elif w[2] == "random":
                        if len(w) != 7:
                            raise SyntaxFault("bad scoreboard command")
                        self.lit(w[5])
                        self.lit(w[6])
                    elif w[2] == "operation":
                        if len(w) != 8 or w[5] not in (
                                "+=", "-=", "*=", "/=", "%=", "<", ">",
                                "><", "="):
                            raise SyntaxFault("bad scoreboard operation")
                        self.chk_decl(w[7], line)
                        if is_sel(w[6]) and not t[6][2]:
                            Selector(w[6])
            elif name in ("tellraw", "titleraw"):
                t = lex(line)
                if len(t) < 3:
                    raise SyntaxFault("bad %s" % name)
                j = 2 if name == "tellraw" else 3
                if name == "tellraw" or t[2][0] in (
                        "title", "subtitle", "actionbar"):
                    if len(t) <= j:
                        raise SyntaxFault("bad %s" % name)
                    try:
                        data = json.loads(line[t[j][1]:])
                    except ValueError:
                        raise SyntaxFault("bad JSON text")
                    if not isinstance(data, dict) or "rawtext" not in data:
                        raise SyntaxFault("bad rawtext")
            elif name in ("tag",):
                t = lex(line)
                if len(t) != 4:
                    raise SyntaxFault("bad tag command")
                if is_sel(t[1][0]):
                    Selector(t[1][0])
            elif name in LIBRARY_CMDS:
                for tok, _, quoted in lex(line):
                    if not quoted and tok.startswith("@"):
                        Selector(tok)
        except SyntaxFault as err:
            msg = str(err)
            if msg.startswith("literal-range:"):
                self.fault("literal-range", msg[14:] + " in: " + line)
            else:
                self.fault("syntax", "%s in: %s" % (msg, line))
        except IndexError:
            self.fault("syntax", "truncated command: %s" % line)

    def chk_decl(self, o, line):
        if o not in self.objectives:
            self.fault("undeclared-obj", "%s in: %s" % (o, line))

    # --- ticking -------------------------------------------------------
    def do_tick(self, tick_paths):
        """One game tick: scheduled functions, then tick.json entries."""
        due = [p for t, p in self.scheduled if t <= self.tick]
        self.scheduled = [x for x in self.scheduled if x[0] > self.tick]
        for p in due:
            self.run_function(p)
        for p in tick_paths:
            self.run_function(p)
        self.tick += 1
