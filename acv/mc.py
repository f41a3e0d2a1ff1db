"""A strict reader of the Minecraft commands that the world module issues.

read(vm, ctx, line) -> list of records, one for each thing the command does to
each entity (defaults filled in, coordinates and targets resolved), or raises
vm.SyntaxFault.  Commands it does not know give None."""
import json
import re

from .vm import SyntaxFault, _RE_INT, _RE_NUM, _split_top, is_sel, lex, unquote

BOOL = {"true": True, "false": False}


def R(p):
    return tuple(round(v, 4) + 0.0 for v in p)


class Reader:
    def __init__(self, vm, ctx, line):
        self.vm, self.ctx, self.line = vm, ctx, line
        self.t = lex(line)
        self.i = 1

    def more(self):
        return self.i < len(self.t)

    def word(self, one_of=None, default=None):
        if not self.more():
            if default is not None:
                return default
            raise SyntaxFault("truncated %r" % self.line)
        w = self.t[self.i][0]
        if one_of is not None and w not in one_of:
            raise SyntaxFault("%r is none of %s in %r" % (w, one_of,
                                                          self.line))
        self.i += 1
        return w

    def int(self, lo=None, hi=None, default=None):
        if not self.more() and default is not None:
            return default
        w = self.word()
        if not _RE_INT.match(w):
            raise SyntaxFault("%r is no integer in %r" % (w, self.line))
        v = int(w)
        if (lo is not None and v < lo) or (hi is not None and v > hi) or \
                not -2**31 <= v < 2**31:
            raise SyntaxFault("%d is out of range in %r" % (v, self.line))
        return v

    def num(self):
        w = self.word()
        if not _RE_NUM.match(w):
            raise SyntaxFault("%r is no number in %r" % (w, self.line))
        return float(w)

    def bool(self, default=None):
        if not self.more() and default is not None:
            return default
        return BOOL[self.word(("true", "false"))]

    def ents(self):
        t = self.t[self.i] if self.more() else ("", 0, False)
        w = self.word()
        if is_sel(w) and not t[2]:
            return self.vm.select(w, self.ctx)
        return [e for e in self.vm.alive() if e.type == "player"
                and e.name == w]

    def one(self):
        e = self.ents()
        if len(e) != 1:
            raise SyntaxFault("%d entities where one is expected in %r"
                              % (len(e), self.line))
        return e[0].uid

    def players(self):
        e = self.ents()
        for x in e:
            if x.type != "player":
                raise SyntaxFault("%r is no player in %r" % (x, self.line))
        return e

    def pos(self):
        w = [self.word() for _ in range(3)]
        return R(self.vm.coords(w, self.ctx))

    def rest(self):
        """the rest of the line as it stands"""
        if not self.more():
            return ""
        return self.line[self.t[self.i][1]:]

    def block(self, states=True):
        b = self.word()
        st = None
        if states and self.more() and self.t[self.i][0].startswith("["):
            st = self.states(self.word())
        return (b, st or ())

    def states(self, text):
        body = text[1:-1]
        out = []
        if not body.strip():
            return ()
        eq = "=" if self.vm.block_eq is None else self.vm.block_eq
        for p in _split_top(body):
            m = re.match(r'"([^"]*)"\s*([=:])\s*(.+)\Z', p.strip())
            if not m or m.group(2) != eq:
                raise SyntaxFault("bad block state %r in %r" % (p, self.line))
            v = m.group(3)
            if v in BOOL:
                v = BOOL[v]
            elif _RE_INT.match(v):
                v = int(v)
            elif v[0] == '"' and v[-1] == '"' and len(v) > 1:
                v = unquote(v)
            else:
                raise SyntaxFault("bad block state %r in %r" % (p, self.line))
            out.append((m.group(1), type(v).__name__, v))
        if len({k for k, _, _ in out}) != len(out):
            raise SyntaxFault("state given twice in %r" % self.line)
        return tuple(sorted(out, key=repr))

    def item(self, max_amount):
        name = self.word()
        amount = self.int(1, max_amount, 1)
        data = self.int(0, 32767, 0)
        comp = ()
        if self.more():
            js = self.rest()
            self.i = len(self.t)
            try:
                d = json.loads(js)
            except ValueError:
                raise SyntaxFault("bad components in %r" % self.line)
            comp = tuple(sorted((k, json.dumps(v, sort_keys=True))
                                for k, v in d.items()))
        return (name, amount, data, comp)

    def end(self):
        if self.more():
            raise SyntaxFault("too much in %r" % self.line)


def read(vm, ctx, line):
    name = line.split(" ", 1)[0]
    f = globals().get("c_" + name)
    if f is None:
        return None
    r = Reader(vm, ctx, line)
    out = f(r, ctx)
    r.end()
    return out


def c_clone(r, ctx):
    a, b, d = r.pos(), r.pos(), r.pos()
    mask = r.word(("replace", "masked", "filtered"), "replace")
    mode = r.word(("force", "move", "normal"), "normal")
    blk = r.block() if mask == "filtered" else None
    return [("clone", ctx.dim, a, b, d, mask, mode, blk)]


def c_fill(r, ctx):
    a, b = r.pos(), r.pos()
    blk = r.block()
    mode = r.word(("destroy", "hollow", "keep", "outline", "replace"),
                  "replace")
    rep = r.block() if mode == "replace" and r.more() else None
    return [("fill", ctx.dim, a, b, blk, mode, rep)]


def c_setblock(r, ctx):
    p = r.pos()
    blk = r.block()
    return [("setblock", ctx.dim, p, blk,
             r.word(("destroy", "keep", "replace"), "replace"))]


def c_damage(r, ctx):
    es = r.ents()
    n = r.int(0)
    cause = r.word() if r.more() else None
    by = None
    if r.more():
        r.word(("entity",))
        by = r.one()
    return [("damage", e.uid, n, cause, by) for e in es]


def c_effect(r, ctx):
    es = r.ents()
    w = r.word()
    if w == "clear":
        return [("effect_clear", e.uid) for e in es]
    d, a = r.int(0, None, 30), r.int(0, 255, 0)
    return [("effect", e.uid, w, d, a, h)
            for h in [r.bool(False)] for e in es]


def c_enchant(r, ctx):
    es = r.ents()
    w = r.word()
    n = r.int(None, None, 1)
    return [("enchant", e.uid, w, n) for e in es]


def c_event(r, ctx):
    r.word(("entity",))
    es = r.ents()
    w = r.word()
    return [("event", e.uid, w) for e in es]


def c_kill(r, ctx):
    es = r.ents() if r.more() else [ctx.ent] if ctx.ent else []
    return [("kill", e.uid) for e in es]


def uid(e):
    return e.uid if e is not None else None


def c_me(r, ctx):
    t = r.line[3:]
    r.i = len(r.t)
    return [("me", uid(ctx.ent), t)]


def c_say(r, ctx):
    t = r.line[4:]
    r.i = len(r.t)
    return [("say", uid(ctx.ent), t)]


def c_tell(r, ctx):
    es = r.ents()
    t = r.rest()
    r.i = len(r.t)
    return [("tell", uid(ctx.ent), e.uid, t) for e in es]


def c_replaceitem(r, ctx):
    k = r.word(("block", "entity"))
    if k == "block":
        p = r.pos()
        r.word(("slot.container",))
        n = r.int()
        m = r.word(("destroy", "keep"))
        return [("ri_block", ctx.dim, p, n, m) + r.item(None)]
    es = r.ents()
    loc = r.word()
    n = r.int()
    m = r.word(("destroy", "keep"))
    it = r.item(None)
    return [("ri_entity", e.uid, loc, n, m) + it for e in es]


def c_ride(r, ctx):
    es = r.ents()
    k = r.word(("start_riding", "stop_riding", "evict_riders",
                "summon_rider", "summon_ride"))
    if k == "start_riding":
        to = r.one()
        m = r.word(("teleport_ride", "teleport_rider"), "teleport_ride")
        f = r.word(("if_group_fits", "until_full"), "until_full")
        # (the fill mode is about the whole group of riders)
        return [("ride", frozenset(e.uid for e in es), to, m, f)] if es else []
    if k in ("stop_riding", "evict_riders"):
        return [(k, e.uid) for e in es]
    t = r.word()
    mode = None
    if k == "summon_ride":
        mode = r.word(("skip_riders", "no_ride_change", "reassign_rides"),
                      "reassign_rides")
    ev = r.word() if r.more() else "*"
    nm = r.word() if r.more() else ""
    return [(k, e.uid, t, mode, None if ev == "*" else ev, nm) for e in es]


def c_spreadplayers(r, ctx):
    x, z = r.word(), r.word()
    x, z = (r.vm.coord1(v, b) for v, b in ((x, ctx.pos[0]),
                                           (z, ctx.pos[2])))
    d, m = r.num(), r.num()
    if d < 0 or m < 1 or m < d + 1:
        raise SyntaxFault("bad distances in %r" % r.line)
    es = r.ents()
    return [("spread", ctx.dim, R((x, z)), round(d, 6), round(m, 6),
             frozenset(e.uid for e in es))]


def c_summon(r, ctx):
    t = r.word()
    p = r.pos()
    rot = None
    if r.vm.summon_rot:
        # <yRot> <xRot>
        y, x = r.word(), r.word()
        rot = R((r.vm.coord1(x, ctx.rot[0]), r.vm.coord1(y, ctx.rot[1])))
    ev = r.word() if r.more() else "*"
    nm = r.word() if r.more() else ""
    return [("summon", ctx.dim, t, p, rot, None if ev == "*" else ev, nm)]


def c_tag(r, ctx):
    es = r.ents()
    k = r.word(("add", "remove"))
    t = r.word()
    return [("tag", k, e.uid, t) for e in es]


def c_tp(r, ctx):
    es = r.ents()
    p = r.pos()
    rot = None
    chk = False
    if r.more() and r.t[r.i][0] not in BOOL:
        y = r.word()
        x = r.word()
        rot = R((r.vm.coord1(x, ctx.rot[0]), r.vm.coord1(y, ctx.rot[1])))
    chk = r.bool(False)
    return [("tp", e.uid, ctx.dim, p, rot, chk) for e in es]


def c_ability(r, ctx):
    es = r.players()
    a, v = r.word(), r.bool()
    return [("ability", e.uid, a, v) for e in es]


def c_clear(r, ctx):
    es = r.players()
    if not r.more():
        return [("clear", e.uid, None, -1, -1) for e in es]
    it = r.word()
    d, n = r.int(-1, None, -1), r.int(-1, None, -1)
    return [("clear", e.uid, it, d, n) for e in es]


def c_clearspawnpoint(r, ctx):
    return [("clearspawn", e.uid) for e in r.players()]


def c_gamemode(r, ctx):
    m = r.word(("survival", "creative", "adventure", "default", "spectator"))
    return [("gamemode", e.uid, m) for e in r.players()]


def c_give(r, ctx):
    es = r.players()
    it = r.item(32767)
    return [("give", e.uid) + it for e in es]


def c_kick(r, ctx):
    n = r.word()
    t = r.rest()
    r.i = len(r.t)
    return [("kick", n, t)]


def c_recipe(r, ctx):
    k = r.word(("give", "take"))
    es = r.players()
    n = r.word()
    return [("recipe", k, e.uid, n) for e in es]


def c_spawnpoint(r, ctx):
    es = r.players()
    p = r.pos()
    return [("spawn", e.uid, ctx.dim, p) for e in es]


def c_xp(r, ctx):
    w = r.word()
    lv = w.endswith("L")
    if lv:
        w = w[:-1]
    if not _RE_INT.match(w) or not (lv or int(w) >= 0):
        raise SyntaxFault("bad amount in %r" % r.line)
    return [("xp", "L" if lv else "p", e.uid, int(w)) for e in r.players()]
