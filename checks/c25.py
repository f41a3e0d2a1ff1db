"""C25: the world module.

Workload: random programs calling every function of the world module with
random arguments (given by position, by name or left to their defaults), on
entities, self, loop variables, groups, external groups and players, at
generated positions, in several game versions; judgements over random blocks.
Monitor: every command the generated code reaches between two markers, read
by a strict reader of Minecraft's command grammar that resolves targets and
coordinates and fills in defaults, so each thing done to each entity is one
record.  Oracle: the records the call documents.  A table of calls outside
the documented domain must be refused at their line."""
import math
import random
from collections import Counter

from acv import kit, mc, runner
from acv import vm as vmmod
from checks import c21

PROPERTY = "C25"
RULE = ("one evaluation = one call of a world function reached and everything "
        "done by it compared, or one call outside the domain compiled; "
        "non-trivial = distinct call text and world")
ASSUME = ["identifiers (items, effects, events, slots, types) are single words "
          "as the game's identifiers are; free text has no line breaks",
          "the entities named as single targets exist"]
LEVEL = "exploration"
VERSIONS = [(1, 19, 50), (1, 19, 63), (1, 19, 70), (1, 19, 80), (1, 20, 0),
            (1, 20, 10), (1, 20, 20), (1, 20, 50), (1, 21, 0)]
FUNCS = ["clone", "clone_only", "fill", "fill_replace", "setblock", "damage",
         "effect_give", "effect_clear", "enchant", "event_entity", "kill",
         "msg_me", "msg_say", "msg_tell", "replaceitem_block",
         "replaceitem_entity", "ride_start_tp_ride", "ride_start_tp_rider",
         "ride_stop", "ride_evict_riders", "summon_rider", "summon_ride",
         "spread", "summon", "tag_add", "tag_remove", "tp", "rotate", "move",
         "move_local", "ability", "clear_inventory", "clear",
         "spawnpoint_clear", "gamemode", "give", "kick", "recipe",
         "spawnpoint_set", "xp_add_levels", "xp_add_points"]
JUDGE = ["is_block", "is_same_area", "is_entity"]
MIN = dict({"call_" + f: 40 for f in FUNCS}, refused=500, records=4000,
           reused_arguments=300,
           judged_true=200, judged_false=200)
IDS = ["speed", "minecraft:stone", "a_b", "x.y:z_1", "stone", "oak_log",
       "ns:ev.on_tick"]
TEXTS = ["hi", "a b", "it's \"q\"", "50% @a", "x, y [z] {w}", "a\\b", "#1",
         "~ ^ *", "\u4e2d\u6587", "a  b", "=!%d %s {0}", "/say x"]
TAGS = ["t1", "t 2", "q\"5", "a,b", "x-y", "b\\c", "\u4e2d"]


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def itext(v):
    return "%d" % v if v >= 0 else "-%d" % -v


class Sch:
    """one drawn argument: text and value"""

    def __init__(self, text, value):
        self.text, self.value = text, value


OMIT = object()


class G:
    def __init__(self, seed):
        self.r = random.Random("c25 %r" % (seed,))
        r = self.r
        self.ver = r.choice(VERSIONS)
        self.edu = r.random() < .5
        self.nent = 2
        self.p = c21.Gen(r, self.nent)
        self.marks = []         # expected(env) per marker
        self.calls = []
        self.pool = ["e0", "e1", "grp", "ext", "all"]
        self.names = 0
        self.reused = 0
        self.scope(None)

    def scope(self, var):
        """the entity variables in reach, `var` being the one that is not a
        variable of the module"""
        self.var = var
        self.defs = []          # constants to define before the next call
        self.shared = {}        # kind -> constants in reach
        self.singles = ["e0", "e1"] + [var] * (var is not None)
        if var == "self":
            self.singles = ["self"]
        self.p.ent = lambda: self.r.choice(self.singles)

    def share(self, kind, new):
        """an argument that may be a named constant used by several calls:
        none of them changes it"""
        have = self.shared.setdefault(kind, [])
        x = self.r.random()
        if have and x < .3:
            self.reused += 1
            return self.r.choice(have)
        v = new()
        if x < .45:
            name = "sh%d" % self.names
            self.names += 1
            self.defs.append("const %s = %s" % (name, v.text))
            v = Sch(name, v.value)
            have.append(v)
        return v

    def flush_defs(self, ind):
        out = "".join("%s%s\n" % (ind, d) for d in self.defs)
        self.defs = []
        return out

    # --- argument kinds
    def sel(self, players=False):
        """(text, fn(env) -> uids)"""
        r = self.r
        if self.var == "self":
            pool = ["self"]
        else:
            pool = self.pool + [self.var, self.var] * (self.var is not None)
            if players:
                pool = pool + ["all"] * 3
        k = r.choice(pool)

        def get(env):
            es = env[k]
            if players:
                es = [e for e in es if e.type == "player"]
            return [e for e in es if e.alive]
        return Sch(k, get)

    def ent(self):
        k = self.r.choice(self.singles)
        return Sch(k, lambda env: env[k][0])

    def pos(self):
        return self.share("pos", lambda: Sch(*self.p.position()))

    def off(self):
        return self.share("off", lambda: Sch(*self.p.offset()))

    def rot(self):
        return self.share("rot", lambda: Sch(*self.p.rotation()))

    def id(self):
        v = self.r.choice(IDS)
        return Sch(q(v), v)

    def null(self, f, p=.3):
        return Sch("None", None) if self.r.random() < p else f()

    def text(self):
        v = self.r.choice(TEXTS)
        return Sch(q(v), v)

    def tag(self):
        v = self.r.choice(TAGS)
        return Sch(q(v), v)

    def int(self, lo, hi):
        r = self.r
        v = r.choice([lo, hi, r.randint(lo, min(hi, lo + 20)),
                      r.randint(lo, hi)])
        if v == -2**31:
            return Sch("int.MIN", v)
        return Sch(itext(v), v)

    def enum(self, *vs):
        v = self.r.choice(vs)
        return Sch(q(v), v)

    def bool(self):
        v = self.r.random() < .5
        return Sch("True" if v else "False", v)

    def num3(self):
        r = self.r
        if r.random() < .4:
            v = r.randint(-30, 30)
            return Sch(itext(v), float(v))
        v = round(r.uniform(-20, 20), r.choice([1, 2, 3]))
        return Sch("%r" % v if v >= 0 else "-%r" % -v, v)

    def block(self):
        return self.share("block", self.new_block)

    def new_block(self):
        r = self.r
        b = r.choice(IDS)
        if r.random() < .4:
            return Sch(q(b), (b, ()))
        st, tx = [], []
        for k in r.sample(["k", "minecraft:dir", "a b", "lit_1"],
                          r.randint(0, 3)):
            v = r.choice([True, False, 0, 3, -2, "x", "north", "a b", "1",
                          "true"])
            tx.append("%s: %s" % (q(k), q(v) if isinstance(v, str)
                                  else str(v) if isinstance(v, bool)
                                  else itext(v)))
            st.append((k, type(v).__name__, v))
        states = "{%s}" % ", ".join(tx)
        if not tx:
            return Sch("world.Block(%s)" % q(b), (b, ()))
        if self.r.random() < .3:
            return Sch("world.Block(states=%s, id=%s)" % (states, q(b)),
                       (b, tuple(sorted(st, key=repr))))
        return Sch("world.Block(%s, %s)" % (q(b), states),
                   (b, tuple(sorted(st, key=repr))))

    def item(self):
        return self.share("item", self.new_item)

    def new_item(self):
        r = self.r
        b = r.choice(IDS)
        if r.random() < .4:
            return Sch(q(b), (b, 0, ()))
        import json
        a = [q(b)]
        comp = {}
        data = 0
        if r.random() < .6:
            data = r.choice([0, 1, 32767, r.randint(0, 32767)])
            a.append("data=%d" % data)
        if r.random() < .4:
            k = r.random() < .6
            a.append("keep_on_death=%s" % k)
            if k:
                comp["minecraft:keep_on_death"] = {}
        for nm in ("can_destroy", "can_place_on"):
            if r.random() < .4:
                ids = [r.choice(IDS) for _ in range(r.randint(0, 3))]
                a.append("%s={%s}" % (nm, ", ".join(map(q, ids))))
                if ids:
                    comp["minecraft:" + nm] = {"blocks": ids}
        if r.random() < .4:
            lk = r.choice(["lock_in_slot", "lock_in_inventory", None])
            a.append("lock=%s" % (q(lk) if lk else None))
            if lk:
                comp["minecraft:item_lock"] = {"mode": lk}
        first, rest = a[0], a[1:]
        r.shuffle(rest)
        return Sch("world.Item(%s)" % ", ".join([first] + rest), (
            b, data, tuple(sorted((k, json.dumps(v, sort_keys=True))
                                  for k, v in comp.items()))))

    # --- a call
    def call(self, name, spec):
        """spec: list of (parameter or None, Sch or None (left out)).
        parameters whose name is None go by position"""
        r = self.r
        parts, kw = [], False
        last = max([i for i, (_, a) in enumerate(spec) if a is not None],
                   default=-1)
        named = []
        # after the first left-out argument everything is named
        cut = next((i for i, (_, a) in enumerate(spec) if a is None),
                   len(spec))
        start = r.randint(0, cut) if r.random() < .4 else cut
        while start < cut and any(n is None for n, _ in spec[start:cut]):
            start += 1
        for i, (n, a) in enumerate(spec):
            if a is None:
                continue
            if i < start:
                parts.append(a.text)
            else:
                named.append("%s=%s" % (n, a.text))
        r.shuffle(named)
        return "world.%s(%s)" % (name, ", ".join(parts + named))

    def draw(self, f=None):
        """(text, expected(env, ctx) -> records)"""
        r = self.r
        f = f or r.choice(FUNCS[:-1])
        o = lambda fn, p=.45: None if r.random() < p else fn()
        val = lambda a, d: d if a is None else a.value

        def at(p):
            return lambda env, ctx: c21.fold_from(
                p.value, env["snap"], ctx_eye(ctx), ctx)
        R = mc.R
        if f in ("clone", "clone_only"):
            p, a, b = self.pos(), self.off(), self.off()
            m = o(lambda: self.null(lambda: self.enum("move", "force",
                                                      "replace"), .2))
            mode = val(m, None)
            mode = "normal" if mode in (None, "replace") else mode
            if f == "clone":
                n = o(self.bool)
                mask, blk = ("masked" if val(n, False) else "replace"), None
                spec = [("origin", p), ("offset", a), ("dest", b),
                        ("mode", m), ("no_air", n)]
            else:
                bl = self.block()
                mask, blk = "filtered", bl.value
                spec = [("origin", p), ("offset", a), ("dest", b),
                        ("block", bl), ("mode", m)]

            def exp(env, ctx):
                c = at(p)(env, ctx)
                far = lambda v: R(self.end(c, v.value, env))
                return [("clone", c.dim, R(c.pos), far(a), far(b), mask,
                         mode, blk)]
            return self.call(f, spec), exp
        if f in ("fill", "fill_replace"):
            p, a, bl = self.pos(), self.off(), self.block()
            if f == "fill":
                m = o(lambda: self.enum("destroy", "hollow", "outline",
                                        "aironly", "all"))
                mode = {"aironly": "keep", "all": "replace"}.get(
                    val(m, "all"), val(m, "all"))
                rep = None
                spec = [("origin", p), ("offset", a), ("block", bl),
                        ("replacement", m)]
            else:
                rb = self.block()
                mode, rep = "replace", rb.value
                spec = [("origin", p), ("offset", a), ("block", bl),
                        ("replaces", rb)]

            def exp(env, ctx):
                c = at(p)(env, ctx)
                return [("fill", c.dim, R(c.pos), R(self.end(
                    c, a.value, env)), bl.value, mode, rep)]
            return self.call(f, spec), exp
        if f == "setblock":
            p, bl = self.pos(), self.block()
            m = o(lambda: self.enum("destroy", "aironly", "all"))
            mode = {"aironly": "keep", "all": "replace"}.get(
                val(m, "all"), val(m, "all"))

            def exp(env, ctx):
                c = at(p)(env, ctx)
                return [("setblock", c.dim, R(c.pos), bl.value, mode)]
            return self.call(f, [("pos", p), ("block", bl),
                                 ("replacement", m)]), exp
        if f == "damage":
            t, n = self.sel(), self.int(0, 2**31 - 1)
            c = o(lambda: self.null(self.id, .2))
            d = None
            if c is not None and c.value is not None:
                d = o(lambda: self.null(self.ent, .2))

            def exp(env, ctx):
                by = val(d, None)
                return [("damage", e.uid, n.value, val(c, None),
                         by and by(env).uid) for e in t.value(env)]
            return self.call(f, [("target", t), ("amount", n), ("cause", c),
                                 ("damager", d)]), exp
        if f == "effect_give":
            t, e_, d = self.sel(), self.id(), self.int(0, 2**31 - 1)
            a = o(lambda: self.int(0, 255))
            pt = o(self.bool)
            return self.call(f, [
                ("target", t), ("effect", e_), ("duration", d),
                ("amplifier", a), ("particle", pt)]), lambda env, ctx: [
                    ("effect", e.uid, e_.value, d.value, val(a, 0),
                     not val(pt, True)) for e in t.value(env)]
        if f in ("effect_clear", "ride_stop", "ride_evict_riders", "kill"):
            t = self.sel()
            k = {"effect_clear": "effect_clear", "ride_stop": "stop_riding",
                 "ride_evict_riders": "evict_riders", "kill": "kill"}[f]
            pn = {"ride_stop": "rider", "ride_evict_riders": "ride"}.get(
                f, "target")
            return self.call(f, [(pn, t)]), lambda env, ctx: [
                (k, e.uid) for e in t.value(env)]
        if f == "enchant":
            t, i = self.sel(), self.id()
            n = o(lambda: self.int(1, 2**31 - 1))
            return self.call(f, [("target", t), ("enchantment", i),
                                 ("level", n)]), lambda env, ctx: [
                ("enchant", e.uid, i.value, val(n, 1))
                for e in t.value(env)]
        if f == "event_entity":
            t, i = self.sel(), self.id()
            return self.call(f, [("target", t), ("event", i)]), \
                lambda env, ctx: [("event", e.uid, i.value)
                                  for e in t.value(env)]
        if f in ("msg_me", "msg_say"):
            s, m = self.ent(), self.text()
            return self.call(f, [("sender", s), ("message", m)]), \
                lambda env, ctx: [(f[4:], s.value(env).uid, m.value)]
        if f == "msg_tell":
            s, t, m = self.ent(), self.sel(), self.text()
            return self.call(f, [("sender", s), ("receiver", t),
                                 ("message", m)]), lambda env, ctx: [
                ("tell", s.value(env).uid, e.uid, m.value)
                for e in t.value(env)]
        if f in ("replaceitem_block", "replaceitem_entity"):
            sl, it = self.int(-5, 54), self.item()
            n, k = o(lambda: self.int(1, 2**31 - 1)), o(self.bool)
            tail = lambda: ("keep" if val(k, False) else "destroy",
                            it.value[0], val(n, 1)) + it.value[1:]
            if f == "replaceitem_block":
                p = self.pos()

                def exp(env, ctx):
                    c = at(p)(env, ctx)
                    return [("ri_block", c.dim, R(c.pos), sl.value) + tail()]
                return self.call(f, [("pos", p), ("slot", sl), ("item", it),
                                     ("amount", n), ("keep_old", k)]), exp
            t, loc = self.sel(), self.id()
            return self.call(f, [
                ("target", t), ("location", loc), ("slot", sl), ("item", it),
                ("amount", n), ("keep_old", k)]), lambda env, ctx: [
                    ("ri_entity", e.uid, loc.value, sl.value) + tail()
                    for e in t.value(env)]
        if f == "ride_start_tp_ride":
            a, b = self.ent(), self.ent()
            return self.call(f, [("rider", a), ("ride", b)]), \
                lambda env, ctx: [("ride", frozenset([a.value(env).uid]),
                                   b.value(env).uid, "teleport_ride",
                                   "until_full")]
        if f == "ride_start_tp_rider":
            a, b = self.sel(), self.ent()
            m = o(lambda: self.enum("if_group_fits", "until_full"))

            def exp(env, ctx):
                es = frozenset(e.uid for e in a.value(env))
                return [("ride", es, b.value(env).uid, "teleport_rider",
                         val(m, "until_full"))] if es else []
            return self.call(f, [("rider", a), ("ride", b), ("fill", m)]), exp
        if f in ("summon_rider", "summon_ride"):
            a, ty = self.sel(), self.id()
            ev = o(lambda: self.null(self.id))
            nm = o(lambda: self.null(self.text))
            spec = [("ride" if f == "summon_rider" else "rider", a),
                    ("type", ty), ("event", ev), ("name", nm)]
            mode = None
            if f == "summon_ride":
                m = o(lambda: self.enum("skip_riders", "no_ride_change",
                                        "reassign_rides"))
                mode = val(m, "reassign_rides")
                spec.append(("mode", m))
            return self.call(f, spec), lambda env, ctx: [
                (f, e.uid, ty.value, mode, val(ev, None),
                 val(nm, None) or "") for e in a.value(env)]
        if f == "spread":
            t, p = self.sel(), self.pos()
            rg = round(r.choice([1, 1, 2, r.uniform(1, 60)]), 2)
            if r.random() < .4:
                rg = int(rg)
            ra = Sch(str(rg), rg)
            iv = None
            if r.random() < .6:
                x = r.choice([0, rg - 1, r.uniform(0, max(0, rg - 1))])
                x = math.floor(x * 100) / 100
                if x + 1 <= rg and r.random() < .9:
                    x = int(x) if x == int(x) and r.random() < .5 else x
                    iv = Sch(str(x), x)

            def exp(env, ctx):
                es = frozenset(e.uid for e in t.value(env))
                c = at(p)(env, ctx)
                return [("spread", c.dim, R((c.pos[0], c.pos[2])),
                         round(float(val(iv, 0.0)), 6), round(float(rg), 6),
                         es)]
            return self.call(f, [("target", t), ("center", p), ("range", ra),
                                 ("interval", iv)]), exp
        if f == "summon":
            ty, p = self.id(), self.pos()
            ev = o(lambda: self.null(self.id))
            nm = o(lambda: self.null(self.text))
            hasrot = self.ver >= (1, 19, 70)
            rt = o(self.rot) if hasrot else None

            def exp(env, ctx):
                c = at(p)(env, ctx)
                rot = None
                if hasrot:
                    rot = (0.0, 0.0)
                    if rt is not None:
                        rot = c21.fold_from(
                            p.value + rt.value, env["snap"], ctx_eye(ctx),
                            ctx).rot
                    rot = R(rot)
                return [("summon", c.dim, ty.value, R(c.pos), rot,
                         val(ev, None), val(nm, None) or "")]
            return self.call(f, [("type", ty), ("pos", p), ("event", ev),
                                 ("name", nm), ("rot", rt)]), exp
        if f in ("tag_add", "tag_remove"):
            t, tg = self.sel(), self.tag()
            return self.call(f, [("target", t), ("tag", tg)]), \
                lambda env, ctx: [("tag", f[4:], e.uid, tg.value)
                                  for e in t.value(env)]
        if f == "tp":
            t, p = self.sel(), self.pos()
            c_ = o(self.bool)

            def exp(env, ctx):
                es = t.value(env)
                c = at(p)(env, ctx)
                return [("tp", e.uid, c.dim, R(c.pos), None,
                         val(c_, False)) for e in es]
            return self.call(f, [("target", t), ("dest", p),
                                 ("check_for_blocks", c_)]), exp
        if f == "rotate":
            t, rt = self.sel(), self.rot()

            def exp(env, ctx):
                out = []
                for e in t.value(env):
                    s = dict(env["snap"])
                    s["__e"] = c21.Snap(e)
                    c = c21.fold([("at", "__e"), ("anchor", "feet")]
                                 + rt.value, s, e.eye)
                    out.append(("tp", e.uid, e.dim, R(e.pos), R(c.rot),
                                False))
                return out
            return self.call(f, [("target", t), ("rot", rt)]), exp
        if f in ("move", "move_local"):
            t = self.sel()
            ns = ("x", "y", "z") if f == "move" else ("left", "up", "front")
            v = [o(self.num3, .35) for _ in range(3)]
            c_ = o(self.bool)
            k = "~" if f == "move" else "^"

            def exp(env, ctx):
                out = []
                for e in t.value(env):
                    c = c21.fold([("at", "e"), ("anchor", "feet"), (
                        "go", [(k, val(a, 0.0)) for a in v])],
                        {"e": c21.Snap(e)}, 0.0)
                    out.append(("tp", e.uid, e.dim, R(c.pos), None,
                                val(c_, False)))
                return out
            return self.call(f, [("target", t)] + list(zip(ns, v))
                             + [("check_for_blocks", c_)]), exp
        # players
        t = self.sel(True)
        if f == "ability":
            a, b = self.id(), self.bool()
            return self.call(f, [("player", t), ("ability", a),
                                 ("value", b)]), lambda env, ctx: [
                ("ability", e.uid, a.value, b.value) for e in t.value(env)]
        if f == "clear_inventory":
            return self.call(f, [("player", t)]), lambda env, ctx: [
                ("clear", e.uid, None, -1, -1) for e in t.value(env)]
        if f == "clear":
            i = self.id()
            d = o(lambda: self.int(-1, 2**31 - 1))
            n = o(lambda: self.int(-1, 2**31 - 1))
            return self.call(f, [("player", t), ("item_id", i),
                                 ("item_data", d), ("max_count", n)]), \
                lambda env, ctx: [("clear", e.uid, i.value, val(d, -1),
                                   val(n, -1)) for e in t.value(env)]
        if f == "spawnpoint_clear":
            return self.call(f, [("player", t)]), lambda env, ctx: [
                ("clearspawn", e.uid) for e in t.value(env)]
        if f == "gamemode":
            m = self.enum("survival", "creative", "adventure", "spectator",
                          "default")
            return self.call(f, [("player", t), (None, m)]), \
                lambda env, ctx: [("gamemode", e.uid, m.value)
                                  for e in t.value(env)]
        if f == "give":
            it, n = self.item(), o(lambda: self.int(1, 32767))
            return self.call(f, [("player", t), ("item", it),
                                 ("amount", n)]), lambda env, ctx: [
                ("give", e.uid, it.value[0], val(n, 1)) + it.value[1:]
                for e in t.value(env)]
        if f == "kick":
            nm = self.enum("Bob", "A b", "q\"t", "@a", "x-y")
            rs = o(lambda: self.null(self.text))
            return self.call(f, [("player_name", nm), ("reason", rs)]), \
                lambda env, ctx: [("kick", nm.value, val(rs, None) or "")]
        if f == "recipe":
            i = self.enum("*", "minecraft:bed", "a b", "x*")
            b = self.bool()
            return self.call(f, [("player", t), ("recipe", i),
                                 ("unlock", b)]), lambda env, ctx: [
                ("recipe", "give" if b.value else "take", e.uid, i.value)
                for e in t.value(env)]
        if f == "spawnpoint_set":
            p = self.pos()

            def exp(env, ctx):
                c = at(p)(env, ctx)
                return [("spawn", e.uid, c.dim, R(c.pos))
                        for e in t.value(env)]
            return self.call(f, [("player", t), ("pos", p)]), exp
        if f == "xp_add_levels":
            n = self.int(-2**31, 2**31 - 1)
            return self.call(f, [("player", t), ("amount", n)]), \
                lambda env, ctx: [("xp", "L", e.uid, n.value)
                                  for e in t.value(env)]
        if f == "xp_add_points":
            n = self.int(0, 2**31 - 1)
            return self.call(f, [("player", t), ("amount", n)]), \
                lambda env, ctx: [("xp", "p", e.uid, n.value)
                                  for e in t.value(env)]
        raise AssertionError(f)

    def end(self, c, off, env):
        """where an offset leads from context c"""
        d = c21.C(c.pos, c.rot, c.dim, c.anchor, c.eye)
        return c21.fold([("go", off)], {}, c.eye, d).pos


def ctx_eye(ctx):
    return ctx.ent.eye if ctx.ent is not None else 0.0


HEAD = '''import world
entity T:
    def here(m: int):
%s
e0 := T("pig", Pos(1, 2, 3))
e1 := T("cow", Pos(4, 5, 6))
grp := Engroup[T]()
grp.add(e0)
%s
ext := ExternEngroup()
ext.select(Enfilter().has_tag("world_ext"))
all := ExternEngroup()
all.select(Enfilter().is_type("player"))
one := ExternEngroup()
one.select(Enfilter().has_tag("world_p0"))
interface see:
    /see e0 ${e0}
    /see e1 ${e1}
'''


def make(seed):
    g = G(seed)
    r = g.r
    marks = {}

    def calls(n, ind):
        out = []
        for _ in range(n):
            f = r.choice(FUNCS)
            if f == "ability" and not g.edu or f == "kill":
                f = "setblock"
            text, exp = g.draw(f)
            m = len(marks)
            marks[m] = (f, exp, text)
            if g.var is not None:
                out.append("%s/see %s ${%s}" % (ind, g.var, g.var))
            out.append("%s%s/snap %d\n%s%s" % (
                g.flush_defs(ind), ind, m, ind, text))
        return "\n".join(out)
    nent_in_grp = r.random() < .5
    # (a method cannot use the variables of the module made after it)
    g.scope("self")
    meth = calls(r.randint(1, 3), "        ")
    body = []
    for k in range(r.randint(2, 4)):
        x = r.random()
        out = ["interface t%d:" % k]
        if x < .35:
            g.scope("x")
            out.append("    for x in %s:" % r.choice(["grp", "ext", "all"]))
            out.append(calls(r.randint(1, 2), "        "))
        elif x < .45:
            out.append("    %s.here(1)" % r.choice(["e0", "e1"]))
        elif x < .7:
            g.scope("p0")
            out.append("    for p0 in one:")
            out.append(calls(r.randint(2, 5), "        "))
        else:
            g.scope(None)
            out.append(calls(r.randint(2, 5), "    "))
        body.append("\n".join(out))
    src = HEAD % (meth, "grp.add(e1)" if nent_in_grp else "") \
        + "\n".join(body) + "\n"
    return src, g, marks, nent_in_grp


def case_prog(case, mon):
    src, g, marks, both = make(case)
    r = random.Random("w %r" % (case,))
    cfg = {"optimizer": r.random() < .6, "mc_version": g.ver,
           "education_edition": g.edu}
    res = kit.compile_src(src, **cfg)
    if not res.ok:
        mon.violation("prog:" + res.kind, "a call inside the documented "
                      "domain is not compiled: %s" % res.message, source=src,
                      traceback=res.tb, config=repr(cfg))
        mon.evaluated()
        return
    mon.count("reused_arguments", g.reused)
    vm = vmmod.VM(res.functions(), budget=50000, players=0)
    vm.block_eq = "=" if g.ver >= (1, 20, 10) else ":"
    vm.summon_rot = g.ver >= (1, 19, 70)
    ppl = [vm.add_entity("player", name="P%d" % i, pos=(10. + i, 60., 7.),
                         tags=("world_p0",) if i == 0 else ())
           for i in range(r.randint(1, 3))]
    for i in range(3):
        vm.add_entity("sheep", pos=(5. * i, 3., 1.), tags=(
            "world_ext",) if i else ())
    if r.random() < .5:
        ppl[-1].tags.add("world_ext")
    recs, cur = [], [None]
    seen = {}
    problems = []
    state = {"stack": []}

    def flush():
        if cur[0] is None:
            return
        m, want, got, ctx = cur[0]
        cur[0] = None
        w, h = Counter(want), Counter(got)
        f, exp, text = marks[m]
        mon.evaluated()
        mon.count("call_" + f)
        mon.count("records", len(want))
        mon.nontrivial(text, repr(want))
        if w != h:
            problems.append((m, "%s: does %s instead of %s" % (
                text, sorted((h - w).elements(), key=repr)[:4],
                sorted((w - h).elements(), key=repr)[:4])))

    def on_cmd(vm, ctx, line):
        name = line.split(" ", 1)[0]
        if name in ("execute", "function", "snap", "see", "scoreboard"):
            return
        if name == "tag":
            t = vm.toks(line)
            if len(t) == 4 and t[3][0].startswith("acacia"):
                return
        if cur[0] is None:
            if state["run"]:
                problems.append((None, "unexpected command %r" % line))
            return
        try:
            out = mc.read(vm, ctx, line)
        except vmmod.SyntaxFault as e:
            problems.append((cur[0][0], "malformed command: %s" % e))
            return
        except IndexError:
            problems.append((cur[0][0], "malformed command: %s" % line))
            return
        if out is None:
            problems.append((cur[0][0], "unexpected command %r" % line))
            return
        cur[0][2].extend(out)

    def raw(vm, ctx, line):
        w = line.split(" ")
        if w[0] == "see":
            es = vm.ents(line.split(" ", 2)[2], ctx)
            flush()
            seen[w[1]] = [e.uid for e in es]
            if state["run"]:
                state["env"][w[1]] = es
                if len(es) != 1:
                    problems.append((None, "%s names %r" % (w[1], es)))
            return True
        if w[0] == "snap":
            flush()
            m = int(w[1])
            f, exp, text = marks[m]
            env = dict(state["env"])
            env["snap"] = {k: c21.Snap(v[0]) for k, v in env.items()
                           if k != "snap" and len(v) == 1}
            cur[0] = (m, exp(env, ctx), [], ctx)
            return True
        return True             # world commands the VM does not act out
    vm.on_cmd, vm.on_raw = on_cmd, raw
    state["run"] = False
    vm.run_function("main")
    vm.run_function("see")
    byid = {e.uid: e for e in vm.entities}
    e0 = [byid[u] for u in seen.get("e0", [])]
    e1 = [byid[u] for u in seen.get("e1", [])]
    if len(e0) != 1 or len(e1) != 1:
        mon.violation("prog:see", "variables name %r" % seen, source=src)
        return
    state["env"] = {
        "e0": e0, "e1": e1, "grp": e0 + (e1 if both else []),
        "ext": [e for e in vm.entities if "world_ext" in e.tags],
        "all": ppl, "p0": [ppl[0]], "self": e0, "x": e0}
    state["run"] = True
    for n in range(6):
        name = "t%d" % n
        if name not in vm.files:
            continue
        for e in vm.entities:
            if r.random() < .7:
                e.pos = tuple(round(r.uniform(-40, 40), 2) for _ in "xyz")
                e.rot = (round(r.uniform(-80, 80), 1),
                         round(r.uniform(-179, 179), 1))
        ctx = vmmod.Ctx(pos=(3.0, 4.0, 5.0), rot=(1.0, 2.0))
        vm.run_function(name, ctx)
        flush()
    if vm.faults:
        problems.append((None, "fault %r" % (vm.faults[0],)))
    for m, what in problems[:1]:
        f = marks[m][0] if m is not None else "other"
        mon.violation("call:" + f, what, source=src, config=repr(cfg))
    mon.count("programs")
    mon.sample(src)


# --- kill, and judgements ---------------------------------------------------

def case_kill(case, mon):
    g = G(case)
    r = g.r
    k = r.choice(["e0", "e1", "grp", "ext", "all"])
    src = HEAD % ("        /noop", "") + (
        "interface t0:\n    /snap 0\n    world.kill(%s%s)\n    /snap 1\n"
        % (r.choice(["", "target="]), k))
    res = kit.compile_src(src)
    if not res.ok:
        mon.violation("kill:" + res.kind, res.message, source=src)
        return
    vm = vmmod.VM(res.functions(), players=0)
    for i in range(3):
        vm.add_entity("sheep", tags=("world_ext",) if i else ())
    for i in range(2):
        vm.add_entity("player", name="P%d" % i)
    seen = {}

    def raw(vm, ctx, line):
        w = line.split(" ", 2)
        if w[0] == "see":
            seen[w[1]] = [e.uid for e in vm.ents(w[2], ctx)]
        return True
    vm.on_raw = raw
    vm.run_function("main")
    vm.run_function("see")
    want = {"e0": seen["e0"], "e1": seen["e1"], "grp": seen["e0"],
            "ext": [e.uid for e in vm.entities if "world_ext" in e.tags],
            "all": [e.uid for e in vm.entities if e.type == "player"]}[k]
    vm.events = []
    vm.run_function("t0")
    got = sorted(u for e in vm.events if e[0] == "kill" for u in e[1])
    mon.evaluated()
    mon.count("call_kill")
    mon.nontrivial(k, src)
    if got != sorted(want):
        mon.violation("call:kill", "kill(%s) kills %r instead of %r" % (
            k, got, want), source=src)


def case_judge(case, mon):
    g = G(case)
    r = g.r
    use = []
    want = []
    nblk = r.randint(1, 5)
    blocks = {}
    for i in range(r.randint(2, 5)):
        k = r.choice(["is_block", "is_block", "is_same_area", "is_entity"])
        if k == "is_block":
            p = g.pos()
            b = r.choice(["stone", "minecraft:dirt", "air"])
            st = r.choice([None, None, ("k", 1)])
            bt = q(b) if st is None else 'world.Block(%s, {"k": 1})' % q(b)
            t = r.choice(["world.is_block(%s, %s)", "world.is_block("
                          "block=%s, pos=%s)"])
            t = t % ((p.text, bt) if "block=" not in t else (bt, p.text))
            cond = ("block", p.value, b, st)
        elif k == "is_same_area":
            p, a, b = g.pos(), g.off(), g.off()
            ig = r.choice([None, True, False])
            t = "world.is_same_area(%s, %s, %s%s)" % (
                p.text, a.text, b.text, "" if ig is None else
                r.choice([", %s", ", ignore_air=%s"]) % ig)
            cond = ("area", p.value, a.value, b.value,
                    "masked" if ig else "all")
        else:
            e = r.choice(["e0", "e1"])
            fl, fn = r.choice([
                ('Enfilter().has_tag("w0")', lambda x: "w0" in x.tags),
                ('Enfilter().is_type("pig")', lambda x: x.type == "pig"),
                ('Enfilter().has_no_tag("w0").is_type("cow")',
                 lambda x: x.type == "cow" and "w0" not in x.tags),
                ('Enfilter()', lambda x: True)])
            t = r.choice(["world.is_entity(%s, %s)",
                          "world.is_entity(%s, filter=%s)"]) % (e, fl)
            cond = ("entity", e, fn)
        form = r.choice(["if", "not", "bool", "and", "else"])
        m = i * 3
        if g.defs:
            use.append(g.flush_defs("    ").rstrip("\n"))
        if form == "if":
            use.append("    if %s:\n        /snap %d" % (t, m))
        elif form == "not":
            use.append("    if not %s:\n        /snap %d" % (t, m + 1))
        elif form == "bool":
            use.append("    b = %s\n    if b:\n        /snap %d\n    else:\n"
                       "        /snap %d" % (t, m, m + 1))
        elif form == "and":
            use.append("    if n == 1 and %s:\n        /snap %d" % (t, m))
        else:
            use.append("    if %s:\n        /snap %d\n    else:\n        "
                       "/snap %d" % (t, m, m + 1))
        want.append((form, cond, m, t))
    src = HEAD % ("        /noop", "") + (
        "n := 1\nb := False\ninterface t0:\n%s\n" % "\n".join(use))
    cfg = {"mc_version": g.ver, "optimizer": r.random() < .5}
    res = kit.compile_src(src, **cfg)
    if not res.ok:
        mon.evaluated()
        mon.violation("judge:" + res.kind, "not compiled: %s" % res.message,
                      source=src, traceback=res.tb)
        return
    mon.count("reused_arguments", g.reused)
    vm = vmmod.VM(res.functions(), players=1)
    eq = "=" if g.ver >= (1, 20, 10) else ":"
    seen, snaps = {}, []
    areas = {}

    def raw(vm, ctx, line):
        w = line.split(" ", 2)
        if w[0] == "see":
            seen[w[1]] = [e for e in vm.ents(w[2], ctx)]
        elif w[0] == "snap":
            snaps.append(int(w[1]))
        return True

    def same(dim, pts, mode):
        key = (dim, tuple(mc.R(p) for p in pts), mode)
        # any fixed answer that depends on every part of the question
        return random.Random(repr(key)).random() < .5
    vm.on_raw, vm.on_blocks = raw, same
    vm.run_function("main")
    vm.run_function("see")
    if [len(seen.get(k, ())) for k in ("e0", "e1")] != [1, 1]:
        mon.violation("judge:see", repr(seen), source=src)
        return
    for rnd in range(3):
        for k in ("e0", "e1"):
            e = seen[k][0]
            e.pos = tuple(round(r.uniform(-5, 5), 2) for _ in "xyz")
            e.rot = (round(r.uniform(-80, 80), 1),
                     round(r.uniform(-170, 170), 1))
            e.tags.discard("w0")
            if r.random() < .5:
                e.tags.add("w0")
        env = {k: c21.Snap(seen[k][0]) for k in ("e0", "e1")}
        ctx = vmmod.Ctx(pos=(3.0, 4.0, 5.0))
        # put what is asked for at about half of the places
        vm.blocks = {}
        exp = []
        for form, c, m, t in want:
            if c[0] == "block":
                cc = c21.fold_from(c[1], env, 0.0, ctx)
                key = tuple(math.floor(v) for v in cc.pos) + (cc.dim,)
                if any(abs(v - round(v)) < 1e-6 and v != int(v)
                       for v in cc.pos):
                    return      # too close to a block edge
                if key not in vm.blocks and r.random() < .7:
                    vm.blocks[key] = (
                        r.choice([c[2], c[2], "other"]),
                        r.choice([None, '["k"%s1]' % eq, '["k"%s1]' % eq]))
        for form, c, m, t in want:
            if c[0] == "block":
                cc = c21.fold_from(c[1], env, 0.0, ctx)
                key = tuple(math.floor(v) for v in cc.pos) + (cc.dim,)
                have = vm.blocks.get(key, ("air", None))
                v = have[0] == c[2] and (c[3] is None
                                         or have[1] is not None)
            elif c[0] == "area":
                cc = c21.fold_from(c[1], env, 0.0, ctx)
                v = same(cc.dim, (cc.pos, g.end(cc, c[2], env),
                                  g.end(cc, c[3], env)), c[4])
            else:
                v = c[2](seen[c[1]][0])
            mon.evaluated()
            mon.count("judged_true" if v else "judged_false")
            mon.nontrivial(t, repr(sorted((k, s.pos) for k, s in
                                          env.items())))
            if v and form in ("if", "bool", "and", "else"):
                exp.append(m)
            if not v and form in ("not", "bool", "else"):
                exp.append(m + 1)
        del snaps[:]
        vm.run_function("t0", ctx)
        if snaps != exp:
            d = [t for form, c, m, t in want
                 if ((m in snaps) != (m in exp)
                     or (m + 1 in snaps) != (m + 1 in exp))]
            mon.violation("judge:value", "%s has the wrong truth (markers %r "
                          "instead of %r)" % (d[:1], snaps, exp), source=src)
            return
        if vm.faults:
            mon.violation("judge:fault", repr(vm.faults[0]), source=src)
            return


# --- outside the domain -----------------------------------------------------

BAD = [
    'clone(P, O, O, "fast")', 'clone(P, O)', 'clone(O, O, O)',
    'clone(P, P0, O)', 'clone(P, O, O, True)', 'clone(P, O, O, no_air=1)',
    'clone(P, O, O, no_air=bv)', 'clone_only(P, O, O)',
    'clone_only(P, O, O, 1)', 'clone_only(P, O, O, "a", "normal")',
    'fill(P, O, "a", "keep")', 'fill(P, O, "a", None)', 'fill(P, O)',
    'fill(P, O, "a", "replace")', 'fill_replace(P, O, "a")',
    'fill_replace(P, O, "a", None)', 'setblock(P, "a", "hollow")',
    'setblock(P, "a", "keep")', 'setblock(P)', 'setblock(P, x)',
    'setblock(E, "a")', 'setblock(O, "a")', 'setblock("a", P)',
    'setblock(P, world.Item("a"))', 'setblock(P, world.Block("a", {1: 2}))',
    'setblock(P, world.Block("a", {"k": 1.5}))',
    'setblock(P, world.Block("a", {"k": None}))',
    'setblock(P, world.Block())', 'setblock(P, world.Block(1))',
    'damage(E, -1)', 'damage(E, 1.5)', 'damage(E, x)', 'damage(E)',
    'damage(E, 1, None, E)', 'damage(E, 1, damager=E)',
    'damage(E, 1, "c", G)', 'damage(P, 1)', 'damage(E, 1, 2)',
    'effect_give(E, "a")', 'effect_give(E, "a", -1)',
    'effect_give(E, "a", 1, -1)', 'effect_give(E, "a", 1, 256)',
    'effect_give(E, "a", 1, 300)', 'effect_give(E, "a", 1, 1, 1)',
    'effect_give(E, "a", 1, 1, bv)', 'effect_give(E, "a", x)',
    'effect_give(E, "a", 1.0)', 'effect_clear()', 'effect_clear(P)',
    'enchant(E, "a", 0)', 'enchant(E, "a", -1)', 'enchant(E)',
    'enchant(E, "a", x)', 'event_entity(E)', 'event_entity(E, 1)',
    'kill()', 'kill(1)', 'kill("e")', 'kill(E, E)', 'kill(P)', 'kill(None)',
    'msg_me(G, "a")', 'msg_me(E)', 'msg_me(E, 1)', 'msg_say(G, "a")',
    'msg_say("a", E)', 'msg_tell(E, "a")', 'msg_tell(G, E, "a")',
    'msg_tell(E, E, x)', 'replaceitem_block(P, 1)',
    'replaceitem_block(P, "a", "b")', 'replaceitem_block(P, 1, "b", 0)',
    'replaceitem_block(P, 1, "b", -3)', 'replaceitem_block(P, 1.0, "b")',
    'replaceitem_block(P, 1, "b", 1, 1)', 'replaceitem_block(E, 1, "b")',
    'replaceitem_entity(E, "l", 1)', 'replaceitem_entity(E, 1, "l", "a")',
    'replaceitem_entity(E, "l", 1, "a", 0)',
    'replaceitem_entity(E, "l", x, "a")',
    'give(E, world.Item("a", -1))', 'give(E, world.Item("a", 32768))',
    'give(E, world.Item("a", lock="x"))', 'give(E, world.Item("a", 0, 1))',
    'give(E, world.Item("a", can_destroy="x"))',
    'give(E, world.Item("a", can_destroy={1}))', 'give(E, world.Item())',
    'give(E, world.Item("a", can_place_on={None}))',
    'give(E, world.Block("a"))', 'give(E, "a", 0)', 'give(E, "a", 32768)',
    'give(E, "a", -1)', 'give(E, x)', 'give(P, "a")', 'give(E)',
    'ride_start_tp_ride(G, E)', 'ride_start_tp_ride(E, G)',
    'ride_start_tp_ride(E)', 'ride_start_tp_rider(E, G)',
    'ride_start_tp_rider(G, E, "full")', 'ride_start_tp_rider(G, E, None)',
    'ride_stop()', 'ride_stop(P)', 'ride_evict_riders(1)',
    'summon_rider(E)', 'summon_rider(E, 1)', 'summon_rider(E, "a", 1)',
    'summon_rider(E, "a", None, 2)', 'summon_ride(E)',
    'summon_ride(E, "a", mode="x")', 'summon_ride(E, "a", mode=None)',
    'summon_ride(P, "a")', 'spread(E, P, 0)', 'spread(E, P, 0.99)',
    'spread(E, P, -1)', 'spread(E, P, 5, -0.1)', 'spread(E, P, 5, 4.01)',
    'spread(E, P, 5, 5)', 'spread(E, P, 1, 0.5)', 'spread(E, P, x)',
    'spread(E, P)', 'spread(P, P, 3)', 'spread(E, P, 5, interval=6)',
    'summon("a")', 'summon(P, "a")', 'summon("a", E)', 'summon("a", P, 1)',
    'summon("a", P, rot=P)', 'summon("a", P, name=1)', 'tag_add(E)',
    'tag_add(E, 1)', 'tag_add(P, "a")', 'tag_remove(E)',
    'tag_remove(E, None)', 'tp(E)', 'tp(P, E)', 'tp(E, E)', 'tp(E, O)',
    'tp(E, P, 1)', 'tp(E, P, bv)', 'rotate(E)', 'rotate(E, P)',
    'rotate(E, 1)', 'rotate(P, Rot(1, 2))', 'move(E, "a")', 'move(E, x)',
    'move(E, 1, 2, 3, 4)', 'move(P)', 'move(E, None)', 'move_local(E, x)',
    'move_local(E, front="a")', 'clear_inventory(P)', 'clear_inventory()',
    'clear(E)', 'clear(E, "a", -2)', 'clear(E, "a", 1, -2)', 'clear(E, 1)',
    'clear(E, "a", x)', 'spawnpoint_clear(P)', 'spawnpoint_clear()',
    'gamemode(E)', 'gamemode(E, "s")', 'gamemode(E, 0)',
    'gamemode(E, "Survival")', 'gamemode("creative", E)', 'kick()',
    'kick(E)', 'kick("a", 1)', 'recipe(E, "a")', 'recipe(E, 1, True)',
    'recipe(E, "a", 1)', 'recipe(E, "a", bv)', 'recipe(P, "a", True)',
    'spawnpoint_set(E)', 'spawnpoint_set(E, E)', 'spawnpoint_set(P, P)',
    'spawnpoint_set(E, O)', 'xp_add_levels(E)', 'xp_add_levels(E, x)',
    'xp_add_levels(E, 1.0)', 'xp_add_levels(P, 1)', 'xp_add_points(E)',
    'xp_add_points(E, -1)', 'xp_add_points(E, x)', 'is_block(P)',
    'is_block(E, "a")', 'is_block(P, 1)', 'is_same_area(P, O)',
    'is_same_area(P, O, P0)', 'is_same_area(P, O, O, 1)',
    'is_entity(E)', 'is_entity(G, Enfilter())', 'is_entity(E, "a")',
    'is_entity(P, Enfilter())', 'ability(E, "a", True)', 'nothing(E)',
]


def case_bad(case, mon):
    _, seed, k = case
    r = random.Random("b %r" % (case,))
    import re
    text = BAD[k % len(BAD)]
    sub = {"P": r.choice(["Pos(1, 2, 3)", "Pos(e0)",
                          'Pos(e1).offset(y=1).dim("nether")']),
           "P0": "Pos(1, 2, 3)", "O": r.choice([
               "Offset(1, 2, 3)", "Offset()", "Offset.local(1, 2, 3)"]),
           "E": r.choice(["e0", "e1"]), "G": r.choice(["grp", "ext", "all"])}
    t = re.sub(r'(?<!")\b(P0|P|O|E|G)\b(?!")', lambda m: sub[m.group(1)],
               text)
    edu = not text.startswith("ability")
    pre = HEAD % ("        /noop", "") + "x := 1\nbv := True\n"
    if r.random() < .5:
        src = pre + "world.%s\ny := 2\n" % t
        line = pre.count("\n") + 1
    else:
        src = pre + "interface i:\n    y := 1\n    world.%s\n" % t
        line = pre.count("\n") + 3
    res = kit.compile_src(src, education_edition=edu)
    mon.evaluated()
    mon.nontrivial(t)
    if res.kind != "error":
        mon.violation("bad:" + res.kind, "%s is not refused (%s)" % (
            t, res.message), source=src, traceback=res.tb)
        return
    loc = getattr(res.exc, "location", None)
    ln = loc.linecol[0] if loc is not None and loc.linecol else None
    if ln != line:
        mon.violation("bad:line", "%s is reported at line %r instead of %d"
                      % (t, ln, line), source=src)
        return
    mon.count("refused")
    if text.startswith("summon(") or text.startswith("ability"):
        return


def case_version(case, mon):
    """summon's rot before 1.19.70, ability outside Education Edition"""
    _, v = case
    src = ('import world\nworld.summon("a", Pos(1, 2, 3), rot=Rot(1, 2))\n')
    res = kit.compile_src(src, mc_version=v)
    mon.evaluated()
    mon.nontrivial(src, v)
    if res.ok != (v >= (1, 19, 70)):
        mon.violation("version", "summon with rot in %r: %s" % (
            v, res.message), source=src)
    mon.count("versions")


def cases(tier, seed):
    n = 1500 if tier == "quick" else 40000
    out = [("prog", s) for s in runner.spread(seed, "c25", n)]
    out += [("kill", s) for s in runner.spread(seed, "c25k", n // 20)]
    out += [("judge", s) for s in runner.spread(seed, "c25j", n // 2)]
    nb = len(BAD) * (5 if tier == "quick" else 40)
    out += [("bad", s, i) for i, s in enumerate(
        runner.spread(seed, "c25b", nb))]
    out += [("version", v) for v in VERSIONS]
    return out


def run_case(case, mon):
    {"prog": case_prog, "kill": case_kill, "judge": case_judge,
     "bad": case_bad, "version": case_version}[case[0]](case, mon)
