"""C18: entity filters.

Workload: random worlds (mobs and players with names, tags, positions,
rotations, dimensions, items, levels, game modes, permissions and scores) and
random chains of filter conditions, used by select / drop / filter on several
groups, by world.is_entity in if, while and boolean expressions, and shared
between uses through constants.  Oracle: every condition applied, in order, to
the set of entities the previous ones left; what the game picks at random is
taken from the VM's log after checking it was picked from the right entities
and in the right number.  Marks left over are looked for at the end."""
import math
import random

from acv import kit, runner
from acv import vm as vmmod

PROPERTY = "C18"
RULE = ("one evaluation = one program with several filter uses compiled and "
        "executed in a random world, the group members after every use "
        "compared; non-trivial = at least one use that selected some but not "
        "all entities, distinct by source text and world")
ASSUME = ["distances are at least 0.01 away from the limits given and from "
          "each other where an order matters",
          "nearest and farthest are asked among entities of one dimension",
          "one filter names an objective at most once",
          "players are alive"]
LEVEL = "exploration"
TYPES = ["pig", "cow", "armor_stand", "player"]
NAMES = ["", "zed", "a b", "Bob", "x,y"]
TAGS = ["t1", "t2", "t 3", "u-4", "q\"5"]
ITEMS = ["apple", "stick"]
SLOTS = ["slot.hotbar", "slot.weapon.mainhand"]
MODES = ["survival", "creative", "adventure"]
PERMS = ["camera", "movement"]
OBJS = ["obs2", "my obj"]


class Skip(Exception):
    pass


class W:
    """one world entity, as the oracle sees it"""

    def __init__(self, r, uid, type_=None):
        self.uid = uid
        self.type = type_ or r.choice(TYPES)
        self.name = r.choice(NAMES)
        c = lambda: round(r.uniform(-12, 12), 2)
        self.pos = (c(), round(r.uniform(0, 12), 2), c())
        self.rot = (round(r.uniform(-90, 90), 1),
                    round(r.uniform(-180, 180), 1))
        self.dim = r.choice(["overworld"] * 9 + ["nether"])
        self.tags = set(r.sample(TAGS, r.choice([0, 1, 2, 3])))
        self.items = [(r.choice(ITEMS), r.randint(1, 6), r.randint(0, 2),
                       r.choice(SLOTS), r.randint(0, 3))
                      for _ in range(r.choice([0, 0, 1, 2, 3]))]
        self.level = r.randint(0, 9) if self.type == "player" else 0
        self.mode = r.choice(MODES)
        self.perms = set(r.sample(PERMS, r.randint(0, 2)))
        self.scores = {o: r.randint(-6, 6) for o in OBJS if r.random() < .7}


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def rng_text(r):
    a, b = sorted((r.randint(-5, 5), r.randint(-5, 5)))
    neg = r.random() < .25
    x = r.random()
    if x < .25:
        t, f = "%d" % a, lambda v: v == a
    elif x < .5:
        t, f = "%d.." % a, lambda v: v >= a
    elif x < .75:
        t, f = "..%d" % b, lambda v: v <= b
    else:
        t, f = "%d..%d" % (a, b), lambda v: a <= v <= b
    if r.random() < .2:
        t = " " + t.replace("..", " .. ") + " "
    if neg:
        return ("!" + t, lambda v: not f(v))
    if x < .25 and r.random() < .5:
        return (a, f)
    return (t, f)


def rtext(v):
    if isinstance(v, int):
        return "%d" % v if v >= 0 else "-%d" % -v
    return q(v)


class Flt:
    """text plus the list of steps"""

    def __init__(self, text, steps, known):
        self.text, self.steps, self.known = text, steps, known


class Gen:
    def __init__(self, r):
        self.r = r
        self.ents = []          # (variable, oracle entity getter)
        self.like = .35
        self.like_only = None

    def num(self, lo, hi):
        r = self.r
        x = r.choice([r.randint(int(lo), int(hi)),
                      round(r.uniform(lo, hi), 2)])
        return x

    def origin(self):
        """(text, fn(env) -> (pos, dim))"""
        r = self.r
        x = r.random()
        if self.ents and x < .4:
            n = r.choice(self.ents)
            dx, dy, dz = (round(r.uniform(-3, 3), 1) for _ in "xyz")
            if r.random() < .5:
                return "Pos(%s)" % n, lambda env: (env[n].pos, env[n].dim)
            return ("Pos(%s).offset(%s, %s, %s)" % (n, dx, dy, dz),
                    lambda env: (tuple(a + b for a, b in zip(
                        env[n].pos, (dx, dy, dz))), env[n].dim))
        p = tuple(round(r.uniform(-8, 8), 1) for _ in "xyz")
        t = "Pos(%s, %s, %s)" % p
        if x < .5:
            return t + '.dim("nether")', lambda env: (p, "nether")
        return t, lambda env: (p, "overworld")

    def step(self, f, is_entity=False):
        """append one random condition to filter f"""
        r = self.r
        m = r.choice([
            "has_tag", "has_tag", "has_no_tag", "is_type", "is_not_type",
            "is_name", "is_not_name", "distance_from", "distance_from",
            "inside", "rot_vertical", "rot_horizontal", "has_item", "scores",
            "level", "is_game_mode", "is_not_game_mode", "has_permission",
            "has_no_permission", "all_players", "random", "nearest_from",
            "farthest_from", "random", "nearest_from"])
        known = f.known
        kw = lambda n: n + "=" if r.random() < .5 else ""
        if m in ("has_tag", "has_no_tag", "is_not_type", "is_not_name",
                 "is_not_game_mode", "has_permission", "has_no_permission"):
            pool = {"has_tag": TAGS, "has_no_tag": TAGS, "is_not_type": TYPES,
                    "is_not_name": NAMES[1:], "is_not_game_mode": MODES
                    }.get(m, PERMS)
            if "permission" in m and "permission" in f.text:
                return f
            a = r.sample(pool, r.choice([0, 1, 1, 1, 1, 2, 2]))
            if not a and known != "player" and ("mode" in m or "perm" in m):
                return f
            t = ", ".join(map(q, a))
            p = {
                "has_tag": lambda e: all(x in e.tags for x in a),
                "has_no_tag": lambda e: not any(x in e.tags for x in a),
                "is_not_type": lambda e: e.type not in a,
                "is_not_name": lambda e: e.name not in a,
                "is_not_game_mode": lambda e: not a or (
                    e.type == "player" and e.mode not in a),
                "has_permission": lambda e: not a or (
                    e.type == "player" and e.perms >= set(a)),
                "has_no_permission": lambda e: not a or (
                    e.type == "player" and not e.perms & set(a)),
            }[m]
            s = ("pred", p)
            if "mode" in m or "perm" in m:
                known = "player"
        elif m in ("is_type", "is_name", "is_game_mode"):
            a = r.choice({"is_type": TYPES, "is_name": NAMES[1:],
                          "is_game_mode": MODES}[m])
            t = kw({"is_type": "type", "is_name": "name",
                    "is_game_mode": "mode"}[m]) + q(a)
            s = ("pred", {"is_type": lambda e: e.type == a,
                          "is_name": lambda e: e.name == a,
                          "is_game_mode": lambda e: e.type == "player"
                          and e.mode == a}[m])
            known = {"is_type": a, "is_game_mode": "player"}.get(m, known)
        elif m == "distance_from":
            o, fn = self.origin()
            lo, hi = sorted((self.num(0, 14), self.num(0, 14)))
            c = r.choice([(lo, None), (None, hi), (None, hi), (lo, hi)])
            t = o
            if c[0] is not None:
                t += ", min=%s" % c[0]
            if c[1] is not None:
                t += ", max=%s" % c[1]
            s = ("dist", fn, c)
        elif m == "inside":
            o, fn = self.origin()
            d = [self.num(-14, 14) for _ in "xyz"]
            n = r.choice([1, 2, 3, 3, 3])
            t = ", ".join([o] + [a + ("%s" % v) for a, v in zip(
                ["dx=", "dy=", "dz="] if r.random() < .5 else [""] * 3,
                d[:n])])
            d[n:] = [0] * (3 - n)
            s = ("inside", fn, d)
        elif m in ("rot_vertical", "rot_horizontal"):
            top = 90 if m == "rot_vertical" else 180
            ax = 0 if m == "rot_vertical" else 1
            lo, hi = sorted((self.num(-top, top), self.num(-top, top)))
            x = r.random()
            if x < .3:
                t, hi = "min=%s" % lo, top
            elif x < .5:
                t, lo = "max=%s" % hi, -top
            else:
                t = "%s, %s" % (lo, hi)
            s = ("pred", lambda e: lo <= e.rot[ax] <= hi)
        elif m == "has_item":
            if "has_item" in f.text and r.random() < .5:
                return f
            it = r.choice(ITEMS)
            t = q(it)
            ok = lambda v: v >= 1
            if r.random() < .6:
                v, ok = rng_text(r)
                t += ", quantity=" + rtext(v)
            data = r.choice([None, None, 0, 1, 2])
            if data is not None:
                t += ", data=%d" % data
            sl, sok = None, None
            if r.random() < .4:
                sl = r.choice(SLOTS)
                t += ", slot_type=" + q(sl)
                if r.random() < .5:
                    v, sok = rng_text(r)
                    t += ", slot_num=" + rtext(v)
            s = ("pred", lambda e: ok(sum(
                n for i, n, d, l, k in e.items if i == it
                and (data is None or d == data) and (sl is None or l == sl)
                and (sok is None or sok(k)))))
        elif m == "scores":
            o = r.choice(OBJS)
            if q(o) in f.text:
                return f
            v, ok = rng_text(r)
            t = "%s, %s%s" % (q(o), kw("range"), rtext(v))
            s = ("pred", lambda e: o in e.scores and ok(e.scores[o]))
        elif m == "level":
            lo, hi = sorted((r.randint(0, 9), r.randint(0, 9)))
            c = r.choice([(lo, None), (None, hi), (lo, hi)])
            t = ", ".join(k + "=%d" % v for k, v in
                          zip(("min", "max"), c) if v is not None)
            s = ("pred", lambda e: e.type == "player"
                 and (c[0] is None or e.level >= c[0])
                 and (c[1] is None or e.level <= c[1]))
            known = "player"
        elif m == "all_players":
            t = ""
            s = ("pred", lambda e: e.type == "player")
            known = "player"
        elif m == "random":
            lim = r.choice([1, 1, 2, 3])
            ty = known or r.choice(TYPES)
            a = []
            if known is None or r.random() < .5:
                a.append(kw("type") + q(ty))
            if lim > 1 or r.random() < .3:
                a.append("limit=%d" % lim)
            t = ", ".join(a)
            known = ty
            s = ("random", ty, lim)
        else:
            o, fn = self.origin()
            lim = r.choice([1, 1, 2, 3])
            t = o
            if lim > 1 or r.random() < .3:
                t += ", %s%d" % (kw("limit"), lim)
            s = ("near" if m == "nearest_from" else "far", fn, lim)
        return Flt("%s.%s(%s)" % (f.text, m, t), f.steps + [s], known)

    def flt(self, consts):
        r = self.r
        f = Flt("Enfilter()", [], None)
        if self.like_only or consts and r.random() < self.like:
            n = self.like_only or r.choice(sorted(consts))
            f = Flt(n, consts[n].steps, consts[n].known)
            f.full = consts[n].full
            full = consts[n].full
        else:
            full = f.text
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5])):
            g = Flt(f.text + "\0" + full, f.steps, f.known)
            h = self.step(g)
            if h is g:
                continue
            extra = h.text[len(g.text):]
            f, full = Flt(f.text + extra, h.steps, h.known), full + extra
        f.full = full
        return f


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


class Bad(Exception):
    pass


def evaluate(f, base, env, log):
    """the entities filter f keeps of the set base; log: iterator over the
    VM's record of random choices"""
    s = set(base)
    for st in f.steps:
        if st[0] == "pred":
            s = {e for e in s if st[1](e)}
        elif st[0] == "dist":
            p, dim = st[1](env)
            lo, hi = st[2]
            for e in s:
                for x in (lo, hi):
                    if x is not None and abs(dist(e.pos, p) - x) < .01:
                        raise Skip
            s = {e for e in s if e.dim == dim
                 and (lo is None or dist(e.pos, p) >= lo)
                 and (hi is None or dist(e.pos, p) <= hi)}
        elif st[0] == "inside":
            p, dim = st[1](env)
            d = st[2]
            for e in s:
                for i in range(3):
                    for x in (p[i], p[i] + d[i], max(p[i], p[i] + d[i]) + 1):
                        if abs(e.pos[i] - x) < .005:
                            raise Skip
            s = {e for e in s if e.dim == dim and all(
                min(p[i], p[i] + d[i]) <= e.pos[i]
                <= max(p[i], p[i] + d[i]) + 1 for i in range(3))}
        elif st[0] == "random":
            _, ty, lim = st
            cand = {e for e in s if e.type == ty}
            try:
                full, chosen = next(log)
            except StopIteration:
                raise Bad("no random selection was made")
            if full != {e.uid for e in cand}:
                raise Bad("random choice among %s, should be among %s" % (
                    sorted(full), sorted(e.uid for e in cand)))
            if len(chosen) != min(lim, len(cand)):
                raise Bad("%d entities chosen at random, should be %d" % (
                    len(chosen), min(lim, len(cand))))
            s = {e for e in cand if e.uid in chosen}
        else:
            p, dim = st[1](env)
            if any(e.dim != dim for e in s):
                raise Skip
            o = sorted(s, key=lambda e: dist(e.pos, p),
                       reverse=st[0] == "far")
            lim = st[2]
            if len(o) > lim and abs(dist(o[lim].pos, p)
                                    - dist(o[lim - 1].pos, p)) < .01:
                raise Skip
            s = set(o[:lim])
    return s


def build(r):
    """-> source, world, ops; ops for the oracle"""
    g = Gen(r)
    world = [W(r, i + 1, "player" if i == 0 else None)
             for i in range(r.choice([6, 8, 10, 14]))]
    world[0].name = "Player1"
    world.sort(key=lambda e: e.uid)
    src = ["import world", "entity T:", "    new(const n: int):",
           '        new("pig", Pos(1.25, 2.0, 3.75))'] if False else [
        "import world", "entity T:", "    new():",
        '        new("pig", Pos(1.25, 2.0, 3.75))']
    ops = []
    me = W(random.Random(1), len(world) + 1, "pig")
    me.name, me.pos, me.rot, me.dim = "", (1.25, 2.0, 3.75), (0.0, 0.0), \
        "overworld"
    me.tags, me.items, me.scores, me.perms = set(), [], {}, set()
    src.append("e0 := T()")
    g.ents.append("e0")
    env = {"e0": me}
    groups = []
    for i in range(r.choice([1, 2, 3])):
        if r.random() < .6:
            src.append("g%d := ExternEngroup()" % i)
        else:
            src.append("g%d := Engroup[T]()" % i)
        groups.append("g%d" % i)
    consts = {}
    # n-th observation
    n = [0]
    cut = len(src)

    def see(what):
        n[0] += 1
        return n[0]
    if r.random() < .3:
        # several filters built on one: none may alter another
        g.like = .8
        names = []
        for i in range(r.choice([2, 3, 4])):
            g.like_only = r.choice(names[:2]) if names else None
            f = g.flt(consts)
            names.append("F%d" % len(consts))
            src.append("const %s = %s" % (names[-1], f.text))
            consts[names[-1]] = f
        g.like_only = None
    for _ in range(r.choice([3, 4, 6, 8])):
        x = r.random()
        if x < .15:
            # (a filter constant may name entity variables, too)
            f = g.flt(consts)
            k = "F%d" % len(consts)
            src.append("const %s = %s" % (k, f.text) if r.random() < .7
                       else "&%s = %s" % (k, f.text)
                       if r.random() < 0 else "const %s = %s" % (k, f.text))
            consts[k] = f
            continue
        gr = r.choice(groups)
        f = g.flt(consts)
        if x < .75:
            op = r.choice(["select", "select", "drop", "filter"])
            if r.random() < .3:
                f2 = g.flt(consts)
                op2 = r.choice(["select", "drop", "filter"])
                src.append("%s.%s(%s).%s(%s)" % (gr, op, f.text, op2,
                                                 f2.text))
                ops.append((gr, op, f))
                ops.append((gr, op2, f2))
            else:
                src.append("%s.%s(%s)" % (gr, op, f.text))
                ops.append((gr, op, f))
            k = see(gr)
            src += ["for m%d in %s:" % (k, gr), "    /see %d ${m%d}" % (k, k)]
            ops.append(("dump", gr, k))
        else:
            k = see(gr)
            if any(st[0] == "random" for st in f.steps):
                continue
            y = r.random()
            if y < .4:
                # the loop variable may be an origin, too
                src += ["for m%d in %s:" % (k, gr),
                        "    if world.is_entity(m%d, %s):" % (k, f.text),
                        "        /see %d ${m%d}" % (k, k)]
                ops.append(("is", gr, f, k))
            elif y < .6:
                src += ["for m%d in %s:" % (k, gr),
                        "    b%d := not world.is_entity(m%d, %s)" % (
                            k, k, f.text),
                        "    if not b%d:" % k,
                        "        /see %d ${m%d}" % (k, k)]
                ops.append(("is", gr, f, k))
            elif y < .8:
                # marks of the first use must not reach the second
                src += ["i%d := 0" % k,
                        "while i%d < 2:" % k,
                        "    i%d += 1" % k,
                        "    for m%d in %s:" % (k, gr),
                        "        if world.is_entity(m%d, %s):" % (k, f.text),
                        "            /see %d ${m%d}" % (k, k)]
                ops.append(("is", gr, f, k))
                ops.append(("is", gr, f, k))
            else:
                # an entity that stops matching between two evaluations
                t = r.choice(TAGS[:2])
                src += ["for m%d in %s:" % (k, gr),
                        "    i%d := 0" % k,
                        "    while world.is_entity(m%d, %s.has_tag(%s)) and "
                        "i%d < 3:" % (k, f.text, q(t), k),
                        "        /see %d ${m%d}" % (k, k),
                        "        i%d += 1" % k,
                        "        if i%d == 2:" % k,
                        "            /tag ${m%d} remove %s" % (k, t)]
                ops.append(("whl", gr, f, k, t))
    head, body = src[:cut], src[cut:]
    if not body:
        body = ["pass"]
    src = head + [l for l in body if l.startswith("const ")] + \
        ["interface t:"] + ["    " + l for l in body
                            if not l.startswith("const ")]
    if not ops:
        src.append("    pass")
    return "\n".join(src) + "\n", world, me, groups, ops, env


def run_case(case, mon):
    r = random.Random("%r" % (case,))
    src, world, me, groups, ops, env = build(r)
    cfg = {}
    if r.random() < .2:
        cfg["entity_tag"] = "zz"
    prefix = cfg.get("entity_tag", "acacia")
    if not ops:
        mon.count("discarded")
        return
    res = kit.compile_src(src, **cfg)
    mon.evaluated()
    if not res.ok:
        mon.violation("refused" if res.kind == "error" else "crash",
                      "legal filter %s: %s" % (res.kind, res.message),
                      source=src, traceback=res.tb or "")
        return
    v = vmmod.VM(res.functions(), budget=200000, players=0,
                 rng=random.Random(case[1]), user_objectives=OBJS)
    for e in world:
        x = v.add_entity(e.type, name=e.name, pos=e.pos, rot=e.rot,
                         dim=e.dim, tags=e.tags, level=e.level, mode=e.mode,
                         items=list(e.items))
        x.permissions = set(e.perms)
        for o, s in e.scores.items():
            v.scores[(x.uid, o)] = s
    trace = []

    def on_raw(vm, ctx, line):
        if line.startswith("see "):
            _, n, sel = line.split(" ", 2)
            trace.append((int(n), tuple(e.uid for e in vm.select(sel, ctx))))
            return True
        return False
    v.on_raw = on_raw
    v.run_function("main")
    runs = r.choice([1, 2, 2, 3])
    for _ in range(runs):
        v.run_function("t")
    bad = [f for f in v.faults]
    if bad:
        mon.violation("fault", "%s: %s" % bad[0], source=src, faults=bad)
        return
    # the oracle
    everyone = world + [me]
    sets = {g: set() for g in groups}
    log = iter(v.random_log)
    want = []
    some = False
    try:
        for op in ops * runs:
            if op[0] == "dump":
                want += [(op[2], (e.uid,)) for e in sorted(
                    sets[op[1]], key=lambda e: e.uid)]
            elif op[0] == "is":
                k = evaluate(op[2], everyone, env, log)
                mon.count("is_entity")
                want += [(op[3], (e.uid,)) for e in sorted(
                    sets[op[1]], key=lambda e: e.uid) if e in k]
            elif op[0] == "whl":
                _, gr, f, n, t = op
                for e in sorted(sets[gr], key=lambda e: e.uid):
                    i = 0
                    while e in evaluate(f, everyone, env, log) \
                            and t in e.tags and i < 3:
                        want.append((n, (e.uid,)))
                        i += 1
                        if i == 2:
                            e.tags.discard(t)
                mon.count("while_is_entity")
            else:
                gr, kind, f = op
                if kind == "select":
                    k = evaluate(f, everyone, env, log)
                    sets[gr] |= k
                elif kind == "drop":
                    k = evaluate(f, sets[gr], env, log)
                    sets[gr] -= k
                else:
                    k = evaluate(f, sets[gr], env, log)
                    sets[gr] = k
                mon.count("uses")
                mon.count("conditions", len(f.steps))
                if 0 < len(k) < len(everyone):
                    some = True
                    mon.count("selected", len(k))
    except Skip:
        mon.count("discarded")
        return
    except Bad as e:
        mon.violation("random", str(e), source=src, world=wtext(world))
        return
    if next(log, None) is not None:
        mon.violation("random", "more random selections than conditions",
                      source=src, world=wtext(world))
        return
    if trace != want:
        i = next((i for i, (a, b) in enumerate(zip(trace, want)) if a != b),
                 min(len(trace), len(want)))
        mon.violation("diff", "observation %d should be %s but is %s" % (
            i, want[i] if i < len(want) else "nothing",
            trace[i] if i < len(trace) else "nothing"),
            source=src, world=wtext(world))
        return
    mon.count("programs")
    if some:
        mon.nontrivial(src, wtext(world))
    if r.random() < .01:
        mon.sample(src)
    # what is still marked
    have = {}
    for e in v.entities:
        for t in e.tags:
            if t.startswith(prefix):
                have.setdefault(t, set()).add(e.uid)
    allowed = {frozenset(e.uid for e in s) for s in sets.values()}
    # (a loop variable stays with the last entity it was given)
    allowed |= {frozenset(x[1]) for x in trace}
    mon.count("marks_checked", len(v.entities))
    left = [sorted(s) for s in have.values()
            if frozenset(s) not in allowed and s != {me.uid}]
    if left and not any(o[0] in ("is", "whl") for o in ops):
        # (is_entity clears its mark before the next evaluation)
        mon.violation("marks", "selection marks left on %s" % left,
                      source=src, world=wtext(world))


def wtext(world):
    return ["%s" % sorted(vars(e).items(), key=str) for e in world]


def cases(tier, seed):
    n = 3600 if tier == "quick" else 40000
    return [("flt", s) for s in runner.spread(seed, "C18", n)]


MIN = {"programs": 1500, "uses": 6000, "conditions": 12000, "selected": 4000,
       "is_entity": 500, "while_is_entity": 100}
