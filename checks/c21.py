"""C21: positions, rotations and offsets.

Workload: random programs that build positions, offsets, rotations and
absolute positions out of each other (constants reused after something was
derived from them, compile-time functions, inline functions, lists, methods),
place commands at them, and run again and again while the harness moves,
turns and transfers the entities.  Monitor: the execution context (place,
dimension, rotation, anchor) with which the VM reaches every placed command.
Oracle: an interpreter of the chain of steps, written from the language's
documentation.  Single-fault chains must be refused at their line."""
import math
import random

from acv import kit, runner
from acv import vm as vmmod

PROPERTY = "C21"
RULE = ("one evaluation = one command placed at a generated chain and reached "
        "in the VM with its context compared, or one faulty chain compiled; "
        "non-trivial = distinct chain text and entity placement")
ASSUME = ["the two numbers of a rotation are taken in the order in which they "
          "are written (first the number that turns the horizontal "
          "direction); see the known finding about their names",
          "`positioned` sets the anchor back to feet, as the game does",
          "entities named in a chain exist"]
LEVEL = "exploration"
MIN = {"placed": 60000, "steps": 200000, "refused": 1000, "reused": 4000,
       "rotations": 6000, "derived_again": 3000}
DIMS = ["overworld", "nether", "the_end"]
TYPES = ["pig", "cow", "armor_stand"]
TOL = 1e-6


# --- oracle ----------------------------------------------------------------

class C:
    def __init__(self, pos=(0., 0., 0.), rot=(0., 0.), dim="overworld",
                 anchor="feet", eye=0.0):
        self.pos, self.rot, self.dim, self.anchor = pos, rot, dim, anchor
        self.eye = eye          # of the executor

    def base(self):
        x, y, z = self.pos
        return (x, y + self.eye, z) if self.anchor == "eyes" else (x, y, z)


def look(a, b):
    """rotation (vertical, horizontal) that looks from a at b"""
    dx, dy, dz = (q - p for p, q in zip(a, b))
    h = math.hypot(dx, dz)
    if not h and not dy:
        return (0.0, 0.0)
    yaw = -math.degrees(math.atan2(dx, dz)) if h else 0.0
    return (math.degrees(math.atan2(-dy, h)), yaw)


def fold(steps, env, eye, c=None):
    c = c or C(eye=eye)
    for s in steps:
        k = s[0]
        if k == "at":
            e = env[s[1]]
            c.pos, c.rot, c.dim = e.pos, e.rot, e.dim
        elif k == "anchor":
            c.anchor = s[1]
        elif k == "dim":
            c.dim = s[1]
        elif k == "align":
            c.pos = tuple(float(math.floor(v)) if a in s[1] else v
                          for a, v in zip("xyz", c.pos))
        elif k == "go":
            if s[1][0][0] == "^":
                v, h = (math.radians(x) for x in c.rot)
                left, up, front = (x[1] for x in s[1])
                fwd = (-math.sin(h) * math.cos(v), -math.sin(v),
                       math.cos(h) * math.cos(v))
                upv = (-math.sin(h) * math.sin(v), math.cos(v),
                       math.cos(h) * math.sin(v))
                lv = (math.cos(h), 0.0, math.sin(h))
                c.pos = tuple(p + left * a + up * b + front * d
                              for p, a, b, d in zip(c.base(), lv, upv, fwd))
            else:
                c.pos = tuple(x if k2 == "=" else p + x
                              for p, (k2, x) in zip(c.pos, s[1]))
            c.anchor = "feet"
        elif k == "turn":
            # first number: horizontal, second: vertical
            new = []
            for old, (k2, x) in zip((c.rot[1], c.rot[0]), s[1]):
                new.append(x if k2 == "=" else old + x)
            c.rot = (new[1], new[0])
        elif k == "turnas":
            c.rot = env[s[1]].rot
        elif k == "face":
            e = env[s[1]]
            x, y, z = e.pos
            if s[2] == "eyes":
                y += e.eye
            c.rot = look(c.base(), (x, y, z))
        else:
            raise AssertionError(k)
    return c


# --- generator -------------------------------------------------------------

def num(r):
    """(text, value, is int)"""
    x = r.random()
    if x < .45:
        v = r.choice([0, 1, 2, 3, 5, 10, 63, 64, 100, r.randint(-300, 300)])
        return ("%d" % v if v >= 0 else "-%d" % -v), v, True
    if x < .9:
        v = round(r.uniform(-50, 50), r.choice([1, 1, 2, 3]))
        return ("%r" % v if v >= 0 else "-%r" % -v), v, False
    v = r.choice([0.00001, -0.00002, 0.1 + 0.2 - 0.3, 123456.75, 0.0])
    if v == 0.1 + 0.2 - 0.3:
        return "0.1 + 0.2 - 0.3", v, False
    s = ("%.5f" % abs(v)) if v else "0.0"
    return ("-" if v < 0 else "") + s, v, False


def ang(r):
    x = r.random()
    if x < .5:
        v = r.choice([0, 30, 45, 90, 180, -90, -45, r.randint(-180, 180)])
        return ("%d" % v if v >= 0 else "-%d" % -v), v
    v = round(r.uniform(-180, 180), 1)
    return ("%r" % v if v >= 0 else "-%r" % -v), v


class Gen:
    def __init__(self, r, nent):
        self.r = r
        self.nent = nent
        self.pos, self.off, self.rot, self.abs = [], [], [], []
        self.lines = []
        self.used = {}
        self.n = 0
        self.steps = 0

    def ent(self):
        return "e%d" % self.r.randrange(self.nent)

    def pick(self, pool, p=.5):
        if pool and self.r.random() < p:
            x = self.r.choice(pool)
            self.used[x[0]] = self.used.get(x[0], 0) + 1
            return x
        return None

    def args(self, names, vals):
        """call arguments for the (name, text or None) pairs"""
        r = self.r
        out, kw = [], False
        for n, t in zip(names, vals):
            if t is None:
                if r.random() < .5:
                    kw = True
                else:
                    out.append("%s=None" % n if kw else "None")
            else:
                if not kw and r.random() < .3:
                    kw = True
                out.append("%s=%s" % (n, t) if kw else t)
        return ", ".join(out)

    def xyz(self, absolute, center):
        """three optional numbers: argument text, {axis: value}"""
        r = self.r
        texts, vals = [], {}
        for i, a in enumerate("xyz"):
            if r.random() < .3:
                texts.append(None)
                continue
            t, v, isint = num(r)
            texts.append(t)
            vals[i] = v + .5 if (absolute and center and isint
                                 and a != "y") else float(v)
        return self.args("xyz", texts), vals

    def lcl(self):
        r = self.r
        texts, vals = [], []
        kw = False
        for n in ("left", "up", "front"):
            if r.random() < .3:
                kw = True
                vals.append(("^", 0.0))
                continue
            t, v, _ = num(r)
            kw = kw or r.random() < .3
            texts.append("%s=%s" % (n, t) if kw else t)
            vals.append(("^", float(v)))
        return ", ".join(texts), vals

    def offset(self, depth=0):
        """(text, [(kind, value)] * 3)"""
        r = self.r
        x = self.pick(self.off)
        if x is None and r.random() < .15:
            y = self.absp()
            return y[0], [("=", v) for v in y[1]]
        if x is not None:
            text, v = x[0], list(x[1])
        elif r.random() < .25:
            a, v = self.lcl()
            text = "Offset.local(%s)" % a
        else:
            v = [("~", 0.0)] * 3
            texts = []
            pos = r.random() < .6
            for i, a in enumerate("xyz"):
                k = r.choice(["", "", "_abs", None])
                if k is None:
                    pos = False
                    continue
                t, n, _ = num(r)
                if k == "_abs":
                    pos = False
                    texts.append("%s_abs=%s" % (a, t))
                    v[i] = ("=", float(n))
                else:
                    texts.append(t if pos else "%s=%s" % (a, t))
                    v[i] = ("~", float(n))
            # positional arguments first
            texts.sort(key=lambda s: "=" in s)
            text = "Offset(%s)" % ", ".join(texts)
        while r.random() < .3:
            m = r.choice(["abs", "offset"])
            a, vals = self.xyz(m == "abs", True)
            if v[0][0] == "^" and 0 < len(vals) < 3:
                continue
            text += ".%s(%s)" % (m, a)
            for i, n in vals.items():
                v[i] = ("=" if m == "abs" else "~", n)
        return text, v

    def absp(self):
        r = self.r
        x = self.pick(self.abs, .6)
        if x is not None:
            text, v = x[0], list(x[1])
        else:
            n = [num(r) for _ in "xyz"]
            v = [float(a[1]) for a in n]
            for i in (0, 2):
                if n[i][2]:
                    v[i] += .5
            text = "AbsPos(%s)" % self.args("xyz", [a[0] for a in n])
        while r.random() < .3:
            m = r.choice(["abs", "offset"])
            a, vals = self.xyz(m == "abs", True)
            text += ".%s(%s)" % (m, a)
            for i, n in vals.items():
                v[i] = n if m == "abs" else v[i] + n
        return text, v

    def rotation(self):
        r = self.r
        x = self.pick(self.rot)
        if x is not None:
            text, s = x[0], list(x[1])
        else:
            k = r.random()
            if k < .35:
                (t1, a), (t2, b) = ang(r), ang(r)
                text = "Rot(%s, %s)" % (t1, t2)
                s = [("turn", [("=", float(a)), ("=", float(b))])]
            elif k < .65:
                e = self.ent()
                text, s = "Rot(%s)" % e, [("turnas", e)]
            else:
                e = self.ent()
                an = r.choice([None, "feet", "eyes"])
                text = "Rot.face_entity(%s)" % self.args(
                    ("target", "anchor"), (e, an and '"%s"' % an)
                ).replace(", None", "").replace(", anchor=None", "")
                s = [("face", e, an or "feet")]
        while r.random() < .35:
            m = r.choice(["abs", "offset"])
            texts, vals = [], []
            for _ in range(2):
                if r.random() < .3:
                    texts.append(None)
                    vals.append(("~", 0.0))
                else:
                    t, v = ang(r)
                    texts.append(t)
                    vals.append(("=" if m == "abs" else "~", float(v)))
            text += ".%s(%s)" % (m, self.args(("vertical", "horizontal"),
                                              texts))
            s.append(("turn", vals))
        return text, s

    def position(self):
        r = self.r
        x = self.pick(self.pos)
        if x is not None:
            text, s = x[0], list(x[1])
        else:
            k = r.random()
            if k < .45:
                e = self.ent()
                an = r.choice([None, None, "feet", "eyes"])
                text = "Pos(%s%s)" % (e, ', "%s"' % an if an else "")
                s = [("at", e), ("anchor", an or "feet")]
            elif k < .6 and self.abs:
                y = self.absp()
                text = y[0]
                return text, [("go", [("=", v) for v in y[1]])]
            elif k < .7 and self.abs:
                nm, v = self.r.choice(self.abs)
                text = "Pos(%s.x, %s.y, %s.z)" % (nm, nm, nm)
                s = [("go", [("=", a) for a in v])]
            else:
                n = [num(r) for _ in "xyz"]
                v = [float(a[1]) for a in n]
                for i in (0, 2):
                    if n[i][2]:
                        v[i] += .5
                text = "Pos(%s)" % ", ".join(a[0] for a in n)
                s = [("go", [("=", a) for a in v])]
        while r.random() < .55:
            m = r.choice(["dim", "abs", "offset", "offset", "local", "local",
                          "apply", "align"])
            if m == "dim":
                d = r.choice(DIMS)
                text += '.dim("%s")' % d
                s.append(("dim", d))
            elif m in ("abs", "offset"):
                a, vals = self.xyz(m == "abs", True)
                text += ".%s(%s)" % (m, a)
                s.append(("go", [("=" if m == "abs" else "~", vals[i])
                                 if i in vals else ("~", 0.0)
                                 for i in range(3)]))
            elif m == "local":
                rt, rs = self.rotation()
                a, v = self.lcl()
                text += ".local(%s%s)" % (rt, ", " + a if a else "")
                s += rs + [("go", v)]
            elif m == "apply":
                ot, ov = self.offset()
                text += ".apply(%s)" % ot
                s.append(("go", ov))
            else:
                ax = list("xyz")
                r.shuffle(ax)
                ax = "".join(ax[:r.randint(1, 3)])
                if r.random() < .3:
                    text += ".align()"
                    ax = "xyz"
                else:
                    text += '.align("%s")' % ax
                s.append(("align", ax))
        return text, s

    def isabs(self, text):
        return text.startswith("AbsPos(") or \
            text.split(".")[0] in [a[0] for a in self.abs]

    def const(self):
        """a constant of a random kind"""
        r = self.r
        k = r.choice(["pos", "pos", "off", "rot", "abs"])
        self.n += 1
        name = "%s%d" % (k[0], self.n)
        f = {"pos": self.position, "off": self.offset, "rot": self.rotation,
             "abs": self.absp}[k]
        text, v = f()
        if k == "pos" and self.isabs(text):
            text = "Pos(0.0, 0.0, 0.0).apply(%s)" % text
            v = [("go", [("=", 0.0)] * 3)] + v
        if k == "off" and self.isabs(text):
            k, v = "abs", [x[1] for x in v]
        self.lines.append("const %s = %s" % (name, text))
        getattr(self, k).append((name, v))


class Place:
    """one placed command: marker i, the steps, how to compare"""

    def __init__(self, i, steps, kind, extra=None):
        self.i, self.steps, self.kind, self.extra = i, steps, kind, extra


def make(seed):
    r = random.Random("c21 %r" % (seed,))
    nent = r.randint(1, 3)
    g = Gen(r, nent)
    head = ["import world"]
    types = [r.choice(TYPES) for _ in range(nent)]
    body = []
    method = r.random() < .3
    if method:
        # positions relative to self
        head.append("entity T:\n    def put(k: int):\n"
                    "        world.setblock(Pos(self).offset(y=2), \"bself\")"
                    "\n        world.setblock(Pos(0, 0, 0).local("
                    "Rot(self), 1, 2, 3), \"bself2\")")
    for i in range(nent):
        head.append('e%d := %s("%s", Pos(%d, 4, 5))' % (
            i, "T" if method else "Entity", types[i], i))
    for _ in range(r.randint(2, 7)):
        g.const()
    places, ifaces, idx = [], [], 0

    def nextm():
        nonlocal idx
        idx += 1
        return idx
    fn = []
    ctfun = r.random() < .4
    if ctfun:
        fn.append("const def shift(p: Pos, o: Offset) -> Pos:\n"
                  "    q := p.apply(o)\n    s := p.apply(o).align()\n"
                  "    result q")
    inl = r.random() < .4
    if inl:
        fn.append("inline def stamp(const p, const o):\n"
                  "    world.setblock(p.apply(o), \"binl\")\n"
                  "    world.setblock(p, \"binl2\")")
    for k in range(r.randint(1, 3)):
        out = []
        want = []
        for _ in range(r.randint(2, 6)):
            x = r.random()
            m = nextm()
            if x < .55:
                t, s = g.position()
                out.append('world.setblock(%s, "b%d")' % (t, m))
                want.append(Place("b%d" % m, s, "ctx"))
            elif x < .63:
                t, s = g.position()
                rt, rs = g.rotation()
                out.append('world.summon("m%d", %s, rot=%s)' % (m, t, rt))
                want.append(Place("m%d" % m, s + rs, "summon"))
            elif x < .70:
                e = g.ent()
                rt, rs = g.rotation()
                out.append("world.rotate(%s, %s)" % (e, rt))
                want.append(Place(e, [("at", e)] + rs, "rotate"))
            elif x < .76 and ctfun:
                if not g.pos:
                    continue
                p = r.choice(g.pos)
                ot, ov = g.offset()
                out.append('world.setblock(shift(%s, %s), "b%d")' % (
                    p[0], ot, m))
                want.append(Place("b%d" % m, p[1] + [("go", ov)], "ctx"))
                g.used[p[0]] = g.used.get(p[0], 0) + 1
            elif x < .82 and inl:
                t, s = g.position()
                if g.isabs(t):
                    continue
                ot, ov = g.offset()
                out.append("stamp(%s, %s)" % (t, ot))
                want.append(Place("binl", s + [("go", ov)], "ctx"))
                want.append(Place("binl2", s, "ctx"))
            elif x < .88 and g.pos:
                ps = [r.choice(g.pos) for _ in range(r.randint(1, 3))]
                ot, ov = g.offset()
                out.append("for q%d in {%s}:\n        world.setblock("
                           'q%d.apply(%s), "b%d")' % (
                               m, ", ".join(p[0] for p in ps), m, ot, m))
                for p in ps:
                    want.append(Place("b%d" % m, p[1] + [("go", ov)],
                                      "ctx"))
                    g.used[p[0]] = g.used.get(p[0], 0) + 1
            elif x < .93 and method:
                e = g.ent()
                out.append("%s.put(1)" % e)
                want.append(Place("bself", [
                    ("at", e), ("anchor", "feet"),
                    ("go", [("~", 0.), ("~", 2.), ("~", 0.)])], "ctx"))
                want.append(Place("bself2", [
                    ("go", [("=", .5), ("=", 0.), ("=", .5)]),
                    ("turnas", e),
                    ("go", [("^", 1.), ("^", 2.), ("^", 3.)])], "ctx"))
            else:
                t, s = g.position()
                e = g.ent()
                out.append("world.tp(%s, %s)" % (e, t))
                want.append(Place(e, s, "tp"))
        if out:
            ifaces.append("interface t%d:\n    %s" % (k, "\n    ".join(out)))
            places.append(("t%d" % k, want))
    see = "interface see:\n    " + "\n    ".join(
        "/see %d ${e%d}" % (i, i) for i in range(nent))
    # derive again from every constant at the end, then use the constants
    last, want = [], []
    for nm, s in g.pos:
        last.append("const z%s = %s.offset(1, 1, 1).dim(\"nether\")" % (
            nm, nm))
    for nm, s in g.pos:
        m = nextm()
        last.append('world.setblock(%s, "b%d")' % (nm, m))
        want.append(Place("b%d" % m, s, "ctx"))
    for nm, v in g.off:
        m = nextm()
        if v[0][0] != "^":
            last.append("const z%s = %s.abs(1, 1, 1)" % (nm, nm))
        last.append('world.setblock(Pos(1.0, 2.0, 3.0).apply(%s), "b%d")' % (
            nm, m))
        want.append(Place("b%d" % m, [
            ("go", [("=", 1.), ("=", 2.), ("=", 3.)]), ("go", v)], "ctx"))
    for nm, s in g.rot:
        m = nextm()
        last.append("const z%s = %s.abs(1, 1).offset(2, 2)" % (nm, nm))
        last.append('world.setblock(Pos(1.0, 2.0, 3.0).local(%s, 1, 2, 3), '
                    '"b%d")' % (nm, m))
        want.append(Place("b%d" % m, [
            ("go", [("=", 1.), ("=", 2.), ("=", 3.)])] + s + [
            ("go", [("^", 1.), ("^", 2.), ("^", 3.)])], "ctx"))
    for nm, v in g.abs:
        m = nextm()
        last.append("const z%s = %s.offset(1, 1, 1).abs(y=3)" % (nm, nm))
        last.append('world.setblock(%s, "b%d")' % (nm, m))
        want.append(Place("b%d" % m, [("go", [("=", x) for x in v])], "ctx"))
    if last:
        ifaces.append("interface last:\n    " + "\n    ".join(last))
        places.append(("last", want))
    src = "\n".join(head + g.lines + fn + [see] + ifaces) + "\n"
    return src, types, places, g


class Snap:
    def __init__(self, e):
        self.pos, self.rot, self.dim, self.eye = e.pos, e.rot, e.dim, e.eye


def near(a, b):
    return all(abs(x - y) <= TOL * max(1.0, abs(x), abs(y))
               for x, y in zip(a, b))


def nearrot(a, b):
    def d(x, y):
        z = (x - y) % 360.0
        return min(z, 360.0 - z)
    return all(d(x, y) <= 1e-5 for x, y in zip(a, b))


def case_prog(case, mon):
    src, types, places, g = make(case)
    cfg = {"optimizer": random.Random(repr(case)).random() < .6}
    res = kit.compile_src(src, **cfg)
    if not res.ok:
        mon.violation("prog:" + res.kind, "a well-formed program is not "
                      "compiled: %s" % res.message, source=src,
                      traceback=res.tb)
        mon.evaluated()
        return
    r = random.Random("w %r" % (case,))
    vm = vmmod.VM(res.functions(), budget=50000, players=1)
    log = []

    def raw(vm, ctx, line):
        w = line.split(" ")
        if w[0] == "see":
            log.append(("see", int(w[1]),
                        [e.uid for e in vm.ents(line.split(" ", 2)[2],
                                                ctx)]))
            return True
        if w[0] == "setblock":
            p = vm.coords(w[1:4], ctx)
            log.append(("ctx", w[4], p, ctx.but(), line))
            return True
        return False
    vm.on_raw = raw
    vm.run_function("main")
    vm.run_function("see")
    ids = {}
    for x in log:
        if x[0] == "see" and len(x[2]) == 1:
            ids["e%d" % x[1]] = x[2][0]
    if len(ids) != len(types):
        mon.violation("prog:see", "entity variables name %r" % (log,),
                      source=src)
        return
    ent = {n: next(e for e in vm.entities if e.uid == u)
           for n, u in ids.items()}
    runs = list(places) * 2
    for name, want in runs:
        for e in ent.values():
            if r.random() < .8:
                e.pos = tuple(round(r.uniform(-60, 60), 3) for _ in "xyz")
                e.rot = (round(r.uniform(-80, 80), 1),
                         round(r.uniform(-179, 179), 1))
                e.dim = r.choice(DIMS)
        del log[:]
        vm.events = []
        execu = r.choice([None, None] + list(ent))
        ctx = vmmod.Ctx(ent=ent[execu] if execu else None,
                        pos=(7.0, 8.0, 9.0), rot=(11.0, 12.0),
                        dim=r.choice(DIMS))
        eye = ent[execu].eye if execu else 0.0
        # (rotate and tp change the entities: fold against a shadow)
        sh = {n: Snap(e) for n, e in ent.items()}
        before = {n: (s.pos, s.rot, s.dim) for n, s in sh.items()}
        vm.run_function(name, ctx)
        got = [x for x in log if x[0] == "ctx"]
        k = 0
        summ = [e for e in vm.created_by_summon]
        sk = len(summ) - sum(1 for w in want if w.kind == "summon")
        bad = None
        for w in want:
            # a chain that starts without a place or dimension of its own
            # goes on from the one of the running command
            c = fold_from(w.steps, sh, eye, ctx if w.kind != "rotate"
                          else None)
            mon.evaluated()
            mon.count("steps", len(w.steps))
            mon.count("kind_" + w.kind)
            if w.kind == "ctx":
                if k >= len(got) or got[k][1] != w.i:
                    bad = (w, "command %s is not reached (%r)" % (
                        w.i, got[k][4] if k < len(got) else None))
                    break
                _, _, p, cc, line = got[k]
                k += 1
                if not near(p, c.pos) or not near(cc.pos, c.pos):
                    bad = (w, "%s runs at %r instead of %r" % (
                        w.i, p, c.pos))
                elif cc.dim != c.dim:
                    bad = (w, "%s runs in %s instead of %s" % (
                        w.i, cc.dim, c.dim))
                elif not nearrot(cc.rot, c.rot):
                    bad = (w, "%s runs with rotation %r instead of %r" % (
                        w.i, cc.rot, c.rot))
                elif cc.anchor != c.anchor:
                    bad = (w, "%s runs with anchor %s instead of %s" % (
                        w.i, cc.anchor, c.anchor))
                mon.count("placed")
            elif w.kind == "summon":
                e = summ[sk]
                sk += 1
                if e.type != w.i or not near(e.pos, c.pos) or \
                        e.dim != c.dim or not nearrot(e.rot, c.rot):
                    bad = (w, "summoned %s at %r %s %r instead of %s at %r "
                           "%s %r" % (e.type, e.pos, e.dim, e.rot, w.i,
                                      c.pos, c.dim, c.rot))
                mon.count("rotations")
            elif w.kind == "rotate":
                # at the entity: place kept, rotation changed
                sh[w.i].rot = c.rot
                mon.count("rotations")
            elif w.kind == "tp":
                sh[w.i].pos, sh[w.i].dim = c.pos, c.dim
                mon.count("placed")
            if bad:
                break
            mon.nontrivial(repr(w.steps), repr(sorted(before.items())))
        if not bad and k != len(got):
            bad = (None, "%d commands too many: %r" % (len(got) - k,
                                                       got[k][4]))
        if not bad:
            for n, s in sh.items():
                e = ent[n]
                if not near(e.pos, s.pos) or e.dim != s.dim or \
                        not nearrot(e.rot, s.rot):
                    bad = (None, "%s is at %r %s %r instead of %r %s %r" % (
                        n, e.pos, e.dim, e.rot, s.pos, s.dim, s.rot))
                    break
        if not bad and vm.faults:
            bad = (None, "fault %r" % (vm.faults[0],))
        if bad:
            mon.violation("place", "interface %s: %s" % (name, bad[1]),
                          source=src, steps=repr(bad[0] and bad[0].steps),
                          entities=repr(before))
            return
    mon.count("programs")
    mon.count("reused", sum(1 for v in g.used.values() if v > 1))
    if any(n == "last" for n, _ in places):
        mon.count("derived_again")
    mon.sample(src)


def fold_from(steps, env, eye, ctx):
    """the chain, going on from the context of the running command"""
    if ctx is None:
        return fold(steps, env, eye)
    return fold(steps, env, eye, C(ctx.pos, ctx.rot, ctx.dim, ctx.anchor,
                                   eye))


# --- faulty chains ---------------------------------------------------------

FAULTS = [
    'Pos(%(e)s, "eyez")', 'Pos(%(e)s, "")', 'Pos(1, 2)', 'Pos()',
    'Pos("a", 2, 3)', 'Pos(True, 2, 3)', 'Pos(x, 2, 3)', 'Pos(1, x, 3)',
    'Pos(%(p)s)', 'Pos(%(e)s, 1, 2)', 'Pos(None, 1, 2)',
    '%(p)s.align("")', '%(p)s.align("xx")', '%(p)s.align("w")',
    '%(p)s.align("xyzx")', '%(p)s.align(1)', '%(p)s.align("X")',
    '%(p)s.dim()', '%(p)s.dim(1)', '%(p)s.local(1, 2, 3)', '%(p)s.local()',
    '%(p)s.local(%(r)s, x)', '%(p)s.local(%(r)s, 1, 2, 3, 4)',
    '%(p)s.local(%(r)s, "a")', '%(p)s.local(%(p)s)', '%(p)s.apply(%(p)s)',
    '%(p)s.apply()', '%(p)s.apply(%(r)s)', '%(p)s.apply(1)',
    '%(p)s.apply(Offset(1, x_abs=2))', '%(p)s.apply(Offset(y=1, y_abs=2))',
    '%(p)s.apply(Offset(1, 2, 3, z_abs=2.5))',
    '%(p)s.apply(Offset(0, x_abs=2))', '%(p)s.apply(Offset(y=0, y_abs=0))',
    '%(p)s.apply(Offset(z=0.0, z_abs=0.0))',
    '%(p)s.apply(Offset.local(1, 2, 3).offset(x=1))',
    '%(p)s.apply(Offset.local(1, 2, 3).abs(y=1))',
    '%(p)s.apply(Offset.local().offset(1, 2))',
    '%(p)s.apply(Offset(x))', '%(p)s.apply(Offset("a"))',
    '%(p)s.apply(Offset(1, 2, 3, 4))', '%(p)s.offset("a")',
    '%(p)s.offset(x)', '%(p)s.offset(w=1)', '%(p)s.abs(1, 2, 3, 4)',
    '%(p)s.abs(True)', '%(p)s.up(1)', '%(p)s.local(Rot(1))',
    '%(p)s.local(Rot(1, 2, 3))', '%(p)s.local(Rot("a", 1))',
    '%(p)s.local(Rot(x, 1))', '%(p)s.local(Rot(%(e)s, 1))',
    '%(p)s.local(Rot.face_entity(%(e)s, "eye"))',
    '%(p)s.local(Rot.face_entity(%(p)s))', '%(p)s.local(Rot.face_entity())',
    '%(p)s.local(%(r)s.abs("a"))', '%(p)s.local(%(r)s.offset(x))',
    '%(p)s.local(%(r)s.offset(1, 2, 3))', '%(r)s', '%(e)s', '1', 'None',
    'Offset(1, 2, 3)', 'AbsPos(1, 2)', 'AbsPos(x, 2, 3)',
    'AbsPos("a", 2, 3)', 'AbsPos(1, 2, 3).offset("a")',
    'AbsPos(1, 2, 3).w', 'AbsPos(1, 2, 3).abs(None, x)',
]


def case_fault(case, mon):
    _, seed, k = case
    r = random.Random("f %r" % (case,))
    g = Gen(r, 2)
    for _ in range(3):
        g.const()
    p = "Pos(%s)" % r.choice(["e0", "1, 2, 3", 'e1, "eyes"'])
    if r.random() < .5 and g.pos:
        p = r.choice(g.pos)[0]
    rt = r.choice(["Rot(1, 2)", "Rot(e0)", "Rot.face_entity(e1)"])
    bad = FAULTS[k % len(FAULTS)] % {"e": "e0", "p": p, "r": rt}
    head = ["import world", "x := 1", 'e0 := Entity("pig", Pos(0, 0, 0))',
            'e1 := Entity("cow", Pos(0, 0, 0))'] + g.lines
    use = r.choice(['world.setblock(%s, "b")', 'const q = %s',
                    'world.tp(e1, %s)'])
    if not bad.startswith(("Pos", p, "AbsPos")):
        use = r.choice(['world.setblock(%s, "b")', 'world.tp(e1, %s)'])
    src = "\n".join(head + [use % bad] + ["y := 2"]) + "\n"
    line = len(head) + 1
    res = kit.compile_src(src)
    mon.evaluated()
    mon.nontrivial(src)
    if res.kind != "error":
        mon.violation("fault:" + res.kind, "%s is not refused (%s)" % (
            bad, res.message), source=src, traceback=res.tb)
        return
    loc = getattr(res.exc, "location", None)
    ln = loc.linecol[0] if loc is not None and loc.linecol else None
    if ln != line:
        mon.violation("fault:line", "%s is reported at line %r instead of %d"
                      % (bad, ln, line), source=src)
        return
    mon.count("refused")


# --- the known finding -----------------------------------------------------

def case_names(case, mon):
    """Rot(vertical, horizontal), .abs(vertical=), .offset(horizontal=): the
    first number is documented as the vertical rotation but becomes the
    horizontal one"""
    for key, text, want in (
            ("rot-order-ctor", "Rot(10, 20)", (10.0, 20.0)),
            ("rot-order-abs", "Rot(0, 0).abs(vertical=10)", (10.0, 0.0)),
            ("rot-order-offset", "Rot(0, 0).offset(horizontal=20)",
             (0.0, 20.0))):
        src = ("import world\nworld.setblock(Pos(0, 0, 0).local(%s), \"b\")\n"
               % text)
        res = kit.compile_src(src)
        mon.evaluated()
        if not res.ok:
            mon.violation("names:" + res.kind, res.message, source=src)
            return
        vm = vmmod.VM(res.functions())
        got = []
        vm.on_raw = lambda vm, ctx, line: (got.append(ctx.rot), True)[1]
        vm.run_function("main")
        if len(got) != 1 or tuple(got[0]) != want:
            swapped = len(got) == 1 and tuple(got[0]) == (want[1], want[0])
            mon.violation(key if swapped else "names:other",
                          "%s gives the (vertical, horizontal) rotation %r "
                          "instead of %r" % (text, got, want), source=src)
        mon.count("names")


def cases(tier, seed):
    n = 4000 if tier == "quick" else 120000
    nf = len(FAULTS) * (20 if tier == "quick" else 200)
    out = [("names",)]
    out += [("prog", s) for s in runner.spread(seed, "c21", n)]
    out += [("fault", s, i) for i, s in enumerate(
        runner.spread(seed, "c21f", nf))]
    return out


def run_case(case, mon):
    if case[0] == "prog":
        case_prog(case, mon)
    elif case[0] == "fault":
        case_fault(case, mon)
    else:
        case_names(case, mon)
