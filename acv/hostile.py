"""Random programs whose branch bodies, loops and calls change what the
conditions around them read - scores, blocks, tags, lives, group members - by
statements, library calls and raw commands the compiler cannot see into.
Text only; used differentially."""
import random

HEAD = """import math
import world
import print
import schedule
a := 0
b := 2
c := 5
k60 := 60
p := True
q := False
scb("h", "obs") = 0
scb("k", "obs") = 3
entity T:
    n: int
    inline new(const k: int, const m):
        new(type="armor_stand", pos=Pos(100, 64, 200).offset(x=k), name=m)
        self.n = k
    virtual def vm():
        self.n += 1
        /snap vm ${"T"}
        if self.n > 3:
            a -= 1
            scb("m", "obs") = 93
    def inc(x: int) -> int:
        self.n += x
        result self.n
entity U extends T:
    inline new(const k: int, const m):
        T.new(k, m)
    override def vm():
        self.n += 2
        /tag @s add ut1
        scb("m", "obs") = 91
e1 := T(1, "1")
e2 := T(2, "2")
e3 := U(3, "3")
e3u: T = e3
scb(e3, "obs") = 0
scb(e1, "obs") = 0
scb(e2, "obs") = 1
g := Engroup[T]()
g2 := Engroup[T]()
entity R:
    new():
        new(type="pig", pos=Pos(101, 64, 202), name="r")
    virtual def vk():
        /snap r
    virtual def vf() -> int:
        result 1
r1 := R()
r2 := R()
g3 := Engroup[R]()
g3.add(r2)
entity R2 extends R:
    override def vk():
        r1 = r2
        /snap r2a
        a += 1
        scb("m", "obs") = 92
    override def vf() -> int:
        g3.clear()
        /tp @s ~ ~1 ~
        result a
    def once():
        swap(r1, r2)
        /snap once ${"R2"}
        a -= 1
        /snap twice
r3 := R2()
entity Q extends R:
    virtual def q1():
        r3.once()
        /kill @s
        /snap q1a
        b -= 1
        /snap q1b
    virtual def q2() -> int:
        /execute as @s run kill @e[type=pig]
        g3.clear()
        /snap q2
        result b
    virtual def q3():
        if a < b:
            /kill @s
            /snap q3
        /snap q3b
q1 := Q()
q2 := Q()
q3 := Q()
const AT = Pos(100, 64, 200)
const AT2 = Pos(e1).offset(y=1)
const F = Enfilter().has_tag("ut1")
const F2 = Enfilter().has_no_tag("ut2").distance_from(AT, max=60)
"""


TASKS = """def tf():
    scb("m", "obs") = 94
    a += 1
    /snap tf ${"tf"}
def tg(x: int):
    scb("m", "obs") = x
    b -= 1
const t0 = schedule.Task(tf)
const tw = schedule.Task(tg, 4)
const tz = schedule.Task(tf)
"""


# (condition, statements that change it)
PAIRS = [
    ('world.is_block(AT, "stone")', ["/setblock 100 64 200 air",
                                     'world.setblock(AT, "dirt")']),
    ('not world.is_block(AT, "stone")', ["/setblock 100 64 200 stone",
                                         'world.setblock(AT, "stone")']),
    ("world.is_entity(e1, F)", ["/tag @e remove ut1", "e1 = e2"]),
    ("not world.is_entity(e1, F)", ["/tag @e add ut1"]),
    ("world.is_entity(e3, F2)", ["/tag @e add ut2", "/tp @e 9 9 9"]),
    ("not world.is_entity(e2, F2)", ["/tag @e remove ut2",
                                     "world.tp(e2, AT)"]),
    ("g.is_empty()", ["g.add(e1)", "g2.add(e1)", "g = g2", "swap(g, g2)"]),
    ("not g.is_empty()", ["g.clear()", "g -= g2", "g.drop(F2)"]),
    ("g.has(e1)", ["g.remove(e1)", "g.clear()", "e1 = e2", "swap(g, g2)"]),
    ("g3.has(r2)", ["g3.clear()", "r2 = r3", "a = r3.vf()"]),
    ("g.size() == 1", ["g.add(e2)", "g.clear()"]),
    ('scb("h", "obs") == 1', ["/scoreboard players set h obs 0",
                              'scb("h", "obs") = 2',
                              "/scoreboard players reset h obs"]),
    ('scb("h", "obs") != 1', ["/scoreboard players set h obs 1"]),
    ('scb("h", "obs") < scb("k", "obs")', [
        "/scoreboard players operation h obs >< k obs",
        'swap(scb("h", "obs"), scb("k", "obs"))']),
    ("e1.n > 1", ["e1.n = 0", "e1 = e2", "e1.vm()", "e1.n -= 9"]),
    ("e1.n <= 2", ["e1.n = 7", "e1 = e3", "e1.vm()"]),
    ("a < b", ["a = b", "swap(a, b)", "b = e1.inc(-9)", "a += bi()"]),
    ("a >= b", ["b = a + 1", "swap(a, b)", "a -= bi()"]),
    ("a < 50", ["swap(k60, a)", "a = math.randint(60, 90)", "a = math.max(60, b)",
                "a *= 1000"]),
    ("b != 7", ["b = math.min(7, 7 + c * 0)", "b = e1.inc(0) * 0 + 7",
                "b -= b - 7"]),
    ("e1.n < 9", ["e1.n = math.randint(20, 21)", "swap(k60, e1.n)",
                  "swap(e1.n, c)",
                  "e1.n *= 100", "e2.n = 99", "e1.n += 50"]),
    ("e3u.n < 20", ["e3.n = 30", "e3.n += 30", "swap(e3.n, k60)",
                    "e2.n = 22", "scb(e3, \"obs\") = 1"]),
    ("e3u.n >= 20", ["e3.n = 3", "e3.n -= 30", "e3.n = c"]),
    ('scb(e3u, "obs") == 0', ['scb(e3, "obs") = 1', 'scb("*", "obs") = 4',
                              "/scoreboard players add @e obs 3"]),
    ('scb(e3u, "obs") != 0', ['scb(e3, "obs") = 0', 'scb("*", "obs") = 0']),
    ('scb("k", "obs") > 2', ['scb("*", "obs") = 1', 'scb("k", "obs") -= 6']),
    ("p", ["p = False", "p = not p", "swap(q, p)"]),
    ("not p", ["p = True", "p = a == a", "swap(p, q)"]),
    ("p == q", ["q = not q", "p = not q"]),
    ("a == b or c == 5", ["c = 4", "c += bi()"]),
]


class H:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.fn = 0
        self.out = []
        self.funcs = []     # callable names (no arguments)
        self.bfuncs = ["bt"]
        self.loops = 0
        self.tasks = []
        self.depth = 0
        self.ctrs = []
        self.in_fn = False
        self.raw = r.choice([.05, .3, 1])
        self.once = ["q1", "q2", "q3"]
        r.shuffle(self.once)
        self.timed = r.random() < .3
        self.area = ["t0", "tw", "tz"]

    def snap(self):
        self.n += 1
        # (the compiler must assume the worst of a raw command, so markers
        # are mostly plain score writes)
        if self.r.random() < self.raw:
            return "/snap %d" % self.n
        return 'scb("m%d", "obs") = %d' % (self.r.randint(1, 3), self.n)

    def cond(self, d=2):
        r = self.r
        x = r.random()
        if d > 0 and x < .12:
            return "(%s and %s)" % (self.cond(d - 1), self.cond(d - 1))
        if d > 0 and x < .22:
            return "(%s or %s)" % (self.cond(d - 1), self.cond(d - 1))
        if d > 0 and x < .32:
            return "not (%s)" % self.cond(d - 1)
        i = r.choice
        return i([
            "p", "q", "not p", "a < %d" % r.randint(0, 6), "a == b",
            "b >= c", "a != %d" % r.randint(0, 4), "a + b > c",
            'scb("h", "obs") == %d' % r.randint(0, 2),
            'scb("h", "obs") < scb("k", "obs")', 'scb("k", "obs") != 3',
            'world.is_block(AT, "stone")', 'world.is_block(AT2, "stone")',
            "world.is_entity(e1, F)", "world.is_entity(e3, F2)",
            'world.is_entity(%s, Enfilter().has_no_tag("ut%d"))' % (
                i(["e1", "e2", "e3"]), r.randint(1, 3)),
            "g.is_empty()", "not g2.is_empty()", "g.has(%s)" % self.ent(),
            "g2.size() > %d" % r.randint(0, 2), "e1.n > %d" % r.randint(0, 6),
            "e3u.n == a", "0 <= a < b <= c", "p == q", "p != (a < 3)",
            "True", "False", "bt()",
        ])

    def ent(self):
        return self.r.choice(["e1", "e2", "e3", "e3u"])

    def grp(self):
        return self.r.choice(["g", "g2"])

    def simple(self):
        """statements, one or two lines"""
        r = self.r
        i = r.choice
        k = r.randint(0, 3)
        if self.timed and r.random() < .12:
            return self.task()
        c = r.random()
        if c < .2:
            return [self.snap()]
        if c < .2 + .3 * self.raw:
            return [i([
                '/scoreboard players set h obs %d' % k,
                '/scoreboard players add k obs %d' % k,
                '/scoreboard players random h obs 0 2',
                '/execute if score h obs matches 1 run scoreboard players '
                'set k obs 3',
                '/setblock 100 64 200 %s' % i(["stone", "air", "dirt"]),
                '/execute at @e[type=armor_stand,c=1] run setblock ~ ~ ~ '
                'stone',
                '/tag @e[type=armor_stand] add ut%d' % k,
                '/tag @e remove ut%d' % k,
                '/tag @s add ut2',
                '/tag @e[name="%d"] add ut1' % k,
                '/tp @e[name="%d"] ~ ~1 ~' % k,
                '/tp @e[type=armor_stand] 100 65 200',
                '/function i/one', '/kill @e[type=pig]', '/say hi',
            ])]
        if c < .72:
            return [i([
                "a += 1", "a = %d" % k, "a = b - a", "b = a * 2 - c",
                "c = c - a", "p = not p", "q = p", "p = a < b",
                "q = world.is_block(AT, \"stone\")", "p = g.is_empty()",
                "k60 = 60", "swap(a, b)", "swap(p, q)", "a = int(p)", "a -= b", 'scb("h", "obs") = a',
                'a = scb("h", "obs")', "b = e1.n", "e2.n = a",
                "swap(e1.n, e2.n)", "a = e2.inc(%d)" % k,
            ])]
        if c < .88:
            e = self.ent()
            gr = self.grp()
            return [i([
                "%s.add(%s)" % (gr, e), "%s.remove(%s)" % (gr, e),
                "%s.clear()" % gr, "g += g2", "g2 = g", "g -= g2",
                "%s.select(F)" % gr, "%s.filter(F)" % gr,
                "%s.drop(F)" % gr, "e2 = e1" if r.random() < .3 else "pass",
                "e3u = %s" % e, "swap(g, g2)", "g.subtract(g2)",
                "g2.extend(g)",
            ])]
        if c < .96:
            e = self.ent()
            return [i([
                "world.setblock(AT, \"%s\")" % i(["stone", "air"]),
                "world.setblock(Pos(%s), \"stone\")" % e,
                "/see %d ${%s}" % (900 + k, e),
                "world.tp(%s, AT)" % e, "world.event_entity(%s, \"x\")" % e,
                "print.tell(print.format(\"a %0 %1\", a, e1.n))",
                "world.tp(%s, Pos(%s).offset(x=1))" % (
                    e, self.ent()),
                "%s.vm()" % e, "r1.vk()", "r3.vk()", "r3.once()",
                "a = r1.vf()", "b += r3.vf()", "r1 = r3", "g3.add(r3)",
            ])]
        if self.funcs:
            return ["%s()" % i(self.funcs)]
        return ["pass"]

    def task(self):
        r = self.r
        t = r.choice(["t0", "t0", "tw"])
        x = r.random()
        if x < .4:
            return ["%s.after(%s)" % (t, r.choice(["0", "1", "2", "a"]))]
        if x < .5:
            return ["%s.cancel()" % t]
        if x < .7:
            return ["if %s.has_schedule():" % t, "    a -= 1",
                    "    " + self.snap()]
        # mostly the only schedule of its task, often in a body of its own
        if self.area and r.random() < .8:
            t = self.area.pop(r.randrange(len(self.area)))
        c = r.choice([
            '%s.on_tickingarea("zone")' % t,
            "%s.on_area_loaded(AT, Offset(1, 2, 3))" % t,
            "%s.on_circle_loaded(AT, 2)" % t,
            "%s.on_circle_loaded(Pos(e1), 2)" % t])
        if r.random() < .6:
            return ["if %s:" % self.cond(1), "    " + c]
        return [c]

    def block(self, d, least=1):
        r = self.r
        out = []
        for _ in range(max(least, r.choice([1, 1, 1, 2, 2, 3, 5, 8]))):
            x = r.random()
            if d <= 0 or x < .6:
                out += self.simple()
            elif x < .82:
                out += self.if_(d)
            elif x < .90:
                out += self.while_(d)
            elif x < .96:
                out += self.forin(d)
            elif self.funcs:
                out.append("%s()" % r.choice(self.funcs))
            else:
                out += self.simple()
        if r.random() < .04:
            out = ["pass"]
        return out

    def ind(self, lines):
        return ["    " + x for x in lines]

    def paired(self, d):
        """an if whose body changes its own condition somewhere inside"""
        r = self.r
        cond, spoil = r.choice(PAIRS)
        other, spoil2 = r.choice(PAIRS)
        x = r.random()
        if x < .2:
            cond, spoil = "(%s) and (%s)" % (cond, other), spoil + spoil2
        elif x < .35:
            cond, spoil = "(%s) or (%s)" % (cond, other), spoil + spoil2
        body = []
        for _ in range(r.randint(0, 2)):
            body += self.simple()
        body.append(r.choice(spoil))
        if r.random() < .3 and self.bfuncs:
            # ... inside something that is itself called or conditional
            body[-1:] = ["if a != 77:"] + self.ind([body[-1]])
        for _ in range(r.randint(0, 2)):
            body += self.simple()
        body.append(self.snap())
        out = ["if %s:" % cond] + self.ind(body)
        if r.random() < .3:
            out += ["elif %s:" % other] + self.ind(
                [r.choice(spoil), self.snap()])
        if r.random() < .5:
            out += ["else:"] + self.ind(
                [r.choice(spoil2), self.snap(), r.choice(spoil)]
                + self.simple())
        return out

    def if_(self, d):
        r = self.r
        if r.random() < .5:
            return self.paired(d)
        out = ["if %s:" % self.cond()] + self.ind(self.block(d - 1))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            out += ["elif %s:" % self.cond()] + self.ind(self.block(d - 1))
        if r.random() < .5:
            out += ["else:"] + self.ind(self.block(d - 1))
        return out

    def while_(self, d):
        r = self.r
        self.loops += 1
        w = "w%d" % self.loops
        lim = r.choice([0, 1, 2, 3])
        cond = "%s < %d" % (w, lim)
        if r.random() < .6:
            cond = "%s and %s" % (cond, self.cond(1)) if r.random() < .5 \
                else "(%s) and %s" % (self.cond(1), cond)
        body = self.block(d - 1)
        inc = "%s += 1" % w
        body = [inc] + body if r.random() < .5 else body + [inc]
        return ["%s := 0" % w, "while %s:" % cond] + self.ind(body)

    def forin(self, d):
        r = self.r
        if r.random() < .3:
            return ["for k%d in {1, 2}:" % self.loops] + \
                self.ind(self.block(d - 1))
        self.loops += 1
        x = "x%d" % self.loops
        if self.once and r.random() < .3:
            # the only call of a virtual method with one implementation
            n = self.once.pop()
            return ["%s.%s()" % (n, n), self.snap()]
        body = self.block(d - 1)
        extra = r.choice([
            ["/see %d ${%s}" % (self.n, x)], ["%s.n += 1" % x],
            ["%s.vm()" % x], ["/tag @s add ut3"],
            ["g.remove(%s)" % x], ["g2.add(%s)" % x],
            ["world.tp(%s, AT)" % x],
            ["if %s.n > 2:" % x, "    %s.vm()" % x, "    " + self.snap()],
            ["b = %s.n" % x, "if b < a:", "    a -= 1", "    " +
             self.snap()],
        ])
        at = r.choice([0, len(body)])
        # (a body may have nested lines: only insert at its ends)
        body = extra + body if at == 0 else body + extra
        return ["for %s in %s:" % (x, self.grp())] + self.ind(body)

    def func(self):
        r = self.r
        self.fn += 1
        n = "f%d" % self.fn
        kind = r.choice(["def", "def", "def", "inline def"])
        if r.random() < .08:
            body = ["pass"]
        else:
            body = self.block(2)
        self.out += ["%s %s():" % (kind, n)] + self.ind(body)
        self.funcs.append(n)

    def program(self):
        r = self.r
        self.out += ["def bi() -> int:", "    c += 1", "    result c",
                     "def bt() -> bool:", "    a += 1",
                     "    scb(\"m\", \"obs\") = 94", "    result a < 4",
                     "interface i/one:", "    /snap one",
                     "    /scoreboard players add k obs 1"]
        for _ in range(r.randint(0, 4)):
            self.func()
        for _ in range(r.randint(0, 2)):
            if self.funcs and r.random() < .8:
                f = r.choice(self.funcs)
                self.out.append("schedule.register_loop(%s, interval=%d)" % (
                    f, r.choice([1, 1, 2, 3])))
        if self.funcs and r.random() < .4:
            self.tasks.append("t1")
            self.out.append("const t1 = schedule.Task(%s)" %
                            r.choice(self.funcs))
        for k in range(r.randint(0, 2)):
            self.out += ["interface i/j%d:" % k] + self.ind(self.block(3))
        for _ in range(r.randint(2, 7)):
            self.out += self.r.choice([self.if_, self.if_, self.while_,
                                       self.forin])(3)
            if self.tasks and r.random() < .3:
                self.out.append("t1.after(%d)" % r.randint(0, 3))
            if r.random() < .2:
                self.out += self.simple()
        self.out.append(self.snap())
        return HEAD + (TASKS if self.timed else "") + "\n".join(self.out) + "\n"


def make(seed):
    return H(random.Random(seed)).program()
