"""C13: modules.

Workload: random import graphs over Acacia and Python modules spread over
folders, every import form (module, renamed, names, several aliases, star,
absolute, leading dots) at every place (top level, under run-time conditions,
in functions, in interfaces); the main function and interfaces are run several
times.  Monitors: the ordered log of markers in every module's top-level code,
functions and interfaces, with the value of the variables they see.  Oracle: a
direct simulation: a module's code runs at its first import of a run of the
main function.  Second part: one line that imports or uses something which is
not exported, not there, or circular is added to an accepted project and must
be refused at that line; lines that use everything exported are accepted."""
import os
import random

from acv import kit, runner
from acv import vm as vmmod

PROPERTY = "C13"
RULE = ("one evaluation = one run of main or an interface of a project whose "
        "ordered markers and values were compared, or one compiled project "
        "with an added import or use; non-trivial = distinct project")
ASSUME = ["a module imported under a condition is used only where it has been "
          "imported in that run",
          "an interface is run only after main"]
LEVEL = "exploration"
MIN = {"projects": 3000, "runs": 9000, "marks": 60000, "roundabout": 300,
       "module_first_runs": 10000, "second_imports": 9000, "cond_imports": 150, "func_imports": 150,
       "iface_imports": 60, "py_modules": 100, "star_imports": 300,
       "refused": 300, "accepted_uses": 80}


class Mod:
    def __init__(self, i, path, py=False):
        self.i, self.path, self.py = i, path, py    # path without extension
        self.body = []
        self.funcs = {}
        self.text = []
        self.scope = {}         # name -> ("mod", j) / (kind, j, name)
        self.exports = []
        self.imported = set()
        self.sure = set()

    @property
    def name(self):
        return self.path.rsplit("/", 1)[-1]


class G:
    def __init__(self, seed, main="main.aca"):
        self.r = r = random.Random("c13 %r" % (seed,))
        self.main_dir = r.choice(["", "", "proj", "proj/sub"])
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        self.marks = 0
        self.mods = [Mod(0, os.path.join(self.main_dir, "main"))]
        used = set()
        for i in range(1, n + 1):
            d = r.choice(["", "", "pkg", "pkg/inner", "other"])
            nm = "m%d" % i
            if d and r.random() < .3:
                nm = r.choice(["same", "util"])
            if (d, nm) in used:
                nm = "m%d" % i
            used.add((d, nm))
            up = ""
            if self.main_dir and r.random() < .3:
                up = "up"
            p = os.path.join("" if up else self.main_dir, d, nm)
            if p in [m.path for m in self.mods]:
                p = os.path.join(self.main_dir, d, "m%d" % i)
            self.mods.append(Mod(i, p, i > 1 and r.random() < .15))
        self.ifaces = []
        self.count = {}
        for m in reversed(self.mods):
            (self.py if m.py else self.acacia)(m)

    def mark(self):
        self.marks += 1
        return self.marks

    def c(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def ref(self, j):
        """how the main folder sees module j"""
        r = self.r
        rel = os.path.relpath(self.mods[j].path, self.main_dir or ".")
        parts = rel.split("/")
        ups = 0
        if self.main_dir and parts[0] != ".." and r.random() < .2:
            # out of the main folder and into it again
            up = self.main_dir.split("/")
            k = r.randint(1, len(up))
            self.c("roundabout")
            return "." * (k + 1) + ".".join(up[-k:] + parts)
        while parts[0] == "..":
            ups += 1
            parts.pop(0)
        if ups:
            return "." * (ups + 1) + ".".join(parts)
        return r.choice(["", "."]) + ".".join(parts)

    def py(self, m):
        k = self.mark()
        m.body = [("mark", k)]
        m.value = self.r.randint(-99, 99)
        m.exports = [("const", "K%d" % m.i)]
        init = self.r.random() < .7
        if not init:
            m.body = []
        m.src = (
            "from acaciamc.objects import IntLiteral\n"
            "def acacia_build(compiler):\n"
            "    attrs = {'K%d': IntLiteral(%d)}\n"
            % (m.i, m.value)
            + ("    from acaciamc.objects import BuiltModule\n"
               "    return BuiltModule(attrs, ['snap %d'])\n" % k if init
               else "    return attrs\n"))
        self.c("py_modules")

    # --- Acacia modules
    def acacia(self, m):
        r = self.r
        self.m = m
        i = m.i
        L = []
        m.lines = L
        self.out = lambda ind, t: L.append("    " * ind + t)
        v = r.randint(0, 50)
        m.scope = {}
        if i:
            self.out(0, "v%d := %d" % (i, v))
            m.body.append(("set", (i, "v"), v))
            m.exports.append(("var", "v%d" % i))
            m.scope["v%d" % i] = ("var", i, "v%d" % i)
            self.out(0, "_q%d := %d" % (i, v + 1))
            m.body.append(("set", (i, "q"), v + 1))
            m.scope["_q%d" % i] = ("var", i, "_q%d" % i)
            # everything a module can define
            if r.random() < .4:
                self.out(0, "const K%d = %d" % (i, v + 5))
                m.scope["K%d" % i] = ("const", i, "K%d" % i)
                m.exports.append(("const", "K%d" % i))
                m.value = v + 5
            if r.random() < .3:
                self.out(0, "&r%d = v%d" % (i, i))
                m.scope["r%d" % i] = ("var", i, "v%d" % i)
                m.exports.append(("ref", "r%d" % i))
            if r.random() < .3:
                self.out(0, "struct S%d:" % i)
                self.out(1, "a: int")
                m.scope["S%d" % i] = ("struct", i, "S%d" % i)
                m.exports.append(("struct", "S%d" % i))
            if r.random() < .3:
                self.out(0, "entity E%d:" % i)
                self.out(1, "def go():")
                self.out(2, "/go")
                m.scope["E%d" % i] = ("entity", i, "E%d" % i)
                m.exports.append(("entity", "E%d" % i))
        self.stmts(m, m.body, 0, r.randint(2, 5 if i else 8), True, set())
        if i and not m.funcs:
            self.func(m)
            self.stmts(m, m.body, 0, r.randint(0, 2), True, set(m.sure))
        if not i:
            for k in range(r.randint(0, 3)):
                body = []
                self.out(0, "interface t%d:" % k)
                save = dict(m.scope), set(m.sure)
                m.sure = set()
                n = len(m.imported)
                self.stmts(m, body, 1, r.randint(1, 3), False, set())
                m.scope, m.sure = save
                self.ifaces.append(("t%d" % k, body))
                self.c("ifaces")
        self.out(0, "/snap %d" % self.add_mark(m.body))
        m.src = "\n".join(L) + "\n"

    def add_mark(self, body):
        k = self.mark()
        body.append(("mark", k))
        return k

    def func(self, m):
        r = self.r
        n = "f%d_%d" % (m.i, len(m.funcs))
        inline = r.random() < .3
        body = []
        self.out(0, "%sdef %s():" % ("inline " if inline else "", n))
        save = dict(m.scope), set(m.sure)
        if not m.i:
            m.sure = set(m.sure)
        m.scope = dict(m.scope)
        m.infunc = True
        m.ininline = inline
        self.stmts(m, body, 1, r.randint(1, 3), False, set(m.sure))
        m.infunc = m.ininline = False
        m.scope, m.sure = save
        m.scope[n] = ("func", m.i, n)
        m.funcs[n] = body
        if n[0] != "_":
            m.exports.append(("func", n))

    def stmts(self, m, body, ind, n, top, sure):
        r = self.r
        m.sure = sure
        for _ in range(n):
            x = r.random()
            if x < .3:
                self.out(ind, "/snap %d" % self.add_mark(body))
            elif x < .65:
                self.imp(m, body, ind, top)
            elif x < .75 and top and ind == 0:
                self.func(m)
            elif x < .85 and top and ind == 0:
                # under a run-time condition
                val, want = r.randint(0, 1), r.randint(0, 1)
                w = "w%d_%d" % (m.i, len(self.m.lines))
                self.out(0, "%s := %d" % (w, val))
                self.out(0, "if %s == %d:" % (w, want))
                inner = []
                save = set(m.sure)
                self.out(1, "/snap %d" % self.add_mark(inner))
                self.stmts(m, inner, 1, r.randint(1, 2), True, set(m.sure))
                # names bound there stay, but the code may not have run
                m.sure = save
                body.append(("if", val == want, inner))
                self.c("conds")
            else:
                self.use(m, body, ind)
        if ind and not body:
            self.out(ind, "/snap %d" % self.add_mark(body))

    def reach(self, m):
        """uses possible here: names whose module has run"""
        out = []
        for nm, t in sorted(m.scope.items()):
            if t[0] == "mod":
                if t[1] in m.sure:
                    for k, e in self.mods[t[1]].exports:
                        out.append(("%s.%s" % (nm, e), k, t[1], e))
            elif t[1] == m.i or t[1] in m.sure:
                out.append((nm, t[0], t[1], t[2]))
        return out

    def use(self, m, body, ind):
        r = self.r
        pool = [u for u in self.reach(m) if u[1] in ("var", "func", "const",
                                                     "ref")]
        if m.i == 0 and ind and not getattr(m, "infunc", False):
            # an interface: nothing but what it imported
            pool = [u for u in pool if u[2] in m.sure]
        if getattr(m, "infunc", False):
            pool = [u for u in pool if u[1] != "func" or u[2] != m.i]
        if not pool:
            self.out(ind, "/snap %d" % self.add_mark(body))
            return
        text, kind, j, nm = r.choice(pool)
        if kind == "func":
            self.out(ind, text + "()")
            body.append(("call", j, nm))
        elif kind == "const":
            k = self.mark()
            self.out(ind, 'scb("o", "obs") = %s' % text)
            self.out(ind, "/snap %d" % k)
            body.append(("const", k, self.mods[j].value))
        else:
            key = (j, "q" if nm.startswith("_q") else "v")
            if r.random() < .5:
                d = r.randint(1, 9)
                self.out(ind, "%s += %d" % (text, d))
                body.append(("add", key, d))
            elif r.random() < .3:
                d = r.randint(1, 99)
                self.out(ind, "%s = %d" % (text, d))
                body.append(("set", key, d))
            k = self.mark()
            self.out(ind, 'scb("o", "obs") = %s' % text)
            self.out(ind, "/snap %d" % k)
            body.append(("see", k, key))

    def imp(self, m, body, ind, top):
        r = self.r
        later = [x for x in self.mods if x.i > m.i]
        if not later:
            self.out(ind, "/snap %d" % self.add_mark(body))
            return
        t = r.choice(later)
        j = t.i
        if self.imp_to(m, ind, t, r.choice(["mod", "as", "from", "from",
                                           "star"])):
            if j in m.imported:
                self.c("second_imports_static")
            if not getattr(m, "ininline", False):
                m.imported.add(j)
            body.append(("import", j))
            m.sure.add(j)
            if ind:
                self.c("func_imports" if getattr(m, "infunc", False)
                       else "cond_imports" if top else "iface_imports")

    def imp_to(self, m, ind, t, form):
        """writes an import statement; False if it cannot be written"""
        r = self.r
        j = t.i
        ref = self.ref(j)
        if form == "mod":
            if t.name in m.scope:
                form = "as"
            else:
                self.out(ind, "import %s" % ref)
                m.scope[t.name] = ("mod", j)
                return True
        if form == "as":
            nm = "k%d" % r.randint(0, 99)
            if nm in m.scope:
                return False
            self.out(ind, "import %s as %s" % (ref, nm))
            m.scope[nm] = ("mod", j)
            return True
        if form == "star":
            if any(e in m.scope for _, e in t.exports) or not t.exports:
                return False
            self.out(ind, "from %s import *" % ref)
            for k, e in t.exports:
                m.scope[e] = (k, j, e)
            self.c("star_imports")
            return True
        if not t.exports:
            return False
        n = r.randint(1, 3)
        parts = []
        names = {}
        for _ in range(n):
            k, e = r.choice(t.exports)
            a = e if r.random() < .4 else "x%d" % r.randint(0, 999)
            if a in m.scope or a in names:
                continue
            names[a] = (k, j, e)
            parts.append(e if a == e else "%s as %s" % (e, a))
        if not parts:
            return False
        s = ", ".join(parts)
        if r.random() < .3:
            s = "(%s)" % r.choice([", ", ",\n    " + "    " * ind]).join(parts)
        for ln in ("from %s import %s" % (ref, s)).split("\n"):
            if ln.startswith("    "):
                m.lines.append(ln)
            else:
                self.out(ind, ln)
        m.scope.update(names)
        return True

    def sources(self):
        return {m.path + (".py" if m.py else ".aca"): m.src
                for m in self.mods}


class Sim:
    def __init__(self, g):
        self.g = g
        self.vals = {}
        self.log = []
        self.first = 0
        self.again = 0

    def main(self):
        self.loaded = set()
        self.log = []
        self.run(self.g.mods[0].body)
        return self.log

    def iface(self, body):
        self.log = []
        self.run(body)
        return self.log

    def run(self, body):
        for s in body:
            k = s[0]
            if k == "mark":
                self.log.append((s[1], None))
            elif k == "set":
                self.vals[s[1]] = s[2]
            elif k == "add":
                self.vals[s[1]] += s[2]
            elif k == "see":
                self.log.append((s[1], self.vals[s[2]]))
            elif k == "const":
                self.log.append((s[1], s[2]))
            elif k == "import":
                if s[1] not in self.loaded:
                    self.loaded.add(s[1])
                    self.first += 1
                    self.run(self.g.mods[s[1]].body)
                else:
                    self.again += 1
            elif k == "call":
                self.run(self.g.mods[s[1]].funcs[s[2]])
            elif k == "if":
                if s[1]:
                    self.run(s[2])


def case_run(case, mon):
    g = G(case)
    r = random.Random("run %r" % (case,))
    main = g.mods[0].path + ".aca"
    src = g.sources()
    cfg = {"optimizer": r.random() < .6}
    if r.random() < .2:
        cfg["split_init"] = True
    if r.random() < .2:
        cfg["debug_comments"] = True
    res = kit.compile_src(src, main=main, **cfg)
    show = "\n".join("# --- %s\n%s" % kv for kv in sorted(src.items()))
    if not res.ok:
        mon.evaluated()
        mon.violation("compile:" + res.kind, "project refused: %s" %
                      res.message, source=show, traceback=res.tb)
        return
    vm = vmmod.VM(res.functions(), user_objectives=("obs",), budget=100000)
    log = []

    def raw(vm, ctx, line):
        w = line.split(" ")
        if w[0] == "snap":
            log.append((int(w[1]), vm.scores.get(("o", "obs"))))
        return True
    vm.on_raw = raw
    sim = Sim(g)
    if cfg.get("split_init"):
        vm.run_function("init")
    steps = ["main"]
    for _ in range(r.randint(2, 5)):
        steps.append(r.choice(["main"] + [n for n, _ in g.ifaces] * 2))
    mon.count("projects")
    for k, v in g.count.items():
        mon.count(k, v)
    ifs = dict(g.ifaces)
    for n, st in enumerate(steps):
        del log[:]
        want = sim.main() if st == "main" else sim.iface(ifs[st])
        if st in vm.files or want:
            vm.run_function(st)
        mon.evaluated()
        mon.count("runs")
        mon.count("marks", len(want))
        mon.nontrivial(show, n, st)
        got = [(a, b if any(a == x and y is not None for x, y in want)
                else None) for a, b in log]
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got + [None],
                                                       want + [None]))
                      if a != b), 0)
            mon.violation("order", "step %d (%s of %r): marker %d is %r "
                          "instead of %r (got %r, expected %r)" % (
                              n, st, steps, i, (got + [None])[i],
                              (want + [None])[i], [a for a, _ in got][:40],
                              [a for a, _ in want][:40]), source=show,
                          config=repr(cfg))
            return
        if vm.faults:
            mon.violation("fault", repr(vm.faults[0]), source=show,
                          config=repr(cfg))
            return
    mon.count("module_first_runs", sim.first)
    mon.count("second_imports", sim.again)
    mon.sample(show)


# --- what can be imported -----------------------------------------------------

def case_name(case, mon):
    g = G(case)
    r = random.Random("name %r" % (case,))
    mods = g.mods
    main = mods[0].path + ".aca"
    src = g.sources()

    # importing files: those reached from main; the bad line goes at the end
    # (top level) of one of them
    reached, todo = set(), [0]
    parent = {}
    while todo:
        i = todo.pop()
        if i in reached:
            continue
        reached.add(i)
        for j in mods[i].imported:
            parent.setdefault(j, []).append(i)
            todo.append(j)
    at = r.choice([mods[i] for i in sorted(reached) if not mods[i].py])
    later = [m for m in mods if m.i > at.i]
    free = "zz%d" % r.randint(0, 99)
    kinds = ["missing_mod"] * 2 + ["circular"] * 2
    if later:
        kinds += ["private", "private_attr", "reimport", "reimport_attr",
                  "missing", "missing_attr", "star_private", "star_reimport",
                  "shadow", "redefine", "assign_mod", "fine", "fine",
                  "missing_one"]
    k = r.choice(kinds)
    t = r.choice(later) if later else None
    ok = False
    line = None
    pre = []
    ref = g.ref(t.i) if t else None
    if t and k in ("private_attr", "reimport_attr", "missing_attr"):
        pre = ["import %s as %s" % (ref, free)]
    priv = t and "_q%d" % t.i
    if t and t.py and "private" in k:
        k = "missing"
    again = [] if not t else [n for n, d in sorted(t.scope.items())
                              if d[1] != t.i and not n.startswith("_")
                              and n not in [e for _, e in t.exports]]
    if k.startswith("reimport") or k == "star_reimport":
        if not again:
            k = "fine"
        else:
            again = r.choice(again)
    if k == "private":
        line = "from %s import %s%s" % (ref, priv, r.choice(
            ["", " as yy9"]))
    elif k == "private_attr":
        line = 'scb("o", "obs") = %s.%s' % (free, priv)
    elif k == "reimport":
        line = "from %s import %s" % (ref, again)
        if again in at.scope:
            line += " as yy9"
    elif k == "reimport_attr":
        line = "%s.%s" % (free, again)
    elif k == "missing":
        line = "from %s import nothing_here" % ref
    elif k == "missing_one":
        if not t.exports:
            k = "fine"
        else:
            line = "from %s import %s as yy1, nothing_here, %s as yy2" % (
                ref, t.exports[0][1], t.exports[0][1])
    elif k == "missing_attr":
        line = "%s.nothing_here" % free
    elif k in ("star_private", "star_reimport"):
        nm = priv if k == "star_private" else again
        if nm in at.scope or any(e in at.scope for _, e in t.exports):
            k = "fine"
        else:
            pre = ["from %s import *" % ref]
            line = 'scb("o", "obs") = %s' % nm if k == "star_private" \
                else "%s()" % nm
    elif k == "shadow":
        taken = sorted(n for n in at.scope)
        if not taken:
            k = "fine"
        else:
            line = "import %s as %s" % (ref, r.choice(taken))
    elif k == "redefine":
        pre = ["import %s as %s" % (ref, free)]
        line = r.choice(["%s := 1", "import %s as %%s" % ref,
                         "def %s():\n    /x"]) % free
    elif k == "assign_mod":
        pre = ["import %s as %s" % (ref, free)]
        line = r.choice(["%s = 1", "%s.nothing_here = 1",
                         "%s()", "%s += 1"]) % free
    elif k == "missing_mod":
        line = r.choice(["import nosuch", "import pkg.nosuch", "import "
                         "...nosuch", "from .nosuch import x",
                         "from nosuch import *", "import nopkg.m1",
                         "from math.pow import x", "import pkg"])
    elif k == "circular":
        anc, todo = {at.i}, [at.i]
        while todo:
            for p in parent.get(todo.pop(), ()):
                if p not in anc:
                    anc.add(p)
                    todo.append(p)
        # only files that are being loaded whichever way `at` is reached:
        # itself and main
        t = mods[r.choice([at.i, 0])]
        ref = g.ref(t.i)
        line = r.choice(["import %s as yy9", "from %s import *",
                         "from %s import a"]) % ref
    if k == "fine":
        ok = True
        pre = ["import %s as %s" % (ref, free)]
        use = []
        for kk, e in t.exports:
            a = "%s.%s" % (free, e)
            use.append({"var": '%s = %s' % (a, a), "ref": "%s += 1" % a,
                        "const": 'scb("o", "obs") = %s' % a,
                        "func": "%s()" % a,
                        "struct": "s%s := %s(a=1)" % (e, a),
                        "entity": 'e%s := %s("pig", Pos(0, 0, 0))' % (e, a)
                        }[kk])
        form = r.random()
        if form < .5 and t.exports:
            pre = ["from %s import %s" % (ref, ", ".join(
                "%s as n%s%s" % (e, free, e) for _, e in t.exports))]
            use = [u.replace(free + ".", "n" + free) for u in use]
        pre += use
        line = "/done"
    lines = src[at.path + ".aca"].rstrip("\n").split("\n") + pre
    src[at.path + ".aca"] = "\n".join(lines + [line]) + "\n"
    res = kit.compile_src(src, main=main, keep=False)
    show = "\n".join("# --- %s\n%s" % kv for kv in sorted(src.items()))
    mon.evaluated()
    mon.nontrivial(show)
    if res.kind == "crash":
        mon.violation("name:crash", "%s: %s" % (line, res.message),
                      source=show, traceback=res.tb)
        return
    if ok:
        if not res.ok:
            mon.violation("name:refused", "exported names cannot be used: %s"
                          % res.message, source=show)
        mon.count("accepted_uses")
        return
    if res.ok:
        mon.violation("name:" + k, "%r in %s is accepted" % (line, at.path),
                      source=show)
        return
    loc = res.exc.location
    got = (os.path.realpath(str(loc.file)).endswith("/" + at.path + ".aca"),
           loc.linecol and loc.linecol[0])
    if got != (True, len(lines) + 1):
        mon.violation("name:place", "%r at line %d of %s is reported as %s"
                      % (line, len(lines) + 1, at.path, res.message),
                      source=show)
        return
    mon.count("refused")
    mon.count("refused_" + k)


def cases(tier, seed):
    q = tier == "quick"
    out = [("run", s) for s in runner.spread(seed, "c13r", 5000 if q
                                             else 60000)]
    out += [("name", s) for s in runner.spread(seed, "c13n", 5000 if q
                                               else 50000)]
    return out


def run_case(case, mon):
    {"run": case_run, "name": case_name}[case[0]](case, mon)
