"""C16: method dispatch.

Workloads: (a) dispatch tables - random template hierarchies (C3, several
parents), one or two virtual families declared anywhere, overridden anywhere,
plain and inline, called directly, through base-typed variables, functions
compiled before the overriding templates exist, casts, group iteration and
`self` calls; (b) random programs of the entity language dominated by methods;
(c) inheritance questions: random declarations of one name over a hierarchy,
accepted or rejected.  Oracles: Python's own method resolution over the same
hierarchy in the entity world model; the documented override table."""
import random

from acv import ent, kit, runner
from acv.lang import UB, text

PROPERTY = "C16"
RULE = ("one evaluation = one program compiled and executed with every call "
        "observed by the implementation that ran, the entity and the result, "
        "or one inheritance question put to the compiler; non-trivial = at "
        "least one virtual call or a decided question, distinct by source "
        "text")
ASSUME = ["a reference argument has exactly the declared template",
          "a virtual method is only called on entities that have a template",
          "`self` of a non-virtual inline method is as specific as the "
          "expression the method is called on"]
LEVEL = "exploration"
KNOBS = dict(templates=4, templates2=1, methods=2, virtuals=.75, ent_stmts=.7,
             groups=.1, mcalls=3, creates=.6, n_top=9, funcs=1, inlines=0)
V = lambda n: ("v", n)
I = lambda n: ("i", n)


def hierarchy(r, n):
    mros, bases = {}, {}
    names = []
    for i in range(n):
        t = "T%d" % i
        for _ in range(8):
            k = r.choice([0, 1, 1, 1, 2, 2, 3])
            bs = r.sample(names, min(k, len(names)))
            m = ent.c3(t, [mros[b] for b in bs])
            if m:
                break
        else:
            bs, m = [], [t, ent.ENTITY]
        bases[t], mros[t] = bs, m
        names.append(t)
    return names, bases, mros


def dispatch(r):
    n = r.choice([3, 4, 5, 6])
    names, bases, mros = hierarchy(r, n)
    fams = []                   # (name, root, kind)
    have = {t: {} for t in names}   # template -> family -> visible
    for i in range(r.choice([1, 2, 2, 3])):
        root = r.choice(names[:max(1, n - 2)])
        fams.append(("m%d" % i, root, r.choice(
            ["virtual", "virtual", "virtual", "virtual", "", "static"])))
    snap = [0]
    p = []
    todo_calls = []
    ents = []

    def sn():
        snap[0] += 1
        return snap[0]

    def impl(q, f, t, idx):
        inline = r.random() < .3 and q != "static"
        body = []
        if q != "static":
            body.append(("see", sn(), ("self",)))
        body.append(("assign", ("scb", "w"), I(idx)))
        if r.random() < .5:
            body.append(("result", ("bin", "+", ("bin", "*", V("k"), I(10)),
                                    I(idx))))
        else:
            body.append(("assign", V("k"), ("bin", "-", V("k"), I(idx))))
            body.append(("result", V("k")))
        # a family may call an older one on the same entity
        older = [g for g, ro, gq in fams if g < f
                 and ro in mros[t] and gq != "static"]
        if q != "static" and older and r.random() < .35 and not (
                inline and dict((g, gq) for g, _, gq in fams)[older[0]]
                == ""):
            g = r.choice(older)
            gq = [x for x in fams if x[0] == g][0][2]
            if gq == "virtual" or not inline:
                cast = None
                recv = ("self",)
                up = [b for b in mros[t][1:-1]
                      if [x for x in fams if x[0] == g][0][1] in mros[b]]
                if up and not inline and r.random() < .3:
                    cast = r.choice(up)
                    recv = ("upcast", recv, cast)
                body.insert(r.choice([0, len(body)]),
                            ("expr", ("mcall", recv, g, [I(r.randint(0, 9))],
                                      [], t, cast)))
        return (q, ("def", "inline" if inline else "def", f,
                    [("k", "int", "", None)], ("", "int"), body))

    def call_fn(t, f):
        fn = "c%s%s" % (t, f)
        inline = r.random() < .2
        p.append(("def", "inline" if inline else "def", fn,
                  [("q", t, "", None),
                   ("k", "int", "", None)], ("", "int"),
                  [("result", ("mcall", V("q"), f, [V("k")], [], t, None))]))
        todo_calls.append((fn, t))

    idx = 0
    for t in names:
        ms = []
        for f, root, q in fams:
            if root == t:
                idx += 1
                ms.append(impl(q, f, t, idx))
            elif root in mros[t] and r.random() < .5:
                idx += 1
                ms.append(impl("override" if q == "virtual" else q, f, t,
                               idx))
        r.shuffle(ms)
        new = None
        if r.random() < .7 or not bases[t]:
            b = r.choice(bases[t]) if bases[t] and r.random() < .5 else None
            new = (r.random() < .3, [], [
                ("mknew", b, [], []) if b else
                ("mknew", None, [("str", r.choice(ent.MOBS)),
                                 ("pos", 1.5, 2.0, 3.5)], [])])
        p.append(("tmpl", t, bases[t], [], ms, new))
        e = "e" + t
        p.append(("auto", e, ("enew", t, [], [])))
        ents.append((e, t))
        for f, root, q in fams:
            if root in mros[t] and r.random() < .5:
                call_fn(t, f)
        if r.random() < .4:
            # keep an entity under a base type
            a = r.choice(mros[t][:-1])
            p.append(("vardef", "b" + t, a, V(e)))
            ents.append(("b" + t, a))
    for t in names:
        for f, root, q in fams:
            if root in mros[t] and r.random() < .3 and \
                    ("c%s%s" % (t, f), t) not in todo_calls:
                call_fn(t, f)
    fam = {f: (root, q) for f, root, q in fams}
    tests = []
    for e, t in ents:
        for f, (root, q) in fam.items():
            for a in mros[t][:-1]:
                if root not in mros[a]:
                    continue
                if r.random() < .5:
                    tests.append(("up", e, t, f, a))
                if q != "static" and r.random() < .4:
                    tests.append(("cast", e, t, f, a))
            if root in mros[t]:
                tests.append(("dir", e, t, f, t))
        for fn, a in todo_calls:
            if a in mros[t]:
                tests.append(("fn", e, t, fn, a))
    if not tests:
        return None
    r.shuffle(tests)
    for j, (k, e, t, f, a) in enumerate(tests[:24]):
        arg = I(r.randint(0, 9))
        if k == "dir":
            c = ("mcall", V(e), f, [arg], [], t, None)
        elif k == "up":
            p.append(("vardef", "v%d" % j, a, V(e)))
            c = ("mcall", V("v%d" % j), f, [arg], [], a, None)
        elif k == "cast":
            c = ("mcall", ("upcast", V(e), a), f, [arg], [], t, a)
        else:
            c = ("call", f, [V(e), arg], [])
        if r.random() < .3:
            p.append(("expr", c))
        else:
            p.append(("assign", ("scb", "o"), c))
        p.append(("snap", sn()))
    # one group of a common base
    base = r.choice(names)
    sub = [e for e, t in ents if base in mros[t]]
    fs = [f for f, (root, q) in fam.items() if root in mros[base]
          and q != "static"]
    if sub and fs:
        p.append(("auto", "g", ("gnew", base)))
        p.append(("gop", V("g"), [("add", [V(e) for e in sub])]))
        p.append(("gfor", "m", V("g"),
                  [("assign", ("scb", "o"),
                    ("mcall", V("m"), r.choice(fs), [I(3)], [], base,
                     None)), ("snap", sn())]))
    return p


def question(r):
    """(source, legal?)"""
    n = r.choice([2, 3, 3, 4, 5])
    names = ["T%d" % i for i in range(n)]
    src = []
    mros = {}
    legal = True
    defs = {}                       # template -> {name: (qualifier, type)}
    attrs = {}
    for i, t in enumerate(names):
        k = r.choice([0, 1, 1, 1, 2, 2])
        bs = r.sample(names[:i], min(k, i))
        src.append("entity %s%s:" % (t, " extends " + ", ".join(bs)
                                     if bs else ""))
        own, oattr = {}, {}
        body = []
        for nm in ("a", "b", "c"):
            x = r.random()
            seen = [defs[b].get(nm) for b in names[:i] if nm in defs[b]]
            if x < .45:
                continue
            if x < .55:
                oattr[nm] = True
                body.append("    %s: int" % nm)
            else:
                q = r.choice(["", "static", "virtual", "override"])
                # mostly what fits
                if seen and r.random() < .75:
                    q = {"": "", "static": "static", "virtual": "override",
                         "override": "override"}[seen[0][0]]
                elif not seen and q == "override" and r.random() < .8:
                    q = "virtual"
                ty = r.choice(["int"] * 6 + ["bool", None])
                own[nm] = (q, ty)
                kind = r.choice(["def", "def", "inline def"])
                body.append("    %s%s %s()%s:\n        %s" % (
                    q + " " if q else "", kind, nm,
                    " -> " + ty if ty else "",
                    {"int": "result 1", "bool": "result True"}.get(
                        ty, "pass")))
        if not body:
            body = ["    pass"]
        r.shuffle(body)
        src += body
        m = ent.c3(t, [mros[b] for b in bs])
        if m is None:
            return "\n".join(src) + "\n", False, t
        mros[t] = m
        up = m[1:-1]
        defs[t], attrs[t] = own, oattr
        # fields
        allattr = {}
        for b in [t] + up:
            for x in attrs[b]:
                if x in allattr:
                    return "\n".join(src) + "\n", False, t
                allattr[x] = b
        allm = {}
        for b in [t] + up:
            for x, d in defs[b].items():
                allm.setdefault(x, []).append((b, d))
        for x, ds in allm.items():
            if x in allattr:
                return "\n".join(src) + "\n", False, t
            qs = [d[0] for b, d in ds]
            if all(q == "static" for q in qs) or all(q == "" for q in qs):
                continue
            vs = [b for b, d in ds if d[0] == "virtual"]
            if len(vs) != 1 or any(
                    d[0] not in ("virtual", "override") or
                    (d[0] == "override" and vs[0] not in mros[b])
                    for b, d in ds):
                return "\n".join(src) + "\n", False, t
            if len({d[1] for b, d in ds}) > 1:
                return "\n".join(src) + "\n", False, t
    return "\n".join(src) + "\n", True, None


def cases(tier, seed):
    a, b, c = (1400, 1600, 400) if tier == "quick" else (9000, 9000, 4000)
    return [("dis", s) for s in runner.spread(seed, "C16d", a)] + \
        [("rnd", s) for s in runner.spread(seed, "C16", b)] + \
        [("tab", s) for s in runner.spread(seed, "C16t", c)]


def run_case(case, mon):
    r = random.Random("%r" % (case,))
    if case[0] == "rnd":
        ent.run_case(mon, KNOBS, case[1], need="vcalls")
        return
    if case[0] == "dis":
        for _ in range(30):
            p = dispatch(r)
            if p is None:
                continue
            ref = ent.ERef(20000)
            try:
                ref.run_main(p)
            except UB:
                continue
            v = ent.check(mon, p, [], ref, (), key="dis:")
            mon.evaluated()
            mon.count("dispatch_programs")
            for k in ("vcalls", "overridden", "mcalls", "upcasts"):
                mon.count(k, ref.stats[k])
            if v is not None and ref.stats["vcalls"]:
                mon.nontrivial(text(p))
            return
        mon.count("discarded")
        return
    for _ in range(8):
        src, ok, where = question(r)
        res = kit.compile_src(src)
        mon.evaluated()
        mon.count("questions")
        mon.count("accept" if ok else "reject")
        if res.kind == "crash":
            mon.violation("tab:crash", "compiler crashed: %s" % res.message,
                          source=src, traceback=res.tb)
        elif res.ok != ok:
            mon.violation("tab", "an %s combination is %s (%s)" % (
                "allowed" if ok else "invalid",
                "accepted" if res.ok else "rejected", res.message),
                source=src)
        else:
            mon.nontrivial(src)


MIN = {"programs": 500, "dispatch_programs": 500, "vcalls": 15000,
       "overridden": 2500, "questions": 1800, "accept": 300, "reject": 300}
