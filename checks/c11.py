"""C11: layout and comments.

Workload: the programs of the other checks, hostile programs, the demos and a
fixed set; each is re-laid out at random (comments of both kinds, blank lines,
trailing blanks, continuations, breaks inside brackets, spaces, redundant
parentheses, trailing commas, split literals, number bases, block widths, line
endings) by a scanner and renderer that share nothing with the compiler's.
Monitor: the output trees of the original and the rewritten program are the
same bytes.  The same programs with one wrong layout (a dedent to nowhere, an
unexpected indent, a missing block, text after a continuation, a tab, an
unclosed bracket / comment / string / command, a line break in the middle of a
statement, two statements in a line ...) must be refused, at that line."""
import os
import random

from acv import hostile, kit, layout, runner, universal

PROPERTY = "C11"
RULE = ("one evaluation = one rewritten program compiled and its output tree "
        "compared with that of the original, or one wrongly laid out program "
        "and the refusal it must get; non-trivial = at least five rewritings "
        "(or the fault) really applied, distinct by source text")
ASSUME = ["blanks are spaces: a tab is not layout",
          "a multi-line command's line break stands for one blank"]
LEVEL = "exploration"
MIN = {"programs": 500, "rewritten": 900, "breaks": 5000, "comments": 2000,
       "longcomments": 5000, "continuations": 3000, "parens": 5000,
       "leads": 300, "fixed_ok": 20, "refused": 2500}

FIXED = ['''import print
const (
    a = 1, b: int = 2,
    c = {1: "x", 2: "y"}
)
interface foo/bar.baz-1:
    /say ${a} ${"in${b}ner"}
interface "q/${a}":
    if a == 1 and not b < 3 or (a + b) * 2 > 4:
        /say yes
    elif True:
        pass
    else:
        /* say
        long ${ b
        } command */
def f(x: int, y: bool = False) -> int:
    while x < 3:
        x += 1
        if y:
            x *= 2
    result -x + +3 - -(2)
z := f(1, y=True)
z = f(2) / 3 % 4
inline def g(const s, &r: int):
    r += 1
    /say ${s} #not a comment
g("h" "i\\"j" "\\#(red)", z)
for i in {1, 2, 3}:
    for j in list.range(i):
        z += i * j
struct S:
    p: int
    q: bool
struct S2 extends S:
    pass
s := S2(p=1, q=not True)
entity E:
    x: int
    new(n: int):
        new(type="pig", pos=Pos(0, 0, 0))
        self.x = n
    virtual def m(k: int) -> bool:
        result self.x > k
    static const def k(v: int) -> int:
        result v * 2
entity F extends E:
    new():
        E.new(n=4)
    override def m(k: int) -> bool:
        result False
e: E = F()
w := e.m(3) or e.x == E.k(2)
/say end
''', '''from print import tell, format as fm
import schedule as sch
n := 0xF + 0b11 - 0o17
p: bool
p = n >= 3
def tick():
    tell(fm("%0 and %1", n, p))
const t = sch.Task(tick)
t.after(20)
l := Engroup[Entity]()
''']


def demo_cases():
    d = os.path.join(kit.REPO, "test")
    out = []
    for sub in ("", "demo"):
        q = os.path.join(d, sub)
        if os.path.isdir(q):
            for f in sorted(os.listdir(q)):
                if f.endswith(".aca"):
                    out.append(("file", os.path.join(sub, f)))
    return out


def cases(tier, seed):
    n = 640 if tier == "quick" else 9000
    out = universal.pool(seed, "C11", n)
    out += [("hostile", s) for s in runner.spread(seed, "C11h",
                                                  40 if tier == "quick"
                                                  else 500)]
    out += demo_cases()
    reps = 12 if tier == "quick" else 120
    out += [("fixed", i, s) for i in range(len(FIXED))
            for s in runner.spread(seed, "C11f%d" % i, reps)]
    return out


def programs(case):
    if case[0] == "pool":
        return universal.harvest(case[1], case[2], 1)
    if case[0] == "hostile":
        h = hostile.make(case[1])
        return [(h if isinstance(h, str) else h[0], "main.aca", {})]
    if case[0] == "file":
        p = os.path.join(kit.REPO, "test", case[1])
        with open(p, encoding="utf-8") as f:
            src = {os.path.basename(p): f.read()}
        d = os.path.dirname(p)
        for f in os.listdir(d):
            if f.endswith(".aca") and f not in src:
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    src[f] = fh.read()
        return [(src, os.path.basename(p), {})]
    return [(FIXED[case[1]], "main.aca", {})]


def run_case(case, mon):
    r = random.Random(repr(case))
    for src, main, cfg in programs(case):
        cfg = dict(cfg)
        cfg.pop("debug_comments", None)
        if isinstance(src, str):
            src = {main: src}
        acas = {k: t for k, t in src.items()
                if k.endswith(".aca") and isinstance(t, str)}
        try:
            for t in acas.values():
                layout.parse(t.replace("\r\n", "\n"))
        except layout.Odd as e:
            mon.count("skipped")
            continue
        a = kit.compile_src(src, main=main, **cfg)
        mon.count("programs")
        mon.count("accepted" if a.ok else "rejected")
        if case[0] == "fixed" and a.ok:
            mon.count("fixed_ok")
        if a.kind == "crash":
            mon.count("skipped")
            continue
        for level in (1.0, .35):
            new = dict(src)
            stats = {}
            for k, t in acas.items():
                new[k], st = layout.relayout(t, r, level)
                for x, y in st.items():
                    stats[x] = stats.get(x, 0) + y
            b = kit.compile_src(new, main=main, **cfg)
            mon.evaluated()
            mon.count("rewritten")
            for x, y in stats.items():
                mon.count(x, y)
            if sum(stats.values()) >= 5:
                mon.nontrivial(sorted(new.items()))
            mon.sample(new[main] if main in new else "")
            bad = None
            if a.kind != b.kind:
                bad = "%s becomes %s: %s" % (
                    a.kind, b.kind, (b.message or a.message or "")[-300:])
            elif a.ok and a.files != b.files:
                d = [p for p in sorted(set(a.files) | set(b.files))
                     if a.files.get(p) != b.files.get(p)]
                x = (a.files.get(d[0]) or "").splitlines()
                y = (b.files.get(d[0]) or "").splitlines()
                j = next((i for i in range(min(len(x), len(y)))
                          if x[i] != y[i]), min(len(x), len(y)))
                bad = "%s line %d: %r becomes %r" % (
                    d[0], j + 1, x[j:j + 1], y[j:j + 1])
            elif not a.ok and a.etype() != b.etype():
                bad = "error %s becomes %s" % (a.message[-200:],
                                               b.message[-200:])
            if bad:
                mon.violation("neutral", "a layout change changed the "
                              "output: " + bad, source=new, original=src,
                              cfg=cfg)
                return
        t = src.get(main)
        if not isinstance(t, str) or main not in acas:
            continue
        faults = r.sample(layout.FAULTS, 6) if case[0] != "fixed" \
            else layout.FAULTS
        for kind in faults:
            x = layout.faulty(t, kind, r)
            if x is None:
                mon.count("nofault")
                continue
            text, (lo, hi) = x
            new = dict(src)
            new[main] = text
            b = kit.compile_src(new, main=main, **cfg)
            mon.evaluated()
            mon.count("fault_" + kind)
            mon.nontrivial("f", text)
            if b.kind != "error":
                mon.violation(
                    "fault-" + kind, "wrong layout (%s at line %d) is %s"
                    % (kind, lo, "accepted" if b.ok else "a crash: "
                       + (b.tb or "")[-300:]), source=new, cfg=cfg)
                continue
            mon.count("refused")
            loc = b.exc.location
            line = loc.linecol[0] if loc.linecol else None
            if not loc.file or os.path.basename(loc.file) != \
                    os.path.basename(main) or line is None or \
                    not lo <= line <= hi:
                mon.violation(
                    "faultline-" + kind, "wrong layout (%s at line %d) is "
                    "reported at %s:%s: %s" % (
                        kind, lo, loc.file, line, b.message[-200:]),
                    source=new, cfg=cfg)
