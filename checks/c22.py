"""C22: the command line.

Workload: the real command line run as an unprivileged process over generated
programs (accepted, faulty in the main or in an imported file, not encodable),
generated option lists (valid and invalid, long and short, all output path
forms), generated earlier contents of the output folder (old packs, user
files, links, read-only or misplaced entries) and injected faults (the k-th
file system change failing, file size limits).  Monitors: an audit hook in the
process that logs every file system change it makes, the exit status, the
streams, and the whole file tree before and after.  Oracle: the tree that the
compiled pack, the options and the earlier contents imply."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from acv import kit, runner

PROPERTY = "C22"
RULE = ("one evaluation = one run of the command line whose exit status, "
        "streams, file system changes and resulting tree were judged; "
        "non-trivial = distinct options, sources and earlier contents")
ASSUME = ["the folders named on the command line do not contain links at "
          "places the pack writes to",
          "a write that fails half way may leave the pack half written; the "
          "command then fails and other files are untouched"]
LEVEL = "exploration"
CASE_LIMIT = 120
MIN = {"run": 900, "ok": 250, "bad_source": 120, "bad_option": 120,
       "bad_place": 60, "fault": 60, "bad_encoding": 30, "replaced": 80,
       "kept_old": 60, "changes_logged": 2000}
NOBODY = 65534

WRAP = r'''
import os, sys, runpy
sys.dont_write_bytecode = True
fd, k, repo = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
sys.argv[:4] = ["acacia"]
n = [0]
MUT = {"os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.link",
       "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime",
       "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn",
       "os.fork", "socket.connect"}
def full(p, d=-1):
    if isinstance(p, int):
        return "fd%d" % p
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if isinstance(d, int) and d >= 0 and not os.path.isabs(p):
        return os.path.join(os.readlink("/proc/self/fd/%d" % d), p)
    return p if os.path.isabs(p) else os.path.join(os.getcwd(), p)
def hook(ev, a):
    if ev == "open":
        if isinstance(a[0], int) or not a[2] & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return
        t = full(a[0])
    elif ev in MUT:
        t = full(a[0], a[-1] if ev in ("os.mkdir", "os.remove", "os.rmdir")
                 else -1) if a and isinstance(a[0], (str, bytes)) else "?"
    else:
        return
    if ev == "os.mkdir" and os.path.isdir(t):
        return
    n[0] += 1
    os.write(fd, ("%s %r\n" % (ev, t)).encode("utf-8", "surrogateescape"))
    if n[0] == k:
        raise OSError(28, "No space left on device")
sys.path.insert(0, repo)
import encodings.idna, encodings.ascii, encodings.latin_1, encodings.utf_16
sys.addaudithook(hook)
runpy.run_path(os.path.join(repo, "acacia.py"), run_name="__main__")
'''

OK_VERS = ["1.19.50", "1.19.63", "1.20", "1.20.20", "1.21.0", "2.0",
           "1.20.10.1"]
BAD_VERS = ["1", "1.x", "1.18.0", "1.19.49", "-1.20", "", "a.b", "1..2",
            "1.19", "1.20.-1", "v1.20"]
NAMES = ["run_me", "Start", "_x", "a1", "zz9", "go2"]
BAD_IDS = ["1a", "a-b", "a b", "a.b", "../x", "a/b", "/etc", "..", ".", "a*",
           "\u00b2x", "x\n", "~"]


def tree(d):
    """path -> what is there (not following links)"""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, d)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[rel] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[rel] = ("file", f.read())
    return out


def program(r, root):
    """(sources, kind) of an accepted program"""
    n = r.randint(0, 999)
    L = ["x := %d" % n]
    src = {}
    names = r.sample(["go", "a/b", "a/c", "deep/er/est", "i1", "i2"],
                     r.randint(0, 3))
    if r.random() < .5:
        L.append("import schedule")
    if r.random() < .4:
        src["helper.aca"] = "y := %d\ndef add(n: int) -> int:\n" \
            "    result n + y\n/say helper\n" % n
        L.append("import helper")
        L.append("x += helper.add(2)")
    L += ["/say hello %d" % k for k in range(r.randint(0, 4))]
    if r.random() < .4:
        L.append("/say \u4e2d\u6587 %d" % n)
    for i in names:
        L += ["interface %s:" % i, "    x += %d" % r.randint(1, 9),
              "    /say in %s" % i]
    if r.random() < .6:
        L += ["def f(n: int):"] + ["    /say f%d" % k for k in range(
            r.choice([1, 3, 30]))] + [
            "    if x > n:", "        x -= 1", "        /say less",
            "if x > 3:", "    f(2)", "else:", "    f(x)"]
    if "import schedule" in L:
        L += ["def tick():", "    x += 1", "    /say tick",
              "schedule.register_loop(tick%s)" % r.choice(
                  ["", ", interval=%d" % r.randint(2, 9)])]
    src["main.aca"] = "\n".join(L) + "\n"
    return src


FAULTS = ["y := ", "x = \"a\"", "undefined_name = 1", "if x\n    x = 1",
          "   x = 2", "/say ${x}", "import no_such_module", "x := 1 +* 2",
          "interface a b:\n    x = 1", "x.foo()", "def f(:\n    pass",
          "\"unterminated", "x = 99999999999", "for q in x:\n    x = 1",
          "f(1, 2", "x = \\ 1", "new()", "result 1"]


def spoil(r, src):
    """(sources, file with the fault)"""
    src = dict(src)
    f = r.choice(sorted(src))
    lines = src[f].rstrip("\n").split("\n")
    x = r.random()
    if x < .8:
        lines.append(r.choice(FAULTS))
        src[f] = "\n".join(lines) + "\n"
    elif x < .9 and "helper.aca" in src:
        del src["helper.aca"]
        f = "main.aca"
    else:
        src[f] = "\n".join(lines) + "\n/say \udcff\n"
    return src, f


class Run:
    def __init__(self, seed):
        self.r = random.Random("c22 %r" % (seed,))

    def options(self):
        """valid options: (argv, Config fields)"""
        r = self.r
        a, c = [], {"encoding": "utf-8"}
        if r.random() < .5:
            v = r.choice(OK_VERS)
            a.append([r.choice(["-v", "--mc-version"]), v])
            c["mc_version"] = tuple(int(x) for x in v.split("."))
        if r.random() < .3:
            a.append([r.choice(["-e", "--education-edition"])])
            c["education_edition"] = True
        if r.random() < .4:
            c["scoreboard"] = r.choice(NAMES)
            a.append([r.choice(["-s", "--scoreboard"]), c["scoreboard"]])
        if r.random() < .6:
            t = r.choice(["lib", "a/b", "/a//b/", "p/q/r", "/", "\u00e9t\u00e9",
                          "lib/"])
            a.append([r.choice(["-f", "--function-folder"]), t])
            c["root_folder"] = "/".join(x for x in t.split("/") if x)
        if r.random() < .4:
            c["main_file"] = r.choice(NAMES)
            a.append([r.choice(["-m", "--main-file"]), c["main_file"]])
        if r.random() < .3:
            c["entity_tag"] = r.choice(NAMES)
            a.append([r.choice(["-t", "--entity-tag"]), c["entity_tag"]])
        if r.random() < .3:
            a.append([r.choice(["-d", "--debug-comments"])])
            c["debug_comments"] = True
        if r.random() < .4:
            a.append([r.choice(["-O", "--no-optimize"])])
            c["optimizer"] = False
        if r.random() < .4:
            c["split_init"] = True
            o = r.choice(["-i", "--init-file"])
            if r.random() < .5:
                n = r.choice([x for x in NAMES + ["boot"]
                              if x.lower() != c.get("main_file",
                                                    "main").lower()])
                c["init_file"] = n
                a.append([o, n])
            else:
                a.append([o])
        if r.random() < .3:
            c["internal_folder"] = r.choice(["_int", "zz_", "Priv"])
            a.append(["--internal-folder", c["internal_folder"]])
        if r.random() < .3:
            n = r.choice([0, 1, 20, 1000])
            c["max_inline_file_size"] = n
            a.append(["--max-inline-file-size", str(n)])
        if r.random() < .2:
            a.append(["--verbose"])
        if r.random() < .2:
            a.append(["--encoding", r.choice(["utf-8", "utf8", "UTF-8"])])
        return a, c

    def bad_option(self, cfg):
        r = self.r
        return r.choice([
            ["-v", r.choice(BAD_VERS[:4] + BAD_VERS[6:])],
            ["--mc-version=" + r.choice(["1", "-1.20", "1.x"])],
            [r.choice(["-s", "--scoreboard"]), r.choice(BAD_IDS)],
            [r.choice(["-m", "--main-file"]), r.choice(BAD_IDS)],
            [r.choice(["-i", "--init-file"]), r.choice(BAD_IDS)],
            ["--internal-folder", r.choice(BAD_IDS)],
            ["--internal-folder", r.choice(["../victim", "../../x", "/"])],
            ["-f", r.choice(["../victim", "a/../..", "a/b c", "1/2", "a\\b",
                             "a/.", "..", "./a", "a/../../../victim"])],
            ["-f", r.choice(["../victim", "..", "a/../../victim"])],
            ["--max-inline-file-size", r.choice(["-1", "-20", "x", "1.5"])],
            ["--encoding", r.choice(["no_such_codec", "utf-99"])],
            ["-i", cfg.get("main_file", "main").upper()],
            ["-i", cfg.get("main_file", "main")],
            ["--no-such-option"], ["-Z"], ["stray_argument"],
        ])


def flat(opts, r, src, out):
    """the argument list; the source goes where it cannot be taken for the
    value of an option"""
    o = [list(x) for x in opts]
    if out is not None:
        o.append(r.choice([["-o", out], ["--out", out], ["--out=" + out]]))
    r.shuffle(o)
    tail = [x for x in o if x in (["-i"], ["--init-file"])]
    o = [x for x in o if x not in (["-i"], ["--init-file"])]
    a = []
    at = r.randint(0, len(o))
    for i, x in enumerate(o):
        if i == at:
            a.append(src)
        a += x
    if at == len(o):
        a.append(src)
    for x in tail:
        a += x
    return a


def run_case(case, mon):
    kind = case[0]
    g = Run(case)
    r = g.r
    comp, err = kit.load()
    box = kit.fresh_dir("cli")
    log = tempfile.NamedTemporaryFile(dir=kit.fresh_dir("log"))
    try:
        os.chmod(kit.scratch_root(), 0o711)
        _run(case, kind, g, r, comp, err, box, log, mon)
    finally:
        log.close()
        shutil.rmtree(os.path.dirname(log.name), ignore_errors=True)
        for root, dirs, _ in os.walk(box):
            os.chmod(root, 0o755)
        shutil.rmtree(box, ignore_errors=True)


def _run(case, kind, g, r, comp, err, box, log, mon):
    opts, cfg = g.options()
    root = cfg.get("root_folder", "")
    srcdir = os.path.join(box, r.choice(["src", "my src", "s.d"]))
    victim = os.path.join(box, "victim")
    os.makedirs(srcdir)
    kit.write_tree(victim, {"keep.txt": "keep", "main.mcfunction": "mine",
                            "sub/tick.json": "x"})
    src = program(r, root)
    faulty = None
    if kind == "bad_source":
        src, faulty = spoil(r, src)
    if kind == "bad_encoding":
        src["main.aca"] = src["main.aca"].replace("\u4e2d\u6587", "zh") + \
            "/say caf\\u%04x\n" % r.choice([0xe9, 0x4e2d, 0x3042])
        if r.random() < .5:
            src["main.aca"] += "interface zlast:\n    /say \\u3042\n"
        if root == "\u00e9t\u00e9":
            root = "lib"
            cfg["root_folder"] = root
            opts = [x for x in opts if x[0] not in (
                "-f", "--function-folder")] + [["-f", "lib"]]
        opts = [x for x in opts if x[0] != "--encoding"]
        if "\\u3042" in src["main.aca"] or "\\u4e2d" in src["main.aca"]:
            enc = r.choice(["ascii", "latin-1"])
        else:
            enc = "ascii"
        opts.append(["--encoding", enc])
        cfg["encoding"] = enc
    elif kind == "ok" and r.random() < .12 and not any(
            ord(c) > 127 for t in src.values() for c in t):
        # another encoding of files
        enc = r.choice(["utf-16", "ascii", "latin-1"])
        if not (enc != "utf-16" and root == "\u00e9t\u00e9"):
            opts = [x for x in opts if x[0] != "--encoding"]
            opts.append(["--encoding", enc])
            cfg["encoding"] = enc
    name = r.choice(["main.aca", "main.aca", "main.aca", "prog.v2.aca",
                     "noext", "Main.txt"])
    if name != "main.aca":
        src[name] = src.pop("main.aca")
        if faulty == "main.aca":
            faulty = name
    for n, t in src.items():
        with open(os.path.join(srcdir, n), "wb") as f:
            f.write(t.encode(cfg["encoding"] if kind == "ok" else "utf-8",
                             "surrogateescape"))
    main = os.path.join(srcdir, name)
    # where the output goes
    form = r.choice(["abs", "rel", "dots", "slash", "default", "cwd", "link"])
    cwd = r.choice([box, srcdir, victim])
    out = os.path.join(box, "out", "pack")
    os.makedirs(os.path.dirname(out))
    if form == "default":
        out = os.path.join(srcdir, os.path.splitext(name)[0] + ".acaout")
        arg = None
    elif form == "abs":
        arg = out
    elif form == "rel":
        arg = os.path.relpath(out, cwd)
    elif form == "dots":
        arg = os.path.join(victim, "sub", "..", "..", "out", "pack")
    elif form == "slash":
        arg = out + "/"
    elif form == "cwd":
        os.makedirs(out)
        cwd, arg = out, "."
    else:
        os.symlink(os.path.join(box, "out"), os.path.join(box, "lnk"))
        arg = os.path.join(box, "lnk", "pack")
    # what is there already
    had = r.choice(["none", "empty", "pack", "pack", "pack", "other"])
    if kind in ("bad_source", "bad_encoding", "bad_option", "fault") and \
            r.random() < .7:
        had = "pack"
    if form == "cwd" and had == "none":
        had = "empty"
    rootdir = os.path.join(out, root) if root else out
    if had != "none":
        os.makedirs(out, exist_ok=True)
    if had in ("pack", "other"):
        kit.write_tree(out, {
            "tick.json": '{"values": ["gone/tick"]}', "user.txt": "mine",
            "zother/main.mcfunction": "say other\n" * 50,
            ".hidden/x": "h"})
    if had == "pack":
        kit.write_tree(rootdir, {
            cfg.get("main_file", "main") + ".mcfunction": "say old\n" * 400,
            cfg.get("internal_folder", "_acacia") + "/acalib1.mcfunction":
            "say old lib\n", "go.mcfunction": "say old go\n" * 40,
            "mine/own.mcfunction": "say own\n",
            "a/b.mcfunction": "say a b", "notes.txt": "text"})
        if r.random() < .5:
            os.symlink(victim, os.path.join(rootdir, "mine", "to_victim"))
        if r.random() < .3:
            os.symlink("/nowhere/x", os.path.join(rootdir, "broken"))
    override = r.random() < .5
    if override:
        opts.append([r.choice(["-u", "--override-old"])])
    if kind == "bad_option":
        bad = g.bad_option(cfg)
        # the last one given counts
        keys = {"-v": ("-v", "--mc-version"), "-s": ("-s", "--scoreboard"),
                "-m": ("-m", "--main-file"), "-i": ("-i", "--init-file"),
                "-f": ("-f", "--function-folder")}
        first = bad[0].split("=")[0]
        for k in list(keys.values()) + [(first,)]:
            if first in k:
                opts = [x for x in opts if x[0] not in k]
        opts.append(bad)
    # places that cannot be used
    place = None
    if kind == "bad_place":
        place = r.choice(["nosrc", "srcdir", "noparent", "parentfile",
                          "outfile", "readonly_out", "readonly_parent",
                          "maindir", "tickdir", "rootfile", "rootlink",
                          "readonly_root", "unreadable", "unreadable_mod",
                          "readonly_file"])
        nu = [x for x in opts if x[0] not in ("-u", "--override-old")]
        if place == "nosrc":
            os.unlink(main)
        elif place == "srcdir":
            os.unlink(main)
            os.mkdir(main)
        elif place == "noparent":
            arg = out = os.path.join(box, "missing", "deep", "pack")
        elif place == "parentfile":
            arg = out = os.path.join(victim, "keep.txt", "pack")
        elif place == "outfile":
            arg = out = os.path.join(victim, "keep.txt")
        elif place in ("maindir", "tickdir", "rootfile", "rootlink",
                       "readonly_file"):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            if form == "cwd":
                cwd, arg = box, out
            if place == "maindir":
                opts, override = nu, False
                os.makedirs(os.path.join(rootdir, cfg.get(
                    "main_file", "main") + ".mcfunction"))
            elif place == "tickdir":
                if not root:
                    opts, override = nu, False
                os.makedirs(os.path.join(out, "tick.json"))
                src[name] += "import schedule\ndef tk():\n    /say tk\n" \
                    "schedule.register_loop(tk)\n"
                if "import schedule\n" in src[name][:40]:
                    src[name] = src[name].replace("import schedule\n", "", 1)
                src[name] = src[name].replace("import schedule\n", "")
                src[name] = "import schedule\n" + src[name]
                with open(main, "w") as f:
                    f.write(src[name])
            elif place == "rootfile":
                if not root:
                    place = None
                else:
                    opts, override = nu, False
                    p = os.path.join(out, root.split("/")[0])
                    with open(p, "w") as f:
                        f.write("file")
            elif place == "rootlink":
                if not root or "/" in root:
                    place = None
                else:
                    if not override:
                        override = True
                        opts.append(["-u"])
                    os.symlink(victim, rootdir)
            else:
                opts, override = nu, False
                p = os.path.join(rootdir, cfg.get(
                    "main_file", "main") + ".mcfunction")
                kit.write_tree(rootdir, {os.path.basename(p): "old"})
                src[name] += "/say something\n"
                with open(main, "a") as f:
                    f.write("/say something\n")
    os.chmod(srcdir, 0o755)
    for d, ds, fs in os.walk(box):
        for n in ds + fs:
            os.lchown(os.path.join(d, n), NOBODY, NOBODY)
    os.chown(box, NOBODY, NOBODY)
    if place == "readonly_out":
        os.makedirs(out, exist_ok=True)
        for d, _, _ in os.walk(out):
            os.chmod(d, 0o555)
        if rootdir != out and os.path.isdir(rootdir):
            place = None        # files may be rewritten in place
        elif override and rootdir == out and had in ("none", "empty"):
            place = None        # the folder is made anew
    elif place == "readonly_parent":
        if form in ("cwd",) or os.path.exists(out):
            place = None
        else:
            os.chmod(os.path.dirname(out), 0o555)
    elif place == "readonly_root":
        if not os.path.isdir(rootdir) or not override or \
                not os.listdir(rootdir):
            place = None
        else:
            for d, _, _ in os.walk(rootdir):
                os.chmod(d, 0o555)
    elif place == "readonly_file":
        os.chmod(p, 0o444)
    elif place == "unreadable":
        os.chmod(main, 0)
    elif place == "unreadable_mod":
        m = os.path.join(srcdir, "helper.aca")
        if os.path.exists(m):
            os.chmod(m, 0)
        else:
            place = None
    if kind == "bad_place" and place is None:
        # what was drawn does not apply: an ordinary run, unless modes were
        # changed above
        for d, ds, fs in os.walk(box):
            os.chmod(d, 0o755)
    # what the pack should be
    expected = None
    if kind in ("ok", "fault", "bad_place") and place in (
            None, "tickdir", "maindir", "rootfile", "rootlink",
            "readonly_file", "readonly_out", "readonly_parent",
            "readonly_root", "noparent", "parentfile", "outfile"):
        tmp = kit.fresh_dir("exp")
        try:
            c = comp.Compiler(main, comp.Config(**cfg))
            c.output(tmp)
            expected = {k: v for k, v in tree(tmp).items()
                        if v[0] == "file"}
        except err.Error as e:
            mon.violation("harness", "generated program refused: %s" %
                          e.full_msg(), source=src[name])
            return
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if kind == "bad_place" and place == "maindir" and not any(
            k == os.path.join(root, cfg.get("main_file", "main")
                              + ".mcfunction") for k in expected):
        place = None
    k = 0
    limit = None
    if kind == "fault":
        if r.random() < .7:
            k = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 12])
        else:
            limit = r.choice([0, 10, 60, 200])
    before = tree(box)
    argv = flat(opts, r, main if r.random() < .5 or cwd == out
                else os.path.relpath(main, cwd), arg)

    def prep():
        import resource
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    lr, lw = os.pipe()
    env = {k_: v for k_, v in os.environ.items() if not k_.startswith("PY")}
    env.update(PYTHONUTF8="1", PYTHONHASHSEED=str(r.randint(0, 99)),
               HOME="/nonexistent")
    try:
        p = subprocess.Popen(
            [sys.executable, "-B", "-c", WRAP, str(lw), str(k), kit.REPO]
            + argv, cwd=cwd, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
            user=NOBODY, group=NOBODY, extra_groups=[], pass_fds=(lw,),
            preexec_fn=prep, umask=0o022)
        os.close(lw)
        lw = None
        import threading
        chunks = []

        def drain():
            while True:
                b = os.read(lr, 65536)
                if not b:
                    return
                chunks.append(b)
        th = threading.Thread(target=drain)
        th.start()
        try:
            so, se = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            mon.evaluated()
            mon.violation("hang", "no answer within 60 s: %r" % argv)
            return
        finally:
            th.join()
    finally:
        if lw is not None:
            os.close(lw)
        os.close(lr)
    changes = []
    for ln in b"".join(chunks).decode("utf-8",
                                      "surrogateescape").splitlines():
        ev, t = ln.split(" ", 1)
        import ast
        changes.append((ev, os.path.normpath(os.path.join(
            os.path.realpath(os.path.dirname(ast.literal_eval(t))),
            os.path.basename(ast.literal_eval(t))))))
    mode_fix = [d for d, _, _ in os.walk(box)]
    for d in mode_fix:
        os.chmod(d, 0o755)
    after = tree(box)
    so, se = so.decode("utf-8", "replace"), se.decode("utf-8", "replace")
    what = {"argv": argv, "cwd": cwd, "exit": p.returncode, "stderr":
            se[:1500], "source": src[name].encode(
                "utf-8", "backslashreplace").decode(),
            "had": had, "place": place, "changes": changes[:60],
            "inject": [k, limit]}
    mon.evaluated()
    mon.count("run")
    mon.count("changes_logged", len(changes))
    mon.nontrivial([a.replace(box, "B") for a in argv], repr(src), had,
                   place, k, limit)
    mon.sample(" ".join(argv).replace(box, "BOX"))

    def bad(key, msg):
        mon.violation(key, (msg + "; arguments %r" % " ".join(argv)).replace(
            box, "BOX"), **what)
    inject = (k and len(changes) >= k) or (limit is not None and any(
        len(v[1]) > limit for v in (expected or {}).values()))
    # the pipe itself cannot be limited, so a run under a limit may also fail
    fails = (kind in ("bad_source", "bad_option", "bad_encoding")
             or place is not None or inject)
    ro = os.path.relpath(out, box)
    rr = os.path.relpath(rootdir, box) if not out.startswith(
        os.path.join(victim, "keep.txt")) else ro

    def inside(p, d):
        return p == d or p.startswith(d + os.sep)
    # 1. what it did to the file system
    allowed = set()
    if expected is not None:
        for f in expected:
            f = os.path.join(out, f)
            while f != out:
                allowed.add(f)
                f = os.path.dirname(f)
    for ev, t in changes:
        if ev == "os.mkdir" and (t == out or t in allowed):
            continue
        if ev == "open" and t in allowed and expected is not None:
            continue
        if ev in ("os.remove", "os.rmdir") and override and \
                inside(t, rootdir) and kind in ("ok", "fault", "bad_place"):
            continue
        if ev == "os.mkdir" and inside(t, out) and place is None and \
                kind in ("ok", "fault"):
            bad("change", "makes the folder %s" % t)
            return
        bad("change", "%s of %s" % (ev, t))
        return
    # 2. the exit status
    if (p.returncode != 0) != bool(fails):
        bad("status", "exits with %r although the run must %s" % (
            p.returncode, "fail (%s)" % (place or kind) if fails
            else "succeed"))
        return
    if p.returncode < 0:
        bad("status", "ends by signal %d" % -p.returncode)
        return
    # 3. the diagnostic
    if fails:
        if not se.strip():
            bad("silent", "fails without a diagnostic")
            return
        if "Traceback (most recent" in se and "--verbose" not in argv:
            bad("traceback", "fails with a Python traceback: %s"
                % se.strip()[-200:])
            return
        if faulty is not None and faulty in src and faulty not in se:
            bad("diagnostic", "does not name the faulty file %s: %s" % (
                faulty, se.strip()[:200]))
            return
    elif se.strip() or so.strip():
        bad("noise", "succeeds with the message %r" % (se or so)[:200])
        return
    # 4. the tree
    want = dict(before)
    if fails:
        if not inject and kind not in ("bad_place",):
            # nothing but (at most) the empty output folder
            got = dict(after)
            if ro not in want and got.get(ro) == ("dir",):
                del got[ro]
            if got != want:
                bad("tree", "a failed run changes %s" % sorted(
                    x for x in set(got) | set(want)
                    if got.get(x) != want.get(x))[:5])
                return
        else:
            for x in set(after) | set(want):
                if after.get(x) == want.get(x):
                    continue
                if x == ro or os.path.join(box, x) in allowed:
                    continue
                if override and inside(x, rr):
                    continue
                bad("tree", "a failed run changes %s" % x)
                return
        if had == "pack":
            mon.count("kept_old")
        mon.count("fault" if kind == "fault" else kind)
        return
    if override:
        n = len(want)
        want = {x: v for x, v in want.items() if not inside(x, rr)}
        if n != len(want) and had == "pack":
            mon.count("replaced")
    for f, v in expected.items():
        f = os.path.join(ro, f)
        want[f] = v
        while os.path.dirname(f):
            f = os.path.dirname(f)
            want.setdefault(f, ("dir",))
    want.setdefault(ro, ("dir",))
    if want != after:
        d = sorted(x for x in set(after) | set(want)
                   if after.get(x) != want.get(x))
        bad("tree", "the tree is wrong at %s: %s" % (d[:5], [
            "missing" if x not in after else "unexpected" if x not in want
            else "differs" for x in d[:5]]))
        return
    if had == "pack" and not override:
        mon.count("kept_old")
    mon.count("ok")


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for kind, n in (("ok", 420), ("bad_source", 200), ("bad_option", 200),
                    ("bad_place", 220), ("fault", 200),
                    ("bad_encoding", 60)):
        out += [(kind, s) for s in runner.spread(
            seed, "c22" + kind, n if q else n * 15)]
    random.Random("%rc22" % seed).shuffle(out)
    return out
