"""C27: generated music plays every audible note of its MIDI file on time.

Workload: random Standard MIDI files (written byte by byte: one or several
tracks, chords, tempo changes, running status, programs, volumes, meta and
system messages) and random Music arguments; histories of play / stop /
restart / ticks / re-runs of main driven through interfaces on the monitored
VM.  Monitor: the log of every playsound command with the tick it was executed
in and the player it was executed for, against a model computed from the
abstract song with exact fractions.

mido, the MIDI parser the module imports, is not installed; a stand-in with
its documented interface (acv/fakes/mido.py) reads the files."""
import math
import os
import random
import struct
import sys
from fractions import Fraction

from acv import kit, runner, vm as vmmod

PROPERTY = "C27"
RULE = ("one evaluation = one song played through one history, every sound "
        "heard by every player compared with the model tick by tick, or one "
        "bad file or argument refused with a located diagnostic; distinct by "
        "song, arguments and history")
ASSUME = ["mido is replaced by a stand-in with the same documented interface",
          "messages of one MIDI tick act in the order of their tracks",
          "a note whose time lies exactly between two game ticks may be "
          "played on either",
          "the pause before a repetition may or may not count the last tick "
          "of the music"]
LEVEL = "exploration"
MIN = {"sounds heard": 3000, "songs": 60, "tempo changes": 40,
       "repetitions": 20, "chords": 60, "restarts": 40, "refused": 20,
       "overridden instruments": 100, "chunks": 60}

FAKES = os.path.join(kit.VERIF, "acv", "fakes")


def _mods():
    if FAKES not in sys.path:
        sys.path.insert(0, FAKES)
    kit.load()
    from acaciamc.modules import music
    return music


# --- songs ------------------------------------------------------------------
def varint(n):
    out = [n & 127]
    while n >> 7:
        n >>= 7
        out.append(n & 127 | 128)
    return bytes(reversed(out))


class Song:
    """events[track] = list of (midi tick, kind, values)"""

    def __init__(self, r):
        self.r = r
        self.tpb = r.choice([6, 24, 24, 48, 96, 120, 480])
        self.type = r.choice([0, 1, 1])
        nt = 1 if self.type == 0 else r.choice([1, 2, 2, 3, 4])
        beats = r.choice([1, 2, 3, 5, 8])
        end = beats * self.tpb
        grid = r.choice([1, self.tpb // 6, self.tpb // 2, self.tpb])
        chans = list(range(16))
        r.shuffle(chans)
        self.tracks = []
        for t in range(nt):
            ev = []
            mine = [chans.pop() for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < .3:
                mine.append(9)
            if r.random() < .2:
                mine.append(0)
            for _ in range(r.choice([0, 1, 2]) if t else r.choice([0, 1, 3])):
                ev.append((self.when(end, grid), "tempo",
                           (r.choice([500000, 250000, 1000000, 600000,
                                      333333, 400000, 750000, 1200000]),)))
            for _ in range(r.choice([0, 1, 2, 4])):
                ev.append((r.choice([0, 0, self.when(end, grid)]), "prog",
                           (r.choice(mine), r.choice(
                               [r.randrange(128), 0, 127, 47, 73]))))
            for _ in range(r.choice([0, 1, 2, 4])):
                ev.append((r.choice([0, self.when(end, grid)]), "cc",
                           (r.choice(mine), r.choice([7, 7, 7, 10, 64, 0]),
                            r.choice([0, 1, 64, 100, 127,
                                      r.randrange(128)]))))
            for _ in range(r.choice([0, 2, 5, 12, 30])):
                t0 = self.when(end, grid)
                for _ in range(r.choice([1, 1, 1, 2, 3, 4])):
                    n = (r.choice(mine), r.choice(
                        [r.randrange(128), 54, 60, 66, 0, 127]),
                        r.choice([127, 100, 64, 1, r.randrange(128), 0]))
                    ev.append((t0, "on", n))
                    if r.random() < .6:
                        ev.append((t0 + r.choice([0, grid, grid * 2]),
                                   r.choice(["off", "on0"]), n))
            for _ in range(r.choice([0, 0, 1, 2])):
                ev.append((self.when(end, grid), r.choice(
                    ["text", "sysex", "bend", "touch", "poly", "name",
                     "sig"]), (r.choice(mine),)))
            r.shuffle(ev)
            ev.sort(key=lambda e: e[0])
            last = ev[-1][0] if ev else 0
            if r.random() < .9 or not ev:
                ev.append((last + r.choice([0, 0, 1, grid, self.tpb]), "end",
                           ()))
            self.tracks.append(ev)

    def when(self, end, grid):
        return self.r.randrange(0, end // grid + 1) * grid

    def data(self):
        out = [b"MThd", struct.pack(">LHHH", 6, self.type, len(self.tracks),
                                    self.tpb)]
        for ev in self.tracks:
            body, now, status = [], 0, None
            for t, k, v in ev:
                body.append(varint(t - now))
                now = t
                m = None
                if k == "on":
                    m = (0x90 | v[0], v[1], v[2])
                elif k == "on0":
                    m = (0x90 | v[0], v[1], 0)
                elif k == "off":
                    m = (0x80 | v[0], v[1], v[2])
                elif k == "prog":
                    m = (0xC0 | v[0], v[1])
                elif k == "cc":
                    m = (0xB0 | v[0], v[1], v[2])
                elif k == "bend":
                    m = (0xE0 | v[0], 5, 64)
                elif k == "touch":
                    m = (0xD0 | v[0], 7)
                elif k == "poly":
                    m = (0xA0 | v[0], 60, 7)
                if m is not None:
                    if m[0] == status and self.r.random() < .7:
                        m = m[1:]
                    else:
                        status = m[0]
                    body.append(bytes(m))
                    continue
                status = None
                if k == "tempo":
                    body.append(b"\xff\x51\x03" + v[0].to_bytes(3, "big"))
                elif k == "end":
                    body.append(b"\xff\x2f\0")
                elif k == "text":
                    body.append(b"\xff\x01\x03abc")
                elif k == "name":
                    body.append(b"\xff\x03\x02hi")
                elif k == "sig":
                    body.append(b"\xff\x58\x04\x04\x02\x18\x08")
                elif k == "sysex":
                    body.append(b"\xf0\x02\x01\xf7")
            body = b"".join(body)
            out += [b"MTrk", struct.pack(">L", len(body)), body]
        return b"".join(out)

    def play(self, a, table):
        """[(exact game tick, sound, volume, pitch)], exact length (min,max)
        """
        merged = sorted(((t, i, j, k, v)
                         for i, ev in enumerate(self.tracks)
                         for j, (t, k, v) in enumerate(ev)),
                        key=lambda e: e[:3])
        prog = {c: 0 for c in range(16)}
        prog[9] = 127
        vol = dict.fromkeys(range(16), 100)
        tempo = 500000
        now, gt = 0, Fraction(0)
        sp = Fraction(a["speed"])

        def step():
            # one game tick is 1/20 s
            return Fraction(tempo, 1000000) / self.tpb * 20 / sp
        notes = []
        for t, i, j, k, v in merged:
            gt += (t - now) * step()
            now = t
            if k == "tempo":
                tempo = v[0]
            elif k == "prog":
                prog[v[0]] = v[1]
            elif k == "cc" and v[1] == 7:
                vol[v[0]] = v[2]
            elif k == "on" and v[2]:
                f = (v[2] / 127) * (vol[v[0]] / 127) \
                    * a["channel_volume"].get(v[0], 1.0) * a["volume"]
                if f == 0:
                    continue
                p = prog[v[0]]
                notes.append((gt, a["instrument"].get(p, table[p]), f,
                              2 ** ((v[1] + a["note_offset"] - 66) / 12)))
        return notes, (gt, gt + step())


def margs(r):
    fl = [0.5, 1.0, 1.5, 2.0, 3.0, 0.25]
    a = {"looping": r.random() < .35, "loop_interval": 50,
         "note_offset": 0, "chunk_size": 500, "speed": 1.0, "volume": 1.0,
         "channel_volume": {}, "instrument": {}, "listener": None}
    src = {}
    if a["looping"] or r.random() < .1:
        src["looping"] = str(a["looping"])
        if r.random() < .8:
            a["loop_interval"] = r.choice([0, 1, 2, 7, 20, 50])
            src["loop_interval"] = str(a["loop_interval"])
    if r.random() < .4:
        a["note_offset"] = r.choice([-12, -1, 1, 5, 12, 24])
        src["note_offset"] = str(a["note_offset"])
    if r.random() < .6:
        a["chunk_size"] = r.choice([1, 1, 2, 3, 5, 10])
        src["chunk_size"] = str(a["chunk_size"])
    if r.random() < .5:
        a["speed"] = r.choice(fl)
        src["speed"] = str(a["speed"])
        if a["speed"] == int(a["speed"]) and r.random() < .5:
            src["speed"] = str(int(a["speed"]))
    if r.random() < .4:
        a["volume"] = r.choice(fl)
        src["volume"] = str(a["volume"])
    if r.random() < .5:
        a["channel_volume"] = {r.randrange(16): r.choice(fl + [0.0])
                               for _ in range(r.randrange(1, 12))}
        src["channel_volume"] = "{%s}" % ", ".join(
            "%d: %s" % x for x in a["channel_volume"].items())
    if r.random() < .5:
        a["instrument"] = {r.choice([0, 127, 47, 73, r.randrange(128)]):
                           "my.sound%d" % i
                           for i in range(r.randrange(1, 6))}
        src["instrument"] = "{%s}" % ", ".join(
            '%d: "%s"' % x for x in a["instrument"].items())
    if r.random() < .3:
        a["listener"] = "gr"
        src["listener"] = "gr"
    return a, src


def call(r, path, src):
    order = ["looping", "loop_interval", "listener", "note_offset",
             "chunk_size", "speed", "volume", "channel_volume", "instrument"]
    out = ['"%s"' % path]
    if r.random() < .2:
        # positional prefix
        for k in order:
            if k not in src:
                break
            out.append(src.pop(k))
    items = list(src.items())
    r.shuffle(items)
    out += ["%s=%s" % x for x in items]
    return "music.Music(%s)" % ", ".join(out)


def cases(tier, seed):
    q = tier == "quick"
    return [("song", s) for s in
            runner.spread(seed, "C27", 1500 if q else 40000)] + \
        [("bad", s) for s in runner.spread(seed, "C27b", 120 if q else 2000)]


def run_case(case, mon):
    {"song": song, "bad": bad}[case[0]](mon, random.Random("%r" % (case,)))


class Player:
    """model of one Music: what is to be heard on each tick"""

    def __init__(self, notes, length, a):
        self.notes, self.length, self.a = notes, length, a
        self.t = None           # None: silent


def song(mon, r):
    music = _mods()
    d = kit.fresh_dir("midi")
    n = r.choice([1, 1, 1, 2])
    lines = ["import music", "gr := ExternEngroup()",
             'gr.select(Enfilter().all_players().has_tag("red"))']
    players = []
    for i in range(n):
        s = Song(r)
        a, src = margs(r)
        path = os.path.join(d, "m%d.mid" % i)
        with open(path, "wb") as f:
            f.write(s.data())
        lines.append("const m%d = %s" % (i, call(r, path, src)))
        notes, length = s.play(a, music.ID2INSTRUMENT)
        if length[1] > 400:
            # keep the history short
            mon.count("discarded")
            return
        players.append(Player(notes, length, a))
        mon.count("songs")
        mon.count("tempo changes", sum(
            k == "tempo" for ev in s.tracks for _, k, _v in ev))
        mon.count("chords", sum(
            a[1] == b[1] == "on" and a[0] == b[0] for ev in s.tracks
            for a, b in zip(ev, ev[1:])))
        mon.count("overridden instruments", sum(
            x[1].startswith("my.") for x in notes))
    lines += ["at := 0"]
    for i in range(n):
        lines += ["interface play%d:" % i,
                  r.choice(["    m%d.play()", "    m%d.play(0)",
                            "    m%d.play(timer=0)"]) % i,
                  "interface stop%d:" % i, "    m%d.stop()" % i,
                  "interface at%d:" % i,
                  "    m%d.play(at)" % i,
                  "interface len%d:" % i,
                  '    scb("len%d", "obs") = m%d.LENGTH' % (i, i)]
    src = "\n".join(lines) + "\n"
    for t in (-7, -2, -1, 1, 2, 5, 13, 40):
        src += "interface set%s%d:\n    at = %d\n" % (
            "m" if t < 0 else "p", abs(t), t)
    cfg = r.choice([{}, {}, {}, {"optimizer": False},
                    {"debug_comments": True},
                    {"max_inline_file_size": r.choice([0, 1, 3, 200])}])
    res = kit.compile_src(src, **cfg)
    if not res.ok:
        mon.violation("song:" + res.kind, "a readable MIDI file is not "
                      "accepted: %s" % res.message, source=src,
                      tb=res.tb or "")
        return
    v = vmmod.VM(res.functions(), players=3, user_objectives=("obs",),
                 budget=20000000)
    for e in v.entities[:2]:
        e.tags.add("red")
    heard = []

    def on_raw(vm, ctx, line):
        if not line.startswith("playsound "):
            return False
        w = line.split(" ")
        if len(w) != 8 or w[2] != "@s" or w[3:6] != ["~"] * 3 \
                or ctx.ent is None or ctx.ent.type != "player":
            heard.append(("odd", line, ctx.ent))
            return True
        if tuple(ctx.pos) != tuple(ctx.ent.pos):
            heard.append(("off", line, ctx.pos))
        heard.append((ctx.ent.uid, w[1], float(w[6]), float(w[7])))
        return True
    v.on_raw = on_raw
    ticks = res.tick_paths()
    v.run_function("main")
    lens = []
    for i, p in enumerate(players):
        v.run_function("len%d" % i)
        x = v.scores.get(("len%d" % i, "obs"))
        lens.append(x)
        lo, hi = p.length
        if not math.floor(lo + Fraction(1, 2)) - 1 <= x \
                <= math.ceil(hi + Fraction(1, 2)):
            mon.violation("song:length", "LENGTH is %s; the file lasts %.2f "
                          "game ticks" % (x, lo), source=src)
            return
    uids = [e.uid for e in v.entities]

    def step(history):
        """one tick: compares what is heard with the model"""
        del heard[:]
        v.do_tick(ticks)
        got = list(heard)
        for i, p in enumerate(players):
            if p.t is None:
                continue
            who = uids[:2] if p.a["listener"] else uids
            if p.t > lens[i]:
                p.t = None
                continue
            for nt in p.notes:
                k = nt[4]
                if k != p.t:
                    continue
                for u in who:
                    for g in got:
                        if g[0] == u and g[1] == nt[1] \
                                and abs(g[2] - nt[2]) <= .0051 \
                                and abs(g[3] - nt[3]) <= .00051:
                            got.remove(g)
                            mon.count("sounds heard")
                            break
                    else:
                        return ("music %d at %d: player %s does not hear %s "
                                "%.2f %.3f (due at game tick %.3f)"
                                % (i, p.t, u, nt[1], nt[2], nt[3], nt[0]))
            p.t += 1
            if p.a["looping"] and p.t > lens[i]:
                p.t = p.wrap
                mon.count("repetitions")
        if got:
            return "unexpected sound %r (players at %s)" % (
                got[0], [p.t for p in players])

    # settle, by one plain run, the ticks of the notes that lie exactly
    # between two ticks, and the length of the pause
    history = []
    for i, p in enumerate(players):
        why = calibrate(v, ticks, heard, i, p, lens[i], uids)
        if why:
            mon.violation("song:notes", why, source=src, config=cfg,
                          args=p.a)
            return
    for f in range(3):
        del heard[:]
        v.do_tick(ticks)
        if heard:
            mon.violation("song:stop", "sound %r after stop" % (heard[0],),
                          source=src)
            return
    at = 0
    for _ in range(r.randint(8, 30)):
        x = r.random()
        i = r.randrange(n)
        p = players[i]
        if x < .25:
            k = r.choice([1, 2, 5, 20, lens[i] + 2])
            acts = ["tick"] * k
        elif x < .5:
            acts = ["play%d" % i]
        elif x < .7:
            acts = ["at%d" % i]
        elif x < .82:
            acts = ["stop%d" % i]
        elif x < .9:
            acts = ["set" + r.choice(["m7", "m2", "m1", "p1", "p2", "p5",
                                      "p13", "p40"])]
        elif x < .95:
            acts = ["main"]
        else:
            acts = ["tick"] * 3
        for act in acts:
            history.append(act)
            if act == "tick":
                why = step(history)
                if why:
                    mon.violation("song:history", why, source=src,
                                  config=cfg, history=history)
                    return
                continue
            if act.startswith("at") and at == lens[i] + 1:
                # (right behind the end: ended, or about to be repeated)
                history.pop()
                continue
            v.run_function(act)
            if act.startswith("play"):
                p.t = 0
                mon.count("restarts")
            elif act.startswith("at"):
                p.t = at if at <= lens[i] else None
                mon.count("restarts")
            elif act.startswith("stop"):
                p.t = None
            elif act.startswith("set"):
                at = int(act[4:]) * (-1 if act[3] == "m" else 1)
            else:
                at = 0
                for q in players:
                    q.t = None
    if n == 1 and cfg.get("optimizer") is False:
        # "how many commands there will be in 1 file": files are cut between
        # game ticks, so one may exceed that by the notes of its last tick
        p = players[0]
        per = max([sum(b[4] == a[4] for b in p.notes) for a in p.notes],
                  default=0)
        for name, text in res.functions().items():
            k = text.count(" run playsound ")
            mon.count("chunks", k > 0)
            if k >= p.a["chunk_size"] + per:
                mon.violation("song:chunk", "%s holds %d commands, "
                              "chunk_size is %d and no game tick has more "
                              "than %d notes" % (name, k, p.a["chunk_size"],
                                                 per), source=src)
                return
    if v.faults:
        mon.violation("song:fault", "%s: %s" % v.faults[0], source=src,
                      history=history)
        return
    mon.evaluated()
    mon.nontrivial(src.split("\n", 3)[3], history,
                   [p.notes for p in players])
    mon.sample(src)


def calibrate(v, ticks, heard, i, p, length, uids):
    """Plays music i once; matches what one player hears with the notes in
    order of time and fixes each note's tick; then the pause if it loops."""
    v.run_function("play%d" % i)
    log = []
    for t in range(length + 1):
        del heard[:]
        v.do_tick(ticks)
        for g in heard:
            if g[0] in ("odd", "off"):
                return "odd command %r" % (g,)
            if g[0] == uids[0]:
                log.append((t, g[1:]))
    left = list(log)
    fixed = []
    for nt in sorted(p.notes, key=lambda x: x[0]):
        for x in left:
            t, g = x
            if g[0] == nt[1] and abs(g[1] - nt[2]) <= .0051 \
                    and abs(g[2] - nt[3]) <= .00051 \
                    and abs(t - nt[0]) <= Fraction(1, 2) + Fraction(1, 10**6):
                left.remove(x)
                fixed.append(nt + (t,))
                break
        else:
            return ("the note due at game tick %.3f (%s, volume %.2f, pitch "
                    "%.3f) is not played then; played: %r"
                    % (float(nt[0]), nt[1], nt[2], nt[3], log[:40]))
    if left:
        return "sounds that are not in the file: %r" % left[:5]
    p.notes = fixed
    p.wrap = None
    if p.a["looping"] and fixed:
        first = min(x[4] for x in fixed)
        for k in range(1, p.a["loop_interval"] + first + 5):
            del heard[:]
            v.do_tick(ticks)
            if heard:
                # first notes of the repetition, k ticks after the last one
                p.wrap = first - k + 1
                break
        if p.wrap is None or \
                -p.wrap not in (p.a["loop_interval"],
                                p.a["loop_interval"] - 1):
            return ("the music repeats %s ticks after its end, not %d"
                    % (p.wrap if p.wrap is None else -p.wrap,
                       p.a["loop_interval"]))
    elif p.a["looping"]:
        p.wrap = -p.a["loop_interval"]
    v.run_function("stop%d" % i)


def bad(mon, r):
    """bad files and arguments are refused, and located"""
    _mods()
    d = kit.fresh_dir("midi")
    s = Song(r)
    good = s.data()
    path = os.path.join(d, "m.mid")
    kind = r.choice(["missing", "dir", "text", "empty", "cut", "type2",
                     "arg", "arg", "arg"])
    extra = ""
    if kind == "dir":
        os.mkdir(path)
    elif kind != "missing":
        data = {"text": b"hello world, this is no music",
                "empty": b"",
                "cut": good[:r.randrange(5, len(good))],
                "type2": good[:8] + b"\0\2" + good[10:],
                "arg": good}[kind]
        with open(path, "wb") as f:
            f.write(data)
    if kind == "arg":
        extra = ", " + r.choice([
            "speed=0", "speed=0.0", "speed=-1.5", "volume=0", "volume=-1",
            "channel_volume={1: -0.5}", "channel_volume={16: 1.0}",
            "channel_volume={-1: 1.0}", "instrument={128: \"a\"}",
            "instrument={-1: \"a\"}", "chunk_size=0", "chunk_size=-5",
            "speed=\"1\"", "looping=1", "listener=\"@a\"",
            "instrument={1: 2}", "note_offset=1.5", "nothing=1",
            "channel_volume={1, 2}"])
    src = "import music\n\nconst m = music.Music(\"%s\"%s)\nm.play()\n" % (
        path, extra)
    x = kit.compile_src(src)
    if x.kind == "crash":
        mon.violation("bad:crash:" + kind, "%s crashes the compiler: %s"
                      % (extra or kind, x.message), source=src, tb=x.tb)
        return
    if x.ok:
        mon.violation("bad:accepted:" + kind, "%s is accepted"
                      % (extra or kind), source=src)
        return
    loc = x.exc.location
    if loc.linecol is None or loc.linecol[0] != 3 \
            or os.path.basename(str(loc.file)) != "main.aca":
        mon.violation("bad:place:" + kind, "%s is reported at %r"
                      % (extra or kind, x.message), source=src)
        return
    mon.evaluated()
    mon.count("refused")
    mon.nontrivial(kind, extra, good)
    mon.sample(src + x.message)
