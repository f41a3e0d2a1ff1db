"""Runs one check: spreads its cases over worker processes, gathers what the
monitors observed, writes the evidence file and the replay files, and decides
the exit code.

A check module (checks/cNN.py) provides
  PROPERTY  id
  RULE      text: what counts as one distinct non-trivial evaluation
  ASSUME    list of texts
  MIN       dict counter -> smallest total that still means "observed"
  cases(tier, seed) -> list of picklable cases (small tuples)
  run_case(case, mon) - runs the real compiler, reports to the monitor
"""
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

from . import kit

VERIF = kit.VERIF


class CaseTimeout(BaseException):
    pass


def sig_of(*parts):
    return hashlib.blake2b(repr(parts).encode("utf8", "surrogatepass"),
                           digest_size=8).hexdigest()


class Mon:
    """What the monitors of one case report to."""
    def __init__(self, case=None):
        self.case = case
        self.counts = Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []

    def count(self, name, n=1):
        self.counts[name] += n

    def evaluated(self, n=1):
        self.counts["evaluations"] += n

    def nontrivial(self, *sig):
        self.sigs.add(sig_of(*sig))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:1500])

    def violation(self, key, summary, **detail):
        """key: a stable name of the input / call site / history that fails,
        compared against the known-findings file."""
        self.violations.append((key, summary, detail))


def _alarm(signum, frame):
    raise CaseTimeout()


_mod = None


def _init(modname):
    global _mod
    import importlib
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    _mod = importlib.import_module(modname)


CASE_LIMIT = 60


def run_one(mod, case, limit=None):
    mon = Mon(case)
    limit = limit or getattr(mod, "CASE_LIMIT", CASE_LIMIT)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run_case(case, mon)
    except CaseTimeout:
        mon.violation("hang", "no answer within %d s for case %r"
                      % (limit, case), case=repr(case))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return mon


def _chunk(cases):
    out, fail = [], []
    for case in cases:
        try:
            mon = run_one(_mod, case)
        except BaseException:
            # (the other cases may still show what is wrong)
            fail.append((repr(case), traceback.format_exc()))
            continue
        out.append((case, mon.counts, mon.sigs, mon.samples,
                    mon.violations))
    return out, fail


def load_known():
    """KNOWN_FINDINGS.txt: lines
       finding: property=<id> key=<key> <what fails>
       fixed: property=<id> <commit> <what failed>"""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    w = line.split(None, 3)
                    prop = w[1].split("=", 1)[1]
                    key = w[2].split("=", 1)[1]
                    known[(prop, key)] = w[3] if len(w) > 3 else ""
    return known


def main(modname, argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--limit", type=int, default=0,
                    help="only that many cases")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    if a.replay:
        return replay(mod, a.replay)
    t0 = time.time()
    cases = list(mod.cases(a.tier, a.seed))
    if a.limit:
        cases = cases[:a.limit]
    budget = {"quick": 560, "thorough": 820}.get(a.tier, 560)
    budget = getattr(mod, "BUDGET", {}).get(a.tier, budget)
    jobs = a.jobs or min(8, os.cpu_count() or 8)
    counts, sigs, samples, viols = Counter(), set(), [], []
    done = 0
    failure = None
    failed = 0
    kit.load()      # import the compiler once, before forking
    ctx = multiprocessing.get_context("fork")
    # small chunks, interleaved, so that slow cases spread out
    size = max(1, min(8, len(cases) // (jobs * 12) or 1))
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    skipped = 0
    ex = ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init,
                             initargs=(modname,))
    try:
        pending = set()
        it = iter(chunks)
        exhausted = False
        from concurrent.futures import wait, FIRST_COMPLETED
        while True:
            while not exhausted and len(pending) < jobs * 3:
                if time.time() - t0 > budget:
                    exhausted = True
                    break
                try:
                    pending.add(ex.submit(_chunk, next(it)))
                except StopIteration:
                    exhausted = True
            if not pending:
                break
            fin, pending = wait(pending, return_when=FIRST_COMPLETED)
            for f in fin:
                out, fail = f.result()
                failed += len(fail)
                if fail and failure is None:
                    failure = fail[0]
                for case, c, s, smp, vs in out:
                    done += 1
                    counts.update(c)
                    sigs |= s
                    if len(samples) < 4:
                        samples.extend(smp)
                    for v in vs:
                        viols.append((case,) + v)
            if failed > 100 or len(viols) > 60:
                break
    except BrokenProcessPool as e:
        failure = ("?", "worker died: %s" % e)
    finally:
        for f in pending:
            f.cancel()
        if failed > 100 or len(viols) > 60:
            for p in list(getattr(ex, "_processes", {}).values()):
                p.terminate()
        ex.shutdown(wait=True)
    skipped = len(cases) - done
    if failure:
        print("INCONCLUSIVE: the check itself failed on case %s\n%s"
              % failure)
        if not viols:
            return 2
    post = getattr(mod, "post", None)
    if post and not failure:
        mon = Mon(("post",))
        post(mon, counts, a.tier)
        counts.update(mon.counts)
        for v in mon.violations:
            viols.append((("post",),) + v)
    known = load_known()
    new, old = [], {}
    for case, key, summary, detail in viols:
        if (prop, key) in known:
            old.setdefault(key, (case, summary))
        else:
            new.append((case, key, summary, detail))
    for (p, key), what in sorted(known.items()):
        if p == prop and key in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, what))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": counts.get("evaluations", 0),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:4],
            "cases_run": done, "cases_planned": len(cases),
            "observed": {k: v for k, v in sorted(counts.items())
                         if k != "evaluations"},
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
        "known_findings_seen": sorted(old),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s tier=%s seed=%d cases=%d/%d evaluations=%d distinct=%d "
          "wall=%.1fs" % (prop, a.tier, a.seed, done, len(cases),
                          counts.get("evaluations", 0), len(sigs), wall))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(
        counts.items()) if kv[0] != "evaluations"))
    if new:
        seen = set()
        for case, key, summary, detail in new:
            if key in seen and len(seen) < 1000:
                continue
            seen.add(key)
            if len(seen) > 12:
                break
            path = save_replay(prop, case, key, summary, detail)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s %s" % (key, summary[:600]))
        return 1
    if failure:
        return 2
    short = []
    if not skipped or a.limit == 0:
        for name, least in getattr(mod, "MIN", {}).items():
            if not a.limit and counts.get(name, 0) < least:
                short.append("%s=%d < %d" % (name, counts.get(name, 0),
                                             least))
    if short:
        print("INCONCLUSIVE: monitors observed too little: "
              + "; ".join(short))
        return 2
    print("OK property=%s held on everything explored" % prop)
    return 0


def save_replay(prop, case, key, summary, detail):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (
        "".join(c if c.isalnum() else "_" for c in key)[:40],
        sig_of(case, key, summary)))
    with open(path, "w") as f:
        json.dump({"property": prop, "case": case, "key": key,
                   "summary": summary,
                   "detail": {k: v if isinstance(v, (str, int, dict, list))
                              else repr(v) for k, v in detail.items()}},
                  f, indent=1, default=repr)
    return path


def _tuplify(x):
    return tuple(_tuplify(i) for i in x) if isinstance(x, list) else x


def replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    kit.load()
    case = _tuplify(d["case"])
    mon = run_one(mod, case)
    for key, summary, detail in mon.violations:
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        print("  key=%s %s" % (key, summary))
        for k, v in detail.items():
            print("--- %s\n%s" % (k, v))
    if not mon.violations:
        print("OK replayed without violation")
    return 1 if mon.violations else 0


def spread(seed, name, n):
    """n independent case seeds"""
    r = random.Random("%s/%s" % (seed, name))
    return [r.getrandbits(48) for _ in range(n)]
