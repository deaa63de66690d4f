"""Generated-input search: runs the facets of one property over several processes, each with its own Hypothesis
generator and its own process running the code under test; shrinks, confirms and records a failure; writes evidence."""
import hashlib, json, multiprocessing, multiprocessing.connection, os, signal, sys, tempfile, time, traceback, zlib
import client
from client import Worker, HarnessError, Hang, Crash, StartFailure

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_SHRINK_CALLS = 1200
MAX_SHRINK_S = 90
RACY_TRIES = 80
KNOWN = set()


class Violation(Exception):
    pass


class Discard(Exception):
    """the case is outside what the property speaks about"""


class _StopShrink(BaseException):
    pass


class _OutOfTime(BaseException):
    pass


class Facet:
    """One executable statement: `strategy()` generates cases, `check(w, case, rec)` raises Violation.
    `cases()` lists further cases that are always run (small exhaustive enumerations)."""
    def __init__(self, name, check, strategy=None, quick=0, thorough=None, cases=None, rule="", real=False, racy=False):
        self.name, self.check, self.strategy, self.cases = name, check, strategy, cases
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 12
        self.rule, self.real = rule, real
        self.racy = racy       # the outcome depends on how threads are scheduled: a failure may need many runs to come back


class Rec:
    """what a case was like, and deviations that are listed as known"""
    def __init__(self):
        self.nt = None
        self.labels = []
        self.knowns = []

    def nontrivial(self, yes=True):
        self.nt = bool(yes) or bool(self.nt)

    def label(self, *names):
        self.labels.extend(names)

    def known(self, fid, what):
        self.knowns.append((fid, what))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x, sort_keys=True)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


def same(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s%s" % (what, short(got), short(want), diff(got, want)))


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k, "<absent>") != b.get(k, "<absent>"):
                return diff(a.get(k, "<absent>"), b.get(k, "<absent>"), path + "." + str(k))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "[%d]" % i)
    return " (at %s: %s / %s)" % (path or "top", short(a, 120), short(b, 120))


class Runner:
    """one shard: runs cases of every facet on one worker"""
    def __init__(self, prop, seed, shard, shards, tier, deadline):
        self.prop, self.seed, self.shard, self.shards, self.tier = prop, seed, shard, shards, tier
        self.deadline = deadline
        self.workers = {}
        self.out = {"evaluations": 0, "discarded": 0, "nontrivial": set(), "labels": {}, "samples": [], "knowns": {},
                    "facets": {}, "inconclusive": [], "requests": 0}
        self.history = []      # every counted case, in order: up to the first failing one
        self.first = None      # the failing case before it was shrunk

    def worker(self, real):
        if real not in self.workers:
            self.workers[real] = Worker(real_cerberus=real)
        return self.workers[real]

    def evaluate(self, facet, case, count=True):
        """None, or the message of a violation"""
        rec = Rec()
        o = self.out
        if count:
            o["evaluations"] += 1
            self.history.append((facet.name, case))
        try:
            facet.check(self.worker(facet.real), case, rec)
            msg = None
        except Discard:
            if count:
                o["discarded"] += 1
            return None
        except Violation as e:
            msg = str(e)
        except (Hang, Crash) as e:
            msg = "%s; request %s" % (e, short(e.req, 300))
            raise _Fatal(facet, case, msg)
        except (HarnessError, StartFailure, Exception):
            sys.stderr.write("in facet %s, case %s\n" % (facet.name, short(case, 2000)))
            raise
        if count:
            f = o["facets"].setdefault(facet.name, {"cases": 0, "nontrivial": 0})
            f["cases"] += 1
            for l in rec.labels:
                k = facet.name + ":" + l
                o["labels"][k] = o["labels"].get(k, 0) + 1
            if rec.nt:
                h = hashlib.sha1((facet.name + canon(case)).encode()).digest()[:8]
                if h not in o["nontrivial"]:
                    o["nontrivial"].add(h)
                    f["nontrivial"] += 1
                    if f["nontrivial"] in (3, 17) and self.shard == 0:
                        c = canon(case)
                        o["samples"].append({"facet": facet.name, "case": case if len(c) < 900 else c[:900] + "..."})
        for fid, what in rec.knowns:
            if (self.prop, fid) not in KNOWN:
                msg = msg or what
            o["knowns"].setdefault(fid, what)
        return msg

    def run(self, facets):
        from hypothesis import given, settings, seed as hseed, Phase, HealthCheck, Verbosity
        for facet in facets:
            t0 = time.time()
            if facet.cases is not None:
                for i, case in enumerate(facet.cases()):
                    if i % self.shards == self.shard:
                        if time.time() > self.deadline:
                            self.out["inconclusive"].append(facet.name + ": out of time")
                            return None
                        msg = self.evaluate(facet, case)
                        if msg:
                            self.first = case
                            return facet, case, msg
            total = facet.quick if self.tier == "quick" else facet.thorough
            total = int(total * float(os.environ.get("VERIF_SCALE", "1")))
            n = total // self.shards + (1 if self.shard < total % self.shards else 0)
            if not n or facet.strategy is None:
                continue
            state = {"best": None, "calls": 0, "t": None}

            def body(case):
                if time.time() > self.deadline and state["best"] is None:
                    raise _OutOfTime()
                if state["best"] is not None:
                    state["calls"] += 1
                    if state["calls"] > MAX_SHRINK_CALLS or time.time() - state["t"] > MAX_SHRINK_S:
                        raise _StopShrink()
                msg = self.evaluate(facet, case, count=state["best"] is None)
                if msg:
                    size = len(canon(case))
                    if state["best"] is None:
                        self.first = case
                    if state["best"] is None or size <= state["best"][0]:
                        state["best"] = (size, case, msg)
                        state["t"] = state["t"] or time.time()
                    raise Violation("found")

            sd = zlib.crc32(("%s/%s/%s/%d" % (self.prop, facet.name, self.seed, self.shard)).encode())
            test = hseed(sd)(settings(
                max_examples=n, database=None, deadline=None, phases=(Phase.generate,) if facet.racy else (Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck), report_multiple_bugs=False, print_blob=False,
                verbosity=Verbosity.quiet)(given(facet.strategy())(body)))
            try:
                test()
            except Violation:
                pass
            except _StopShrink:
                pass
            except _OutOfTime:
                self.out["inconclusive"].append(facet.name + ": out of time")
                return None
            except BaseException:
                if state["best"] is None:
                    raise
            if state["best"] is not None:
                return facet, state["best"][1], state["best"][2]
            f = self.out["facets"].setdefault(facet.name, {"cases": 0, "nontrivial": 0})
            f["wall_s"] = round(time.time() - t0, 1)
        return None

    def kill(self):
        for w in self.workers.values():
            try:
                os.killpg(w.p.pid, signal.SIGKILL)
            except Exception:
                pass

    def close(self):
        for w in self.workers.values():
            self.out["requests"] += w.requests
            w.close()
        self.workers = {}


class _Fatal(BaseException):
    def __init__(self, facet, case, msg):
        self.facet, self.case, self.msg = facet, case, msg


def shard_main(conn, prop, facets, seed, shard, shards, tier, deadline):
    r = None

    def stop(*_):
        # no waiting here: the signal may have come in the middle of it
        try:
            if r is not None:
                r.kill()
        finally:
            os._exit(3)
    signal.signal(signal.SIGTERM, stop)
    KNOWN.update((k["property"], k["id"]) for k in known_findings()["known"])
    try:
        r = Runner(prop, seed, shard, shards, tier, deadline)
        for real in sorted({f.real for f in facets}):
            r.worker(real).start(wait=False)
        try:
            bad = r.run(facets)
        except _Fatal as e:
            bad = (e.facet, e.case, e.msg)
        r.close()
        out = r.out
        out["nontrivial"] = list(out["nontrivial"])
        if bad:
            conn.send(("violation", bad[0].name, bad[1], bad[2], r.history[-6000:], out, r.first))
        else:
            conn.send(("ok", out))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    finally:
        conn.close()


def fresh(prop, cases):
    """the message of the first violation when the cases are run in a new process, or None; cases: (facet, case)"""
    w = {False: None, True: None}
    try:
        msg = None
        for f, case in cases:
            if w[f.real] is None:
                w[f.real] = Worker(real_cerberus=f.real)
            rec = Rec()
            for _ in range(RACY_TRIES if f.racy else 1):
                try:
                    f.check(w[f.real], case, rec)
                except Discard:
                    pass
                except Violation as e:
                    msg = str(e)
                    break
                except (Hang, Crash) as e:
                    return str(e)
            msg = msg or next((t for i, t in rec.knowns if (prop, i) not in KNOWN), None)
        return msg
    finally:
        for x in w.values():
            if x is not None:
                x.close()


def confirm(prop, facets, name, case, history, first):
    """[(facet, case)...] that fails in a new process, with its message; or None.
    A failure that needs what earlier cases left behind in the process comes back with (part of) the history before it."""
    by = {f.name: f for f in facets}
    f = by[name]
    t0 = time.time()
    cands = [case] + ([first] if first is not None and first != case else [])
    for c in [case] + cands:
        msg = fresh(prop, [(f, c)])
        if msg:
            return [(name, c)], msg
    hist = [(by[n], c) for n, c in history if by[n].real == f.real]
    while hist and hist[-1][0] is f and hist[-1][1] in cands:
        hist.pop()
    k = 1
    while hist:
        for c in reversed(cands):
            seq = hist[-k:] + [(f, c)]
            msg = fresh(prop, seq)
            if msg:
                seq, msg = shorter(prop, seq, msg, t0 + 200)
                return [(g.name, x) for g, x in seq], msg
        if k >= len(hist) or time.time() - t0 > 250:
            break
        k *= 6
    return None


def shorter(prop, seq, msg, until):
    """drops what is not needed from the cases before the last one"""
    n = 2
    while len(seq) > 1 and time.time() < until:
        pre, last = seq[:-1], seq[-1:]
        size = -(-len(pre) // n)
        for i in range(0, len(pre), size):
            if time.time() > until:
                break
            cut = pre[:i] + pre[i + size:] + last
            m = fresh(prop, cut)
            if m:
                seq, msg, n = cut, m, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(2 * n, len(pre))
    return seq, msg


def evidence(prop, tier, seed, outs, facets, wall, violations, extra):
    tot = {"evaluations": 0, "discarded": 0, "requests": 0}
    nt, labels, samples, fc, inc = set(), {}, [], {}, []
    for o in outs:
        for k in tot:
            tot[k] += o[k]
        nt.update(o["nontrivial"])
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += o["samples"]
        inc += o["inconclusive"]
        for k, v in o["facets"].items():
            d = fc.setdefault(k, {"cases": 0, "nontrivial_per_process": 0})
            d["cases"] += v["cases"]
            d["nontrivial_per_process"] += v["nontrivial"]
    rules = "; ".join("%s: %s" % (f.name, f.rule) for f in facets)
    cov = {"evaluations": tot["evaluations"], "distinct_nontrivial": len(nt), "rule": rules, "samples": samples[:40],
           "discarded_as_unspecified": tot["discarded"], "requests_to_code_under_test": tot["requests"],
           "facets": fc, "labels": dict(sorted(labels.items())), "inconclusive": sorted(set(inc))}
    cov.update(extra)
    d = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["Jython 2.7.3 with a stand-in for the missing mmap module runs the code",
                         "the reference model in harness/ref.py states the format"],
         "wall_s": round(wall, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(d, fh, indent=1)
    os.replace(path + ".tmp", path)


def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def run_property(prop, facets, tier, seed):
    """a failure that cannot be reproduced (a busy machine) settles nothing: the search is done once more"""
    rc = search(prop, facets, tier, seed, {})
    if rc == UNREPRODUCED:
        sys.stderr.write("searching once more\n")
        rc = search(prop, facets, tier, seed, {"searched_again_after": LAST})
    return 2 if rc == UNREPRODUCED else rc


UNREPRODUCED = 3
LAST = []


def search(prop, facets, tier, seed, extra):
    t0 = time.time()
    KNOWN.update((k["property"], k["id"]) for k in known_findings()["known"])
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = tempfile.gettempdir() + "/verif_hyp_%d" % os.getpid()
    cpus = os.cpu_count() or 4
    shards = int(os.environ.get("VERIF_SHARDS", str(min(6, max(2, cpus - 1)) if tier == "quick" else min(8, cpus))))
    if "VERIF_JAVA_OPTS" not in os.environ:
        os.environ["VERIF_JAVA_OPTS"] = "-XX:TieredStopAtLevel=1" if tier == "quick" else "-XX:CICompilerCount=2"
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "3600"))
    ctx = multiprocessing.get_context("fork")
    procs = []
    import hypothesis, hypothesis.strategies  # before forking
    for i in range(shards):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=shard_main, args=(b, prop, facets, seed, i, shards, tier, t0 + budget))
        p.start()
        b.close()
        procs.append((p, a))
    outs, bad, errors = [], [], []
    pending = {a: p for p, a in procs}
    while pending and not bad:
        for a in multiprocessing.connection.wait(list(pending), timeout=5):
            p = pending.pop(a)
            try:
                m = a.recv()
            except EOFError:
                errors.append("a shard ended without a result")
                continue
            if m[0] == "ok":
                outs.append(m[1])
            elif m[0] == "violation":
                bad.append(m)
                outs.append(m[5])
            else:
                errors.append(m[1])
    for p, _ in procs:
        if p.is_alive() and bad:
            p.terminate()
    for p, _ in procs:
        p.join(20)
        if p.is_alive():
            p.kill()
            p.join(5)
    rc = 0
    viol = 0
    if bad:
        _, name, case, msg, history, _, first = bad[0]
        c = confirm(prop, facets, name, case, history, first)
        if c is None and {f.name: f for f in facets}[name].racy:
            c = [(name, case)], msg      # seen, and which threads run when is not ours to repeat
        if c is None:
            extra["unreproduced"] = [{"facet": name, "case": case, "message": msg}]
            sys.stderr.write("not reproduced in a new process: %s: %s\n" % (name, short(msg)))
            LAST.append({"facet": name, "case": short(case, 2000), "message": msg})
            rc = UNREPRODUCED
        else:
            seq, msg2 = c
            viol = 1
            os.makedirs(os.path.join(VERIF, "replay_out"), exist_ok=True)
            path = os.path.join(VERIF, "replay_out", "%s-%s.json" % (
                prop, hashlib.sha1(canon(seq).encode()).hexdigest()[:10]))
            with open(path, "w") as fh:
                json.dump({"property": prop, "message": msg2, "cases": seq}, fh, indent=1)
            extra["violation"] = {"facet": name, "message": msg2, "replay": path}
            print("%s/%s: %s" % (prop, name, msg2))
            print("case: %s" % short(case, 1500))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
    evidence(prop, tier, seed, outs, facets, time.time() - t0, viol, extra)
    kn = {}
    for o in outs:
        kn.update(o["knowns"])
    listed = {k["id"]: k for k in known_findings()["known"] if k["property"] == prop}
    for fid in sorted(listed):
        if fid in kn:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, listed[fid]["what"]))
    if errors and rc != 1:
        sys.stderr.write("\n".join(errors) + "\n")
        rc = 2
    n = sum(o["evaluations"] for o in outs)
    print("%s %s seed=%s: %d cases, %s, %.1f s" % (prop, tier, seed, n, "violated" if rc == 1 else "error" if rc else "held",
                                                 time.time() - t0))
    return rc


def replay(prop, facets, path):
    with open(path) as fh:
        d = json.load(fh)
    by = {f.name: f for f in facets}
    KNOWN.update((k["property"], k["id"]) for k in known_findings()["known"])
    msg = fresh(prop, [(by[n], c) for n, c in d["cases"]])
    if msg:
        print("%s: %s" % (prop, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s: replay holds" % prop)
    return 0
