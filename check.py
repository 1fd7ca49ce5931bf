#!/usr/bin/env python3
"""Decides one property:  check.py ID quick|thorough   |   check.py ID replay FILE   |   check.py --setup
Builds the instrumented flavours from the working tree, runs the monitored workload in parallel processes, judges what the
monitors and sanitizers reported, and writes evidence/ID.json. Exit 0: held; 1: violated (VIOLATION line); 2: no verdict."""
import array, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vplib import build, info

VERIF = build.VERIF
SHARDS = 8
T0 = time.time()

class NoVerdict(Exception):
    pass

# The code under test may do anything to the paths it is given, so it runs as a user that owns nothing but the scratch directory.
NOBODY = 65534
def contained():
    return {"user": NOBODY, "group": NOBODY, "extra_groups": [], "umask": 0o022} if os.geteuid() == 0 else {}

def say(s):
    print(s); sys.stdout.flush()

# ------------------------------------------------------------------ processes
class Proc:
    """One monitored process; `cur` is the shared page (case being run, cases done)."""
    def __init__(self, name, argv, env, work, out=None, cur=None):
        self.name, self.argv, self.work, self.out, self.cur = name, argv, work, out, cur
        self.san = os.path.join(work, name + ".san")
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "HOME": work}
        e.update({k: v.replace("@LOG@", self.san) for k, v in env.items()})
        self.env = e
        self.rc = None; self.stalled = self.cut = False; self.last = None; self.last_change = time.time()
    def renew(self):
        self.rc = None; self.stalled = self.cut = False
        return self
    def start(self):
        for f in [self.out, self.cur] + glob.glob(self.san + ".*"):
            if f and os.path.exists(f):
                os.unlink(f)
        self.err = open(os.path.join(self.work, self.name + ".err"), "wb")
        self.started = self.last_change = time.time()
        self.p = subprocess.Popen(self.argv, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=self.env, cwd=self.work, start_new_session=True, **contained())
    def progress(self):
        try:
            with open(self.cur, "rb") as f:
                return struct.unpack("<QQQ", f.read(24))
        except (OSError, TypeError, struct.error):
            return None
    def poll(self, stall, limit):
        if self.p.poll() is not None:
            self.rc = self.p.returncode
        else:
            now, pr = time.time(), self.progress()
            if pr != self.last:
                self.last, self.last_change = pr, now
            if (self.cur and now - self.last_change > stall) or now - self.started > limit:
                self.stalled = True
                self.kill(); self.rc = self.p.wait()
        return self.rc is not None
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
    def report(self):
        """Sanitizer reports of the process."""
        t = ""
        for f in sorted(glob.glob(self.san + ".*")):
            with open(f, "rb") as h:
                t += h.read(200000).decode("utf-8", "replace")
        return "\n".join(l for l in t.splitlines() if "WARNING: AddressSanitizer failed to allocate" not in l and "WARNING: MemorySanitizer failed to allocate" not in l and "WARNING: ThreadSanitizer failed to allocate" not in l)
    def stderr_head(self, n=1500):
        try:
            with open(os.path.join(self.work, self.name + ".err"), "rb") as h:
                return h.read(n).decode("utf-8", "replace")
        except OSError:
            return ""

def run_all(procs, stall, limit, stop_when=None):
    """Runs the processes; once stop_when(finished process) holds the others get five more seconds."""
    end = None
    todo, running = list(procs), []
    width = max(2, os.cpu_count() or 2)
    try:
        while todo or running:
            while todo and len(running) < width:
                p = todo.pop(0); p.start(); running.append(p)
            done = [p for p in running if p.poll(stall, limit)]
            running = [p for p in running if p not in done]
            if stop_when and end is None and any(stop_when(p) for p in done):
                end = time.time() + 5
            if end is not None and time.time() > end:
                for p in running + todo:
                    p.cut = True
                break
            time.sleep(0.02)
    finally:
        for p in running:
            p.kill()

SAN_ERR = re.compile(r"ERROR: \w+Sanitizer|runtime error:|WARNING: MemorySanitizer: |WARNING: ThreadSanitizer: ")

def digest_report(t):
    """The telling lines of a sanitizer report."""
    keep = [l.strip() for l in t.splitlines() if SAN_ERR.search(l) or re.match(r"\s*#\d+ ", l) or "SUMMARY" in l]
    return " | ".join(keep[:14])[:1800]

# ------------------------------------------------------------------ a property's run
class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        if contained():
            os.chown(self.work, NOBODY, NOBODY)
        self.counters, self.samples, self.viol, self.notes = {}, [], [], []
        self.distinct = set()
        self.evaluations = self.cases = 0
        self.edges, self.edge_map = (0, 0), []
        self.known = []
        self.jobs = []         # (description for replay, Proc)
    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)
    def secs(self):
        return float(os.environ.get("VP_SECS", "1200" if self.thorough else "420"))
    def asan_env(self, odd=0):
        return {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:handle_abort=1:detect_stack_use_after_return=%d:log_path=@LOG@" % (odd & 1),
                "UBSAN_OPTIONS": "print_stacktrace=1:log_path=@LOG@"}
    # -- building
    def products(self, want):
        try:
            b = build.Builder()
            try:
                self.bin = {}
                if self.prop == "C00": b.runner("ubsan")
                if "runner" in want: self.bin["runner"] = b.runner("ubsan" if self.prop in ("C01", "C15") else "asan")
                if "tools" in want: self.bin["iffpp"], self.bin["iffjoin"] = b.tools("asan")
                if "tsan" in want: self.bin["tsan"] = b.tsan()
                if "ids" in want: self.bin["ids"] = b.ids()
                if "endian" in want:
                    try: self.bin["endian"] = b.endian()
                    except build.BuildError:    # the tree builds, but not as for another host: nothing to observe there
                        self.counters["big_endian_build_failed"] = 1
                if "msan" in want: self.bin["msan"] = b.msan()
                if "plain" in want: self.bin["plain"] = b.plain_driver()
                for k in self.bin:      # where the unprivileged user can reach them
                    own = os.path.join(self.work, "bin-" + k)
                    shutil.copyfile(self.bin[k], own); os.chmod(own, 0o755)
                    self.bin[k] = own
                build.prune(); build.prune_objs()
            finally:
                b.close()
        except build.BuildError as e:
            raise NoVerdict("the working tree or the harness does not build:\n" + str(e))
    # -- process makers
    def own_dir(self, d):
        os.makedirs(d, exist_ok=True)
        if contained():
            os.chown(d, NOBODY, NOBODY)
    def runner(self, name, shard, shards, extra=(), prop=None, odd=0):
        scratch = os.path.join(self.work, "s-" + name); self.own_dir(scratch)
        out, cur = os.path.join(self.work, name + ".json"), os.path.join(self.work, name + ".cur")
        a = [self.bin["runner"], "--prop", prop or self.prop, "--seed", str(self.seed), "--shard", str(shard), "--shards", str(shards), "--scratch", scratch, "--out", out, "--cur", cur, "--secs", str(self.secs())]
        if self.thorough: a.append("--thorough")
        if "iffpp" in self.bin: a += ["--iffpp", self.bin["iffpp"], "--iffjoin", self.bin["iffjoin"]]
        return Proc(name, a + list(extra), self.asan_env(odd), self.work, out, cur)
    # -- absorbing results
    def absorb(self, p, what):
        with open(p.out) as f:
            j = json.load(f)
        self.evaluations += j["evaluations"]; self.cases += j["cases"]
        m = j.get("edges_map", "")
        self.edge_map = [a | (b == "1") for a, b in zip(self.edge_map or [False] * len(m), m)] if m else self.edge_map
        self.edges = (sum(self.edge_map), len(self.edge_map))
        for k, v in j["counters"].items():
            if k != "violations":
                self.counters[k] = max(self.counters.get(k, 0), v) if k.startswith("max_") else self.counters.get(k, 0) + v
        for s in j["samples"]:
            if len(self.samples) < 6:
                self.samples.append(s)
        for v in j["violations"]:
            self.violation(v["key"], v["msg"], dict(what, idx=v["idx"]), v.get("witness", ""))
        if os.path.exists(p.out + ".distinct"):
            a = array.array("Q")
            with open(p.out + ".distinct", "rb") as f:
                a.frombytes(f.read())
            self.distinct.update(a)
        return j
    def violation(self, key, msg, how, witness=""):
        self.viol.append({"key": key, "msg": msg, "how": how, "witness": witness})
    def judge_runner(self, p, what):
        """A runner process has ended: absorb its results or work out why it died."""
        if p.rc == 0 and os.path.exists(p.out):
            j = self.absorb(p, what)
            rep = p.report()
            if SAN_ERR.search(rep):
                self.violation("sanitizer", digest_report(rep), what)
            return j
        rep = p.report()
        if p.rc == 3:
            raise NoVerdict("harness failure in %s: %s" % (p.name, p.stderr_head()))
        at = (p.progress() or (2**64 - 1, 0, 0))[0]
        if at >= 2**63:
            raise NoVerdict("%s ended with status %s before its first case: %s %s" % (p.name, p.rc, rep[:1500], p.stderr_head()))
        q = self.runner(p.name + "-again", 0, 1, ["--only", str(at)], prop=what.get("runner"), odd=what.get("odd", 0))
        q.argv += list(what.get("extra", []))
        run_all([q], 100, 200)
        died = q.rc != 0 or not os.path.exists(q.out)
        if not died:
            self.absorb(q, what)
        if SAN_ERR.search(rep):
            self.violation("crash", "case %d: %s" % (at, digest_report(rep)), dict(what, idx=at), q.report()[:6000])
        elif p.stalled and died and q.stalled:
            self.violation("hang", "case %d does not end (also when run alone)" % at, dict(what, idx=at))
        elif not p.stalled and died and not q.stalled:
            self.violation("crash", "case %d ends the process with status %s: %s" % (at, q.rc, digest_report(q.report())), dict(what, idx=at), q.report()[:6000])
        elif not p.stalled and p.rc not in (3, -9, -15):
            # it ended by itself: damage done by earlier cases shows only in the whole shard's history
            self.violation("crash", "case %d ends the process with status %s after the cases before it (run alone it does not): %s" % (at, p.rc, p.stderr_head(600)), dict(what, idx=at, shard=what.get("shard")))
        else:
            raise NoVerdict("%s was lost at case %d (status %s, stalled %s) and the case alone did not show why" % (p.name, at, p.rc, p.stalled))
    # -- the parts of a check
    def shards(self):
        ps = [(self.runner("shard%d" % s, s, SHARDS, odd=s & 1), {"mode": "runner", "odd": s & 1}) for s in range(SHARDS)]
        def hung(p):
            try:
                with open(p.out) as f:
                    return '"status":"hang"' in f.read(100)
            except OSError:
                return False
        run_all([p for p, _ in ps], 150, self.secs() + 300, hung)
        for p, w in ps:
            if not p.cut:
                self.judge_runner(p, w)
    def deep(self):
        """Nesting beyond what a stack can hold: the known limit of the recursive reader."""
        p = self.runner("deep", 0, 1, prop="C01DEEP")
        run_all([p], 150, 300)
        rep = p.report()
        self.counters["deep_nesting_probes"] = 1
        if p.rc == 0 and os.path.exists(p.out):
            self.counters["deep_nesting_survived"] = 1
            for v in json.load(open(p.out))["violations"]:
                self.violation("deep-" + v["key"], v["msg"], {"mode": "deep"})
        elif "stack-overflow" in rep:
            self.violation("deep-nesting-stack-overflow", "400000 nested FORMs overflow the stack: " + digest_report(rep), {"mode": "deep"})
        elif p.stalled or p.rc == 3 or p.rc == -9:
            raise NoVerdict("the deep nesting probe gave no answer (%s)" % p.rc)
        else:
            self.violation("deep-crash", "400000 nested FORMs: " + digest_report(rep), {"mode": "deep"})
    def cdriver(self, only=None):
        """Definedness of everything the library hands out, under MemorySanitizer (and valgrind in thorough runs)."""
        n = 8 if self.thorough else 4
        dumps = []
        for i in range(n):
            p = self.runner("dump%d" % i, i, n, ["--cases", str(24000 if self.thorough else 8000)], prop="C01DUMP")
            dumps.append(p)
        run_all(dumps, 150, 400)
        ps = []
        for i, d in enumerate(dumps):
            if d.rc != 0:
                raise NoVerdict("could not make the inputs for MemorySanitizer (%s)" % d.rc)
            inp = os.path.join(self.work, "s-dump%d" % i, "inputs")
            rep = os.path.join(self.work, "msan%d.rep" % i)
            ps.append((Proc("msan%d" % i, [self.bin["msan"], inp, rep, str(self.seed * 100 + i)], {"MSAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=2:log_path=@LOG@"}, self.work, rep), "MemorySanitizer", "msan"))
            if self.thorough:
                rep = os.path.join(self.work, "vg%d.rep" % i)
                ps.append((Proc("vg%d" % i, ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect,possible", "--log-file=" + os.path.join(self.work, "vg%d.san.1" % i), self.bin["plain"], inp, rep, str(self.seed * 100 + i)], {}, self.work, rep), "valgrind", "vg"))
        run_all([p for p, _, _ in ps], 1e9, 1500 if self.thorough else 240)
        for p, what, tag in ps:
            rep = p.report()
            if p.rc == 0 and os.path.exists(p.out):
                for k, v in json.load(open(p.out)).items():
                    self.counters[tag + "_" + k] = self.counters.get(tag + "_" + k, 0) + v
                self.evaluations += json.load(open(p.out))["inputs"]
            elif p.stalled or p.rc in (3, -9):
                raise NoVerdict("%s gave no answer (%s)" % (p.name, p.rc))
            else:
                self.violation(tag, "%s: %s" % (what, digest_report(rep) or rep[:1500] or "status %s" % p.rc), {"mode": "cdriver"})
    def threads(self):
        if self.thorough:
            plan = [(k, 20000) for k in (2, 3, 4, 5, 6, 8, 8, 8)]
        else:
            plan = [(k, 500) for k in (8, 2, 3, 8, 4, 8, 6, 8)]
        ps, secs = [], self.secs() if self.thorough else 150
        for i, (k, rounds) in enumerate(plan):
            scratch = os.path.join(self.work, "s-t%d" % i); self.own_dir(scratch)
            out = os.path.join(self.work, "t%d.json" % i)
            seed = self.seed * 1000 + i
            ps.append((Proc("t%d" % i, [self.bin["tsan"], "--seed", str(seed), "--rounds", str(rounds), "--secs", str(secs), "--threads", str(k), "--scratch", scratch, "--out", out],
                            {"TSAN_OPTIONS": "halt_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=1:exitcode=66:log_path=@LOG@"}, self.work, out), {"mode": "threads", "tseed": seed, "threads": k, "rounds": rounds}))
        run_all([p for p, _ in ps], 1e9, secs + 100, lambda p: bool(SAN_ERR.search(p.report())))
        for p, w in ps:
            if not p.cut:
                self.judge_threads(p, w)
    def judge_threads(self, p, w):
        rep = p.report()
        if SAN_ERR.search(rep):
            self.violation("data-race" if "data race" in rep else "crash", digest_report(rep), w, rep[:6000])
            if os.path.exists(p.out): self.absorb(p, w)
        elif p.rc == 0 and os.path.exists(p.out):
            self.absorb(p, w)
        elif p.stalled:     # the rounds are short: does one of them never end?
            if w.get("again") or self.viol:
                self.violation("hang", "%d threads: a round does not end (twice)" % w["threads"], w)
                return
            w["again"] = 1
            run_all([p.renew()], 1e9, (self.secs() if self.thorough else 150) + 100)
            self.judge_threads(p, w)
        elif p.rc == 3 or p.rc == -9:
            raise NoVerdict("thread run %s: status %s" % (p.name, p.rc))
        else:
            self.violation("crash", "status %s: %s" % (p.rc, p.stderr_head()), w)
    def all_ids(self):
        ps = []
        for s in range(SHARDS):
            out = os.path.join(self.work, "ids%d.json" % s)
            ps.append(Proc("ids%d" % s, [self.bin["ids"], str(s), str(SHARDS), out], {}, self.work, out))
        run_all(ps, 1e9, 1500 if self.thorough else 600)
        for p in ps:
            if p.rc == 0 and os.path.exists(p.out):
                self.absorb(p, {"mode": "ids"})
            elif p.stalled or p.rc in (3, -9):
                raise NoVerdict("the enumeration of identifiers gave no answer (%s)" % p.rc)
            else:
                self.violation("crash", "enumerating identifiers: status %s %s" % (p.rc, p.stderr_head()), {"mode": "ids"})
    def big_endian(self):
        """The primitive transfers of the library as configured for big-endian hosts."""
        out = os.path.join(self.work, "endian.json")
        p = Proc("endian", [self.bin["endian"], str(self.seed), str(20000000 if self.thorough else 2000000), out], {}, self.work, out)
        run_all([p], 1e9, 300)
        if p.rc == 0 and os.path.exists(p.out):
            self.absorb(p, {"mode": "endian"})
        elif p.stalled or p.rc in (3, -9):
            raise NoVerdict("the big-endian build gave no answer (%s)" % p.rc)
        else:
            self.violation("crash", "built for big-endian hosts: status %s %s" % (p.rc, p.stderr_head()), {"mode": "endian"})
    def everything(self):
        pr = self.prop
        if pr == "C21":
            self.products(["tsan"]); self.threads(); return
        want = ["runner"]
        if pr in ("C18", "C19"): want.append("tools")
        if pr == "C01": want += ["msan", "plain"]
        if pr == "C24": want.append("ids")
        if pr == "C15": want.append("endian")
        self.products(want)
        self.shards()
        if "endian" in self.bin: self.big_endian()
        if pr == "C01" and not self.viol: self.deep(); self.cdriver()     # they would run into what was found, but without a step limit
        if pr == "C24": self.all_ids()

# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out

def evidence(r, listed, new):
    i = info.INFO[r.prop]
    cov = {"evaluations": r.evaluations, "distinct_nontrivial": len(r.distinct), "rule": i["rule"], "samples": r.samples or ["(none)"],
           "cases": r.cases, "observed": dict(sorted(r.counters.items())), "library_edges_hit": r.edges[0], "library_edges_total": r.edges[1]}
    if r.prop == "C24":
        cov["exhaustive"] = not new and r.counters.get("values_judged_exhaustively", 0) >= 2**32
    ev = {"property": r.prop, "tier": r.tier, "seed": r.seed, "level": i["level"], "coverage": cov, "assumptions": info.COMMON + i.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    if listed:
        ev["known_findings_seen"] = sorted(listed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (r.prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")
    os.rename(tmp, os.path.join(VERIF, "evidence", r.prop + ".json"))

def finish(r):
    known = known_findings(r.prop)
    new, listed = {}, {}
    for v in r.viol:
        (listed if v["key"] in known else new).setdefault(v["key"], []).append(v)
    for k in listed:
        say("KNOWN-FINDING: property=%s %s" % (r.prop, known[k]))
    evidence(r, listed, [v for k in new for v in new[k]])
    if new:
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        for n, (k, vs) in enumerate(list(new.items())[:8]):
            path = os.path.join(d, "%s-%s-%d.json" % (r.prop, re.sub(r"[^\w.-]", "_", k)[:50], r.seed))
            with open(path, "w") as f:
                json.dump({"property": r.prop, "tier": r.tier, "seed": r.seed, "key": k, "seen": len(vs), "message": vs[0]["msg"], "how": vs[0]["how"], "witness": vs[0]["witness"]}, f, indent=1)
            say("VIOLATION property=%s replay=%s" % (r.prop, path))
            say("  [%s] %s" % (k, vs[0]["msg"][:1500]))
        return 1
    if r.evaluations == 0 or not r.distinct:
        raise NoVerdict("nothing was observed")
    say("%s: %s, %d evaluations, %d distinct, %d/%d library edges, %.1f s" % (r.prop, r.tier, r.evaluations, len(r.distinct), r.edges[0], r.edges[1], time.time() - T0))
    return 0

def replay(prop, path):
    with open(path) as f:
        j = json.load(f)
    r = Run(prop, j["tier"], j["seed"])
    try:
        h = j["how"]
        if h["mode"] == "runner":
            r.products(["runner"] + (["tools"] if prop in ("C18", "C19") else []))
            p = r.runner("replay", 0, 1, ["--only", str(h["idx"])], odd=h.get("odd", 0))
            run_all([p], 150, 300); r.judge_runner(p, h)
        elif h["mode"] == "threads":
            r.products(["tsan"])
            out = os.path.join(r.work, "t.json"); s = os.path.join(r.work, "s"); os.makedirs(s)
            p = Proc("t", [r.bin["tsan"], "--seed", str(h["tseed"]), "--rounds", str(h["rounds"]), "--threads", str(h["threads"]), "--scratch", s, "--out", out], {"TSAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=1:exitcode=66:log_path=@LOG@"}, r.work, out)
            run_all([p], 1e9, 900); r.judge_threads(p, h)
        elif h["mode"] == "ids":
            r.products(["ids"]); r.all_ids()
        elif h["mode"] == "endian":
            r.products(["endian"]); r.big_endian()
        elif h["mode"] == "deep":
            r.products(["runner"]); r.deep()
        else:
            r.products(["runner", "msan", "plain"]); r.cdriver()
        for v in r.viol:
            say("VIOLATION property=%s replay=%s" % (prop, path)); say("  [%s] %s" % (v["key"], v["msg"])); say(v["witness"][:4000])
        return 1 if r.viol else 0
    finally:
        r.cleanup()

def main():
    if sys.argv[1:] == ["--setup"]:
        r = Run("C00", "quick", 1)
        try:
            r.products(["runner", "tools", "tsan", "ids", "msan", "plain"])
        finally:
            r.cleanup()
        say("built in %.1f s" % (time.time() - T0))
        return 0
    if len(sys.argv) < 3 or sys.argv[1] not in info.INFO:
        say(__doc__); return 2
    prop, tier = sys.argv[1], sys.argv[2]
    if tier == "replay":
        return replay(prop, sys.argv[3])
    if tier not in ("quick", "thorough"):
        say(__doc__); return 2
    r = Run(prop, tier, int(os.environ.get("VERIF_SEED") or "1"))
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        r.everything()
        return finish(r)
    except NoVerdict as e:
        if r.viol:      # something definite was seen before
            return finish(r)
        say("NO VERDICT: %s" % e)
        return 2
    finally:
        r.cleanup()

if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        say("NO VERDICT: %s" % e); sys.exit(2)
