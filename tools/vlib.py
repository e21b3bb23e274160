"""What every check shares: building the driver, running TLC, running scenarios
through the real code and having TLC judge the recorded traces."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as builder

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")


class CheckError(Exception):
    """The check itself failed: neither 'held' nor 'violated'."""


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.replay = replay


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.tmp = os.path.join(builder.OUT, "tmp", "%s.%d" % (prop, os.getpid()))
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.event_counts = [], [], {}
        self.violations, self.known, self.notes = [], [], []
        self.exe = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def driver(self):
        if self.exe is None:
            try:
                self.exe = builder.build()
            except RuntimeError as e:
                raise CheckError("build failed:\n%s" % e)
        return self.exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, args=(), timeout=800, heap="3g", workers="1", name=None):
        builder_java()
        name = name or "%s.%s" % (module, os.path.basename(cfg))
        meta = os.path.join(self.tmp, "meta." + name + "." + str(random.getrandbits(40)))
        os.makedirs(meta)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vt.FltOverrides",
               "-cp", JARS + ":" + os.path.join(builder.OUT, "java"), "tlc2.TLC",
               "-metadir", meta, "-workers", workers, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
        if self.thorough:
            timeout *= 6
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + name)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def model_check(self, module, cfg=None, workers="4", timeout=800, expect_actions=(), env=None, heap="6g"):
        """Exhaustive check of a specification; a failure is an error of the specification."""
        cfg = cfg or module + ".cfg"
        args = ["-coverage", "1"] if expect_actions else []
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, args=args, env=env, heap=heap)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m:
            i = max(0, out.find("Error:"))
            raise CheckError("the specification %s/%s does not satisfy its properties:\n%s" % (module, cfg, out[i:i + 4000]))
        for a in expect_actions:
            c = re.findall(r"<%s line[^>]*>: (\d+):(\d+)" % re.escape(a), out)
            if not c or max(int(x[1]) for x in c) == 0:
                raise CheckError("action %s of %s is never taken in %s" % (a, module, cfg))
        gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": os.path.basename(cfg), "distinct_states": dist, "states_generated": gen})
        return out

    def generate(self, module, cfg, num, depth, timeout=300, env=None, exhaustive=False):
        """Behaviours of a specification as JSON: the module appends each with CSVWrite to IOEnv.GENOUT."""
        f = os.path.join(self.tmp, "gen.%d.json" % random.getrandbits(40))
        e = {"GENOUT": f}
        e.update(env or {})
        args = [] if exhaustive else ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed * 7919 + 17)]
        rc, out = self.tlc(module, cfg, env=e, args=args, timeout=timeout)
        if not os.path.exists(f):
            raise CheckError("no behaviours generated by %s:\n%s" % (module, out[-3000:]))
        if rc != 0:
            raise CheckError("generating behaviours from %s failed:\n%s" % (module, out[-3000:]))
        seen, res = set(), []
        for l in open(f):
            l = l.strip()
            if l.startswith('"'):
                l = json.loads(l)
            if l and l not in seen:
                seen.add(l)
                res.append(json.loads(l))
        os.remove(f)
        return res

    # ----------------------------------------------------------- conformance
    def run_driver(self, scen, tag):
        sp, tp = os.path.join(self.tmp, tag + ".scen"), os.path.join(self.tmp, tag + ".trace")
        with open(sp, "w") as f:
            for s in scen:
                f.write(json.dumps(s) + "\n")
        r = subprocess.run([self.driver(), sp, tp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, VERIF_SCRATCH=self.tmp), timeout=850)
        if r.returncode:
            raise CheckError("driver failed: rc=%d %s" % (r.returncode, r.stdout[-2000:]))
        return tp

    def judge(self, module, cfg, trace, timeout=800):
        """(accepted, number of matched lines, tlc output)"""
        rc, out = self.tlc(module, cfg, env={"TRACE": trace}, timeout=timeout)
        m = re.search(r'<<"VT-REACHED", (\d+)>>', out)
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen = int(g.group(1)) if g else 0
        if rc == 0 and m:
            return True, int(m.group(1)) - 1, gen, out
        if m:
            return False, int(m.group(1)) - 1, gen, out
        if "VT-TRACE-LOADED" not in out or "Json.ndDeserialize" in out or "Parsing or semantic analysis failed" in out:
            raise CheckError("TLC failed on %s:\n%s" % (module, out[-4000:]))
        # an evaluation error: the trace holds something the specification gives no meaning to
        return False, None, gen, out

    def conform(self, module, scen, cfg=None, label=None, chunks=None, timeout=800, sample=True):
        """Runs every scenario through the real code and has TLC match the trace against the specification."""
        cfg = cfg or module + ".cfg"
        label = label or module
        self.driver()
        if not scen:
            raise CheckError("no scenarios for " + label)
        for i, s in enumerate(scen):
            s["sid"] = i
        chunks = chunks or max(1, min(8, len(scen) // 4 or 1))
        parts = [scen[i::chunks] for i in range(chunks)]

        def one(i):
            t = self.run_driver(parts[i], "%s.%d" % (label, i))
            return (t,) + self.judge(module, cfg, t, timeout)

        with cf.ThreadPoolExecutor(chunks) as ex:
            results = list(ex.map(one, range(chunks)))
        bad = None
        for i, (trace, ok, matched, gen, out) in enumerate(results):
            lines = open(trace).read().splitlines()
            self.events += len(lines)
            self.transitions += max(0, gen - 1)
            for l in lines:
                ev = re.search(r'"ev":"([^"]*)"', l)
                k = label + "." + ev.group(1)
                self.event_counts[k] = self.event_counts.get(k, 0) + 1
            if ok:
                self.traces += len(parts[i])
                if sample and len(self.samples) < 6 and lines:
                    self.samples.append({"module": module, "scenario": short(parts[i][0]), "first_events": [short(json.loads(l)) for l in lines[:2]]})
                continue
            if bad is None:
                bad = (i, trace, lines, matched, out)
        if bad is None:
            return
        i, trace, lines, matched, out = bad
        part = parts[i]
        if matched is not None and matched < len(lines):
            culprit = json.loads(lines[matched])["s"]
            cand = [s for s in part if s["sid"] == culprit]
        elif matched is not None and matched >= len(lines):
            raise CheckError("trace accepted but TLC failed:\n" + out[-3000:])
        else:
            cand = part
        # repeat with each candidate alone; only a repeated rejection is reported
        found = None
        if len(cand) > 1:
            def alone(s):
                t = self.run_driver([s], "%s.alone%d" % (label, s["sid"]))
                return s, t, self.judge(module, cfg, t, timeout)
            with cf.ThreadPoolExecutor(8) as ex:
                for k in range(0, len(cand), 32):
                    for s, t, (ok, m, g, o) in ex.map(alone, cand[k:k + 32]):
                        if not ok:
                            found = (s, t, m, o)
                            break
                    if found:
                        break
        else:
            s = cand[0]
            for _ in range(5):  # what depends on the schedule of real processes need not repeat at once
                t = self.run_driver([s], "%s.alone" % label)
                ok, m, g, o = self.judge(module, cfg, t, timeout)
                if not ok:
                    found = (s, t, m, o)
                    break
        if not found:
            raise CheckError("a rejection by %s did not repeat on its own:\n%s" % (module, out[-3000:]))
        s, t, m, o = found
        tl = open(t).read().splitlines()
        rej = tl[m] if m is not None and m < len(tl) else "(evaluation error: %s)" % o[-1500:]
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s.json" % self.prop)
        json.dump({"property": self.prop, "spec": module, "config": cfg, "scenario": s, "trace": tl[:400],
                   "matched_lines": m, "rejected_line": rej}, open(rp, "w"), indent=1)
        raise Violation("%s: event not allowed by %s: %s" % (label, module, rej[:600]), rp)


def short(x, n=700):
    t = json.dumps(x)
    return json.loads(t) if len(t) <= n else t[:n] + "..."


_java_done = False
def builder_java():
    global _java_done
    if not _java_done:
        os.makedirs(builder.OUT, exist_ok=True)
        import fcntl
        with open(os.path.join(builder.OUT, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            builder._hash.clear()
            builder.java()
        _java_done = True


def load_known():
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                res.append(l)
    return res
