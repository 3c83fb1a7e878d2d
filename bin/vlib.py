"""Shared machinery of the checks: building the harness, running TLC, validating traces.

A check is a list of steps:
  * mc():     exhaustive model checking of a specification (its failure is an error of the
              check, never a violation: verdicts come from the real code only)
  * gen():    behaviours generated from the specification by TLC, for the harness to replay
  * drive():  run the harness against /repo's working tree, producing recorded traces
  * validate(): check the recorded traces against the specification with TLC
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")      # a scratch copy, when the machinery itself is tested
WORK = os.environ.get("VERIF_WORK", os.path.join(ROOT, ".work"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def cut(path, chunk):
    """cut a trace into pieces of about chunk events, at the beginnings of histories"""
    out, cur = [], []

    def put():
        g = "%s-cut%d.ndjson" % (path[:-len(".ndjson")], len(out))
        with open(g, "w") as w:
            w.writelines(cur)
        if os.path.exists(path + ".log"):
            shutil.copy(path + ".log", g + ".log")
        out.append(g)

    with open(path) as f:
        for l in f:
            if len(cur) >= chunk and '"op":"reset"' in l:
                put()
                cur = []
            cur.append(l)
    put()
    os.remove(path)
    return out


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly",
             GOWORK="off", CGO_ENABLED="1", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.out = os.path.join(WORK, pid)
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.states = 0          # distinct states found by TLC, all runs
        self.transitions = 0     # states generated by TLC, all runs
        self.traces = 0          # histories of the real code accepted by the specification
        self.events = 0
        self.samples = []
        self.cov = {}
        self.violations = []
        self.assumptions = []
        self.bins = {}
        self.mclog = []

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- build
    def build(self, race=False, pkg=".", name="vdrive"):
        key = (pkg, race)
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.out, name + ("-race" if race else ""))
        cmd = ["go", "build", "-o", out] + (["-race", "-gcflags=all=-d=checkptr=0"] if race else []) + [pkg]
        src = HARNESS
        if REPO != "/repo":
            src = os.path.join(self.out, "harness")
            shutil.rmtree(src, ignore_errors=True)
            shutil.copytree(HARNESS, src)
            with open(src + "/go.mod") as f:
                m = f.read()
            with open(src + "/go.mod", "w") as f:
                f.write(m.replace("=> /repo", "=> " + REPO))
        r = subprocess.run(cmd, cwd=src, env=goenv(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("building the harness failed:\n" + r.stdout + r.stderr)
        self.bins[key] = out
        return out

    def build_repo(self, pkg, name):
        """build a command of /repo"""
        out = os.path.join(self.out, name)
        env = goenv()
        env["GOFLAGS"] = "-mod=mod"
        r = subprocess.run(["go", "build", "-o", out, pkg], cwd=REPO, env=env,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("building %s failed:\n%s%s" % (pkg, r.stdout, r.stderr))
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, workers=4, args=(), env=None, timeout=800, heap="3g", tag=None):
        tag = tag or module + "-" + (cfg or module)
        meta = os.path.join(self.out, "tlc-" + tag)
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", JARS,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        if env:
            e.update(env)
        log = os.path.join(self.out, tag + ".log")
        with open(log, "w") as f:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError("TLC on %s ran out of time (%ds)" % (tag, timeout))
        with open(log, errors="replace") as f:
            text = f.read()
        shutil.rmtree(meta, ignore_errors=True)
        m = None
        for m in re.finditer(r"([\d,]+) states generated,? (?:\(.*?\) )?(?:and )?([\d,]+) distinct states found", text):
            pass
        gen, dist = (int(m.group(i).replace(",", "")) for i in (1, 2)) if m else (0, 0)
        return p.returncode, text, gen, dist

    def mc(self, module, cfg=None, workers=6, args=(), timeout=800, heap="6g", require=(), took=()):
        """exhaustive check; also fails when an action named in `require` (from TLC's coverage) or in `took` (from what
        the model prints when it first takes the action) was never taken"""
        t = time.time()
        rc, text, gen, dist = self.tlc(module, cfg, workers, list(args) + (["-coverage", "1"] if require else []), timeout=timeout,
                                       heap=heap, tag="mc-" + (cfg or module))
        if rc != 0 or "No error has been found" not in text:
            raise CheckError("model checking %s/%s failed:\n%s" % (module, cfg, text[-4000:]))
        for a in require:
            cov = re.findall(r"<%s line [^>]*>: (\d+):(\d+)" % re.escape(a), text)
            if not cov or all(int(x[1]) == 0 for x in cov):
                raise CheckError("vacuous model: action %s of %s is never taken" % (a, module))
        for a in took:
            if '<<"TOOK", "%s">>' % a not in text:
                raise CheckError("vacuous model: action %s of %s is never taken" % (a, module))
        self.states += dist
        self.transitions += gen
        self.mclog.append({"model": cfg or module, "distinct": dist, "generated": gen,
                           "seconds": round(time.time() - t, 1)})
        return text

    def gen(self, module, cfg, num, depth, marker="SCRIPT", simulate=True, timeout=600, workers=4):
        """behaviours of a specification; the spec prints <<marker, json>> for each"""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        rc, text, gen, dist = self.tlc(module, cfg, workers, args, timeout=timeout, tag="gen-" + cfg)
        out = []
        for line in text.splitlines():
            if line.startswith('<<"%s", "' % marker):
                body = line[len('<<"%s", "' % marker):-3]
                out.append(json.loads(body.replace('\\"', '"').replace("\\\\", "\\")))
        if not out:
            raise CheckError("no behaviours generated from %s/%s:\n%s" % (module, cfg, text[-3000:]))
        self.cov.setdefault("behaviours_generated_from_spec", 0)
        self.cov["behaviours_generated_from_spec"] += len(out)
        self.states += dist
        self.transitions += gen
        return out

    # ---------------------------------------------------------------- drive
    def drive(self, args, race=False, timeout=600, env=None, shards=1, name="t", binary=None):
        """run the harness in `shards` processes; returns the trace files.
        A crash of the code under test becomes an event no specification accepts."""
        exe = binary or self.build(race)
        jobs = []
        for i in range(shards):
            tf = os.path.join(self.out, "%s-%d.ndjson" % (name, i))
            cmd = [exe] + list(args) + ["-seed", str(self.seed * 1000 + i), "-shard", "%d/%d" % (i, shards), "-out", tf]
            jobs.append((cmd, tf))

        def run(job):
            cmd, tf = job
            e = dict(os.environ)
            e["GORACE"] = "halt_on_error=1 exitcode=66"
            e["VERIF_TIER"] = self.tier
            if env:
                e.update(env)
            wd = os.path.join(self.out, "scratch-" + os.path.basename(tf))
            os.makedirs(wd, exist_ok=True)
            e["VSCRATCH"] = wd
            p = subprocess.Popen(cmd, env=e, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 text=True, errors="replace", start_new_session=True)
            try:
                o, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGQUIT)
                try:
                    o, _ = p.communicate(timeout=20)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    o, _ = p.communicate()
                raise CheckError("the harness ran out of time: %s\n%s" % (" ".join(cmd), o[-3000:]))
            with open(tf + ".log", "w") as f:
                f.write(o)
            if p.returncode != 0:
                crash = None
                if "WARNING: DATA RACE" in o or p.returncode == 66:
                    crash = "data race"
                elif re.search(r"^(panic:|fatal error:)", o, re.M):
                    crash = "crash"
                frames = re.search(r"github\.com/philhofer/seth|/repo/", o)
                if crash and frames and "HARNESS BUG" not in o:
                    fix_tail(tf)
                    with open(tf, "a") as f:
                        f.write(json.dumps({"op": "CRASH", "what": crash}) + "\n")
                else:
                    raise CheckError("the harness failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), o[-3000:]))
            shutil.rmtree(wd, ignore_errors=True)
            return tf

        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            return list(ex.map(run, jobs))

    # ------------------------------------------------------------- validate
    def validate(self, files, module, cfg=None, timeout=800, heap="2500m", prop=None, par=7, dfs=False, chunk=0):
        """check recorded traces against a specification; chunk is the number of events after
        which a trace is cut (where a history begins), for the length of TLC's behaviours is bounded"""
        if chunk:
            files = [g for f in files for g in cut(f, chunk)]

        def run(tf):
            n = 0
            with open(tf) as f:
                for _ in f:
                    n += 1
            if n == 0:
                raise CheckError("empty trace " + tf)
            env = {"TRACE": tf}
            if dfs:
                env["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.IStateQueue=StateDeque"
            rc, text, gen, dist = self.tlc(module, cfg, 1, [], env=env, timeout=timeout, heap=heap,
                                           tag="val-" + os.path.basename(tf) + "-" + (cfg or module))
            return tf, n, rc, text, gen, dist

        with cf.ThreadPoolExecutor(max_workers=par) as ex:
            res = list(ex.map(run, files))
        for tf, n, rc, text, gen, dist in res:
            m = re.search(r'<<"TRACE_RESULT", (\d+), (\d+)>>', text)
            self.states += dist
            self.transitions += gen
            with open(tf) as f:
                lines = f.read().splitlines()
            hist = [i for i, l in enumerate(lines) if '"op":"reset"' in l or '"op": "reset"' in l]
            if m and int(m.group(1)) == int(m.group(2)) == n and rc == 0:
                self.traces += max(1, len(hist))
                self.events += n
                if len(self.samples) < 4:
                    a = hist[min(1, len(hist) - 1)] if hist else 0
                    b = next((h for h in hist if h > a), n)
                    self.samples.append([json.loads(x) for x in lines[a:min(b, a + 12)]])
                continue
            if m:
                stuck = int(m.group(1))      # events consumed
                why = "rejected by the specification"
            else:
                # an evaluation error at an event: the recorded values are not even of the right kind
                k = re.findall(r"^/\\ l = (\d+)", text, re.M) or re.findall(r"\bl \|?-?>? ?= (\d+)", text)
                fatal = re.search(r"OutOfMemory|StackOverflow|Java heap|Parsing or semantic|semantic error|Unknown operator|parse", text)
                if fatal or not k or "The behavior up to this point is" not in text:
                    raise CheckError("validating %s failed:\n%s" % (tf, text[-4000:]))
                stuck = int(k[-1]) - 1
                why = "recorded values outside of the specification's domain"
            self.violation(tf, lines, stuck, why, module, prop)
        return

    def violation(self, tf, lines, stuck, why, module, prop=None):
        stuck = min(stuck, len(lines) - 1)
        a = max([i for i in range(stuck + 1) if '"op":"reset"' in lines[i] or '"op": "reset"' in lines[i]] or [0])
        rp = os.path.join(self.out, "replay-%d.txt" % len(self.violations))
        with open(rp, "w") as f:
            f.write("property %s: event %d of %s is %s (%s)\n" % (self.pid, stuck + 1, tf, why, module))
            f.write("rejected event:\n%s\nhistory leading up to it:\n" % lines[stuck])
            for l in lines[a:stuck + 1]:
                f.write(l + "\n")
            try:
                with open(tf + ".log") as g:
                    f.write("\nharness output:\n" + g.read()[-6000:])
            except OSError:
                pass
        self.violations.append((prop or self.pid, rp, lines[stuck][:600]))

    # -------------------------------------------------------------- finish
    def finish(self, level="model_checking", assumptions=(), explanation=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "samples": self.samples, "models": self.mclog}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions) or self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        evdir = os.path.join(ROOT, "evidence") if REPO == "/repo" else self.out
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        known = load_known()
        rc = 0
        for prop, rp, ev in self.violations:
            k = next((k for k in known if k["property"] == prop and k["match"] in ev), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            print("rejected: " + ev[:400])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
        if rc == 0:
            print("%s: ok (%d traces, %d events, %d states, %.1fs)" %
                  (self.pid, self.traces, self.events, self.states, time.time() - self.t0))
        return rc


def fix_tail(tf):
    """drop a partially written last line"""
    try:
        with open(tf) as f:
            s = f.read()
    except OSError:
        s = ""
    if s and not s.endswith("\n"):
        s = s[:s.rfind("\n") + 1]
    if not s:
        s = '{"op":"reset"}\n'
    with open(tf, "w") as f:
        f.write(s)


def load_known():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
                if m:
                    out.append({"property": m.group(1), "match": m.group(2), "what": m.group(3)})
    return out
