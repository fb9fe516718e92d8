"""Shared runner: build harnesses from /repo, record traces, judge them with TLC.

A check is a python module checks/<id>.py with a function run(ctx).  The runner
 * compiles C++ harnesses against the headers of the current working tree,
 * runs them, collecting ndjson traces (one event per line),
 * lets TLC decide whether every trace is a behaviour of the specification,
 * model checks the specification itself (exhaustive small configurations),
 * writes the evidence file and prints VIOLATION / KNOWN-FINDING lines.
Exit codes: 0 held, 1 violation, 2 the check itself failed.
"""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(1, min(8, os.cpu_count() or 8))

CONFIGS = {
    "gcc20":   ["g++", "-std=c++20", "-O1"],
    "gcc17":   ["g++", "-std=c++17", "-O1"],
    "m32":     ["g++", "-m32", "-std=c++20", "-O1"],
    "m32_17":  ["g++", "-m32", "-std=c++17", "-O1"],
    "clang20": ["clang++", "-std=c++20", "-O1", "-DDOUBLE_FALLBACK"],
    "clang17": ["clang++", "-std=c++17", "-O1", "-DDOUBLE_FALLBACK"],
    "asan":    ["g++", "-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
}

class CheckError(Exception):
    """the check could not be carried out (exit 2)"""

class Violation(Exception):
    def __init__(self, what, info=None):
        super().__init__(what); self.what = what; self.info = info or {}

def _limits(mem_gb):
    def f():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def sh(cmd, timeout=120, cwd=None, env=None, stdin=None, stdout=None, mem_gb=None):
    """returns (rc, out, err); rc = 'timeout' on time-out"""
    e = dict(os.environ); e.update(env or {})
    out = stdout if stdout is not None else subprocess.PIPE
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                         stdout=out, stderr=subprocess.PIPE, preexec_fn=_limits(mem_gb))
    try:
        o, err = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode("latin1"), err.decode("latin1")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return "timeout", "", ""

class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == "thorough"
        self.dir = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.kinds, self.notes, self.assumptions = [], {}, [], []
        self.extra = {}
        self.violations = []
        self.known = []

    # ------------------------------------------------------------------ build
    def path(self, *a): return os.path.join(self.dir, *a)

    def compile(self, specs):
        """specs: list of (binary name, source in harness/, config, extra flags). Parallel."""
        def one(s):
            name, src, cfg, extra = (list(s) + [[]])[:4]
            base = CONFIGS[cfg]
            cmd = base + ["-w", "-I", os.path.join(REPO, "src"), "-I", HARNESS, "-DVF_CFG=\"%s\"" % cfg] + list(extra)
            cmd += [os.path.join(HARNESS, src), "-o", self.path(name)]
            rc, o, e = sh(cmd, timeout=400)
            if rc != 0:
                raise CheckError("cannot compile %s for %s: %s" % (src, cfg, (o + e)[-3000:]))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(one, specs))

    # ---------------------------------------------------------------- harness
    def harness(self, name, args=(), timeout=150, out=None, stdin_path=None, env=None, cwd=None, mem_gb=8, asan=False):
        """run a harness; its stdout is an ndjson trace. Any crash/time-out/unexpected exit is a
        violation candidate (the harness catches everything the code is allowed to do)."""
        out = out or self.path(name + ".ndjson")
        def once():
            with open(out, "wb") as f:
                si = open(stdin_path, "rb") if stdin_path else None
                try:
                    e = {"VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier}; e.update(env or {})
                    return sh([self.path(name)] + [str(a) for a in args], timeout=timeout, stdin=si, stdout=f,
                              env=e, cwd=cwd, mem_gb=None if asan else mem_gb)
                finally:
                    if si: si.close()
        rc, _, err = once()
        if rc == 3: raise CheckError("harness %s reports a set-up problem: %s" % (name, err[-1000:]))
        if rc != 0:
            rc2, _, err2 = once()
            if rc2 == 0: raise CheckError("harness %s failed once (%s) and then succeeded" % (name, rc))
            tail = ""
            try:
                with open(out, "rb") as f:
                    f.seek(max(0, os.path.getsize(out) - 3000)); tail = f.read().decode("latin1")
            except OSError: pass
            raise Violation("the code under test crashed, hung or escaped its contract (exit %s) in harness %s %s"
                            % (rc2, name, " ".join(map(str, args))), dict(stderr=err2[-2000:], trace_tail=tail))
        return out

    def harnesses(self, jobs):
        """jobs: list of (name, kwargs) run in parallel; returns list of trace paths"""
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(self.harness, n, **kw) for n, kw in jobs]
            return [f.result() for f in fs]

    def distinct(self, traces):
        """drops traces which are byte for byte equal to an earlier one (the same behaviour recorded
        under another compiler needs no second verdict; a different one is judged on its own)"""
        seen, res = set(), []
        for t in traces:
            h = hashlib.sha256()
            with open(t, "rb") as f:
                for b in iter(lambda: f.read(1 << 20), b""): h.update(b)
            if h.digest() not in seen: seen.add(h.digest()); res.append(t)
        self.notes.append("%d recorded traces, %d distinct" % (len(traces), len(res)))
        return res

    # -------------------------------------------------------------------- tlc
    def tlc(self, module, cfg, tag, env=None, timeout=600, workers=1, heap="3g", extra=()):
        meta = self.path("meta_" + tag); shutil.rmtree(meta, ignore_errors=True)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module]
        rc, o, e = sh(cmd, timeout=timeout, cwd=SPECS, env=env)
        with open(self.path("tlc_%s.log" % tag), "w") as f: f.write(o + e)
        shutil.rmtree(meta, ignore_errors=True)
        if rc == "timeout": raise CheckError("TLC timed out on %s (%s)" % (module, tag))
        if "java.lang.OutOfMemoryError" in o + e or rc in (-9, 137): raise CheckError("TLC ran out of memory on %s" % module)
        if "Parsing or semantic analysis failed" in o: raise CheckError("specification %s does not parse:\n%s" % (module, o[-2000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        ms = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", o)
        gen, dist = (int(ms[-1][0]), int(ms[-1][1])) if ms else (0, 0)
        d = re.search(r"depth of the complete state graph search is (\d+)", o)
        return dict(rc=rc, out=o, err=e, gen=gen, distinct=dist, depth=int(d.group(1)) if d else 0,
                    ok=(rc == 0 and "No error has been found" in o))

    def mc(self, module, cfg=None, timeout=600, workers=None, heap="8g", env=None, min_states=2, extra=()):
        """model check the specification itself: its invariants must hold in every reachable state"""
        cfg = cfg or module + ".cfg"
        e = {"VF_OUT": self.path("stim_" + cfg + ".ndjson")}; e.update(env or {})
        r = self.tlc(module, cfg, "mc_" + os.path.basename(cfg), env=e, timeout=timeout, workers=workers or JOBS, heap=heap, extra=extra)
        if not r["ok"]:
            raise CheckError("specification %s/%s does not model check:\n%s" % (module, cfg, r["out"][-3000:] + r["err"][-500:]))
        if r["distinct"] < min_states:
            raise CheckError("specification %s/%s explored only %d states" % (module, cfg, r["distinct"]))
        self.states += r["distinct"]; self.transitions += r["gen"]
        self.notes.append("MC %s: %d distinct states, %d generated, depth %d" % (cfg, r["distinct"], r["gen"], r["depth"]))
        return r

    def judge(self, module, traces, cfg=None, reset="new", rerun=None, timeout=600, env=None, shards=JOBS,
              min_events=1, heap="3g", known=None, need=()):
        """traces: list of ndjson files.  Every line is an event; a line whose e == reset starts an
        independent case (reset=None: every line is independent).  TLC must accept every shard."""
        cfg = cfg or module + ".cfg"
        cases = []
        kinds = {}
        for t in traces:
            with open(t, "rb") as f:
                cur = None
                for line in f:
                    line = line.rstrip(b"\n")
                    if not line: continue
                    m = re.match(rb'\{"e":"([^"]*)"', line)
                    if not m: raise CheckError("bad trace line in %s: %r" % (t, line[:200]))
                    k = m.group(1).decode()
                    kinds[k] = kinds.get(k, 0) + 1
                    if reset is None or k == reset or cur is None:
                        cur = []; cases.append(cur)
                    cur.append(line)
        n = sum(map(len, cases))
        if n < min_events: raise CheckError("trace of %s has only %d events (expected at least %d)" % (module, n, min_events))
        for k in need:
            if not kinds.get(k): raise CheckError("no event of kind %s was recorded for %s" % (k, module))
        for k, v in kinds.items(): self.kinds[k] = self.kinds.get(k, 0) + v
        order = sorted(range(len(cases)), key=lambda i: hashlib.md5(b"%d" % i).digest())
        shards = max(1, min(shards, len(cases), (n + 199) // 200))
        parts = [[] for _ in range(shards)]; load = [0] * shards
        for j, i in enumerate(order):
            parts[j % shards].append(i)
        def run_part(j, ids, tag):
            p = self.path("shard_%s_%s.ndjson" % (module, tag))
            with open(p, "wb") as f:
                for i in ids:
                    f.write(b"\n".join(cases[i]) + b"\n")
            lines = sum(len(cases[i]) for i in ids)
            e = {"TRACE": p}; e.update(env or {})
            r = self.tlc(module, cfg, "%s_%s" % (module, tag), env=e, timeout=timeout, workers=1, heap=heap)
            r["lines"] = lines; r["ids"] = ids; r["file"] = p
            r["accepted"] = r["ok"] and r["depth"] - 1 == lines
            if not r["accepted"]:
                ls = re.findall(r"(?:^|/\\ )l = (\d+)", r["out"], re.M)
                at = max([int(x) for x in ls] + [r["depth"]]) if (ls or r["depth"]) else 0
                r["at"] = at
            return r
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda t: run_part(t[0], t[1], str(t[0])), enumerate(parts)))
        bad = []
        for r in rs:
            self.states += r["distinct"]; self.transitions += r["gen"]
            if not r["accepted"]: bad.append(r)
            else: os.unlink(r["file"])
        for r in bad:
            # locate the case
            pos, case, off = 0, None, 0
            for i in r["ids"]:
                if r["at"] <= pos + len(cases[i]):
                    case = i; off = r["at"] - pos; break
                pos += len(cases[i])
            if case is None: raise CheckError("TLC failed on %s and no event can be blamed:\n%s" % (module, r["out"][-3000:]))
            # repeat on the single case
            r2 = run_part(0, [case], "confirm")
            if r2["accepted"]: raise CheckError("rejection of %s not confirmed on the single case:\n%s" % (module, r["out"][-3000:]))
            off = max(1, min(len(cases[case]), r2["at"] or off))
            ev = [x.decode("latin1") for x in cases[case]]
            msg = [x for x in r2["out"].splitlines() if x.startswith("Error:") or "violated" in x]
            raise Violation("specification %s rejects event %d of the case: %s" % (module, off, ev[off - 1][:600]),
                            dict(module=module, case=ev[:2000], event_index=off, event=ev[off - 1], tlc=msg[:10]))
        self.traces += len(cases); self.events += n
        for i in order[:2]:
            s = [x.decode("latin1")[:300] for x in cases[i][:6]]
            if len(self.samples) < 8: self.samples.append({"spec": module, "case": s})
        return kinds

    # --------------------------------------------------------------- evidence
    def finish(self, violations):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_checked=self.events, event_kinds=self.kinds, samples=self.samples, notes=self.notes)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=violations,
                  assumptions=self.assumptions or ["TLC, the JVM, the C++ compilers and the harness recorder are trusted"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

def main(pid, run):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        run(ctx)
    except Violation as v:
        rp = ctx.path("replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, what=v.what, seed=seed, tier=tier, info=v.info), f, indent=1)
        if not ctx.samples: ctx.samples.append(dict(violation=v.what[:500]))
        ctx.finish(1)
        print("%s: %s" % (pid, v.what))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
        return 1
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e), file=sys.stderr)
        return 2
    ctx.finish(0)
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" %
          (pid, tier, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0))
    return 0
