"""Framework: build drivers from /repo's working tree, run them, let TLC judge the
recorded traces against the specification, write evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))

class Err(Exception):
    """Internal failure of the check (neither verdict)."""

class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg); self.replay = replay

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.mc = []; self.samples = []; self.notes = []; self.opcount = {}
        self.sources = {}; self.built = {}; self.same = 0; self.anyrun = 0
        self.level = "model_checking"
    thorough = property(lambda s: s.tier == "thorough")
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    def path(self, n): return os.path.join(self.dir, n)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -- building -----------------------------------------------------------
    def build(self, name, driver, sources, flags=(), cc="gcc", asan=True, wrap=True, opt="-O1", test=True):
        out = self.path(name)
        cmd = [cc, opt, "-g", "-w", "-fno-builtin-malloc", "-fno-builtin-free", "-I", os.path.join(VERIF, "drivers")]
        if test: cmd += ["-DCRE_TEST"]
        if asan: cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        cmd += list(flags)
        cmd += [os.path.join(VERIF, "drivers", d) for d in ([driver] if isinstance(driver, str) else driver)]
        cmd += [os.path.join(VERIF, "drivers", "hx.c")]
        cmd += [os.path.join(REPO, s) for s in sources]
        if wrap: cmd += ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup"]
        cmd += ["-o", out, "-lm"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise Err("build of %s failed:\n%s" % (name, r.stderr[-3000:]))
        if asan: self.sources[out] = (name, driver, sources, flags, wrap, test)
        return out
    def variants(self, binary):
        """The same driver and sources built as a user's compilers would build them: optimised, without
        instrumentation, with char signed and unsigned."""
        if binary not in self.sources: return []
        name, driver, sources, flags, wrap, test = self.sources[binary]
        flags = [f for f in flags if not f.startswith("--param=asan")]
        v = self.built.get(binary)
        if v is None:
            v = self.built[binary] = [(self.build(name + "_" + k, driver, sources, flags + f, cc=cc, asan=False, wrap=wrap, opt=o, test=test), k)
                                      for k, cc, o, f in (("gccO2", "gcc", "-O2", ["-funsigned-char", "-DHX_FILL=0x5A"]), ("clangO2", "clang", "-O2", ["-DHX_FILL=0"]))]
        return v

    def build_cxx(self, name, driver, sources, flags=()):
        """The driver as a C++ user's program (the headers' inline functions and macros in C++), the sources as C.
        None if it does not compile: nothing promises that."""
        o = self.path(name + ".o"); src = os.path.join(VERIF, "drivers", driver)
        cmd = ["g++", "-O1", "-g", "-w", "-fpermissive", "-DCRE_TEST", "-fsanitize=address", "-fno-builtin-malloc", "-fno-builtin-free", "-I", os.path.join(VERIF, "drivers")] + list(flags) + ["-x", "c++", "-c", src, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0: self.log("%s: not C++ (%s)" % (name, r.stderr.strip().split("\n")[0][:200])); return None
        try: b = self.build(name, [], sources, list(flags) + [o, "-lstdc++"])
        except Err: self.log("%s: does not link with a C++ program" % name); return None
        del self.sources[b]; return b
    def build_threads(self, name, driver, sources, flags=(), tsan=True):
        """The driver and the harness linked twice, the code under test once (drivers/thr.c)."""
        w = self.path(name + ".d"); os.makedirs(w, exist_ok=True)
        def sh(*cmd):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0: raise Err("build of %s failed:\n%s" % (name, r.stderr[-3000:]))
            return r.stdout
        cc = ["gcc", "-O1", "-g", "-w", "-fno-builtin-malloc", "-fno-builtin-free", "-DCRE_TEST", "-DHX_THREADS", "-I", os.path.join(VERIF, "drivers")] + (["-fsanitize=thread"] if tsan else []) + list(flags)
        D = [os.path.join(VERIF, "drivers", d) for d in (driver, "hx.c", "thr.c")]
        objs = []
        for i, d in enumerate(D + [os.path.join(REPO, x) for x in sources]):
            o = os.path.join(w, "o%d.o" % i); sh(*cc, "-c", d, "-o", o); objs.append(o)
        one = os.path.join(w, "one.o"); sh("ld", "-r", objs[0], objs[1], "-o", one)
        syms = [x.split()[-1] for x in sh("nm", "-g", "--defined-only", one).split("\n") if x.strip()]
        for c in "AB":
            m = os.path.join(w, c + ".syms")
            with open(m, "w") as f: f.write("".join("%s %s_%s\n" % (x, c, x) for x in syms))
            sh("objcopy", "--redefine-syms=" + m, one, os.path.join(w, c + ".o"))
        out = self.path(name)
        sh(*cc, os.path.join(w, "A.o"), os.path.join(w, "B.o"), *objs[2:], "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup", "-pthread", "-o", out, "-lm")
        if tsan and any(subprocess.run([out], stdin=subprocess.DEVNULL, capture_output=True).returncode for _ in range(3)):
            self.log("%s: the race detector does not start here" % name)      # judged by results alone then
            return self.build_threads(name, driver, sources, flags, False)
        return out

    # -- running drivers ----------------------------------------------------
    def _run_shard(self, binary, items, limit):
        """items: list of (index, cmdline). Returns {index: [event-json-text...]} with a Crash
        event appended to traces that did not finish."""
        res = {}; pos = 0; crashes = 0; hung = False
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:max_malloc_fill_size=0",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=98", TSAN_OPTIONS="halt_on_error=1:exitcode=97:report_signal_unsafe=0:suppress_equal_stacks=1", LC_ALL="C")
        if self.thorough: env.setdefault("HX_CPU", "600")
        while pos < len(items):
            if crashes >= 3 or hung:      # enough evidence; the rest of the shard is not run
                break
            inp = "".join(c + "\n" for _, c in items[pos:])
            try:
                r = subprocess.run([binary], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=limit)
                out, rc, err = r.stdout, r.returncode, r.stderr
            except subprocess.TimeoutExpired as e:
                out, rc, err = e.stdout or b"", -999, b"driver time limit"
            cur = []; done = 0
            for ln in out.decode("ascii", "replace").split("\n"):
                if ln == "E":
                    res[items[pos + done][0]] = cur; cur = []; done += 1
                elif ln.startswith(("{", "@1 {")) and ln.endswith("}"):
                    cur.append(ln)
            if done < len(items) - pos:
                if rc == 0: raise Err("driver ended early without failing")
                why = "exit %d" % rc
                m = re.search(rb"ERROR: AddressSanitizer: ([\w-]+)", err)
                if m: why = m.group(1).decode()
                elif rc == 97 and b"data race" in err: why = "data race"
                elif rc in (-27, -14): why = "hang"; hung = True
                elif rc == -999: raise Err("the driver did not finish within %ds" % limit)
                elif rc == -9: raise Err("the driver was killed from outside")
                m2 = re.findall(rb"#\d+ 0x\w+ in (\w+)", err)[:4]
                cur.append(json.dumps({"op": "Crash", "why": why, "at": " ".join(x.decode() for x in m2)}))
                res[items[pos + done][0]] = cur
                crashes += 1; done += 1
            pos += done
        return res
    def run(self, binary, cmds, limit=None, shards=None):
        """cmds: list of command lines. Returns list of traces (list of json texts) aligned with cmds
        (None where not run because the driver kept crashing)."""
        limit = limit or self.pick(700, 6000)
        n = shards or NCPU
        items = list(enumerate(cmds))
        parts = [items[i::n] for i in range(n)]
        res = {}
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(lambda p: self._run_shard(binary, p, limit) if p else {}, parts): res.update(r)
        return [res.get(i) for i in range(len(cmds))]

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=NCPU, heap="6g", timeout=None, extra=(), deadlock=False):
        timeout = timeout or self.pick(600, 7200)
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        cfgp = os.path.join(meta, module + ".cfg")
        with open(cfgp, "w") as f: f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "-Djava.io.tmpdir=" + meta,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(meta, "m"), "-workers", str(workers), "-config", cfgp]
        if not deadlock: cmd += ["-deadlock"]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        outp = os.path.join(meta, "out")
        t = time.time()
        with open(outp, "w") as fo:
            try: rc = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), stdout=fo, stderr=subprocess.STDOUT, env=e, timeout=timeout).returncode
            except subprocess.TimeoutExpired: raise Err("TLC on %s exceeded %ds" % (module, timeout))
        txt = open(outp, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        txt = "\n".join(x for x in txt.split("\n") if not x.startswith(("Parsing file", "Semantic processing")))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return {"rc": rc, "out": txt, "generated": gen, "distinct": dist, "wall": time.time() - t}
    def model(self, module, cfg, what, **kw):
        """Exhaustive check of the specification itself."""
        r = self.tlc(module, cfg, **kw)
        if "No error has been found" not in r["out"]:
            raise Err("model check of %s failed:\n%s" % (module, r["out"][-4000:]))
        self.states += r["distinct"]; self.transitions += r["generated"]
        self.mc.append({"module": module, "what": what, "distinct_states": r["distinct"], "states_generated": r["generated"], "wall_s": round(r["wall"], 1)})
        self.log("model %s: %d distinct states (%s)" % (module, r["distinct"], what))
        return r
    def paths(self, module, cfg, what, **kw):
        """Exhaustive exploration that prints one command path per transition ("@ ..." lines)."""
        kw.setdefault("workers", 1)
        r = self.model(module, cfg, what, **kw)
        ps = [m.replace('\\"', '"').strip(";") for m in re.findall(r'^"@(.*)"$', r["out"], re.M)]
        # a path that is a prefix of another adds nothing: longer one covers it
        ps = sorted(set(ps)); keep = []
        for i, p in enumerate(ps):
            if i + 1 < len(ps) and ps[i + 1].startswith(p + ";"): continue
            keep.append(p)
        self.log("%s: %d transition paths, %d after removing prefixes" % (module, len(ps), len(keep)))
        return keep

    # -- trace validation ---------------------------------------------------
    def validate(self, module, traces, consts=None, heap="8g", want=None):
        """Every trace must be a behaviour of the trace specification. Returns None or
        (trace index, event index, TLC output)."""
        traces = [(i, t) for i, t in enumerate(traces) if t is not None]
        f = self.path("trace-%d.ndjson" % self.traces)
        n = 0
        with open(f, "w") as fo:
            for i, t in traces:
                fo.write('{"ev":[' + ",".join(t) + "]}\n"); n += len(t)
        cfg = "INIT TraceInit\nNEXT TraceNext\nINVARIANT TraceTypeOK\nALIAS TraceAlias\n" + "".join("CONSTANT %s = %s\n" % kv for kv in (consts or {}).items())
        r = self.tlc(module, cfg, env={"TRACE": f}, heap=heap, deadlock=True)
        os.unlink(f)
        # an event that the specification cannot even evaluate is as little allowed as one it rejects
        evalerr = "The behavior up to this point is" in r["out"] and "OutOfMemory" not in r["out"] and "StackOverflow" not in r["out"]
        if "Deadlock reached" in r["out"] or "is violated" in r["out"] or evalerr:
            if evalerr and r["out"].rfind("State ") < 0: raise Err("trace validation with %s failed:\n%s" % (module, r["out"][-4000:]))
            st = r["out"].rfind("\nState ")
            tid = re.findall(r"/\\ tid = (\d+)", r["out"][st:]); l = re.findall(r"/\\ l = (\d+)", r["out"][st:])
            if not tid or not l: raise Err("cannot parse rejection:\n" + r["out"][-3000:])
            ti, li = traces[int(tid[-1]) - 1][0], int(l[-1]) - 1
            return ti, li, r["out"][st:st + 3000]
        if "No error has been found" not in r["out"]:
            raise Err("trace validation with %s failed:\n%s" % (module, r["out"][-4000:]))
        if r["distinct"] != n + len(traces):
            raise Err("trace validation with %s visited %d states, expected %d" % (module, r["distinct"], n + len(traces)))
        self.states += r["distinct"]; self.transitions += r["generated"]
        self.traces += len(traces); self.events += n
        return None

    @staticmethod
    def objects(trace):
        """A history on two independent objects is one trace for each of them."""
        a = [e for e in trace if not e.startswith("@1 ")]; b = [e[3:] for e in trace if e.startswith("@1 ")]
        return [a, b] if b else [a]
    def judge(self, module, traces, consts):
        subs = [s for t in traces if t is not None for s in self.objects(t)]
        bad = self.validate(module, subs, consts)
        return bad and (subs[bad[0]], bad)
    def conform(self, binary, cmds, module, consts=None, label="", batch=200000, runner=None):
        """Run command lines through the implementation and validate the recorded traces; then the same
        command lines through optimised builds: a trace equal to one TLC has accepted is accepted, any
        other is judged by TLC."""
        cmds = [c for c in cmds if c]
        traces = self.conform1(binary, cmds, module, consts, label, batch, runner)
        if runner: return traces
        vs = self.variants(binary)
        for j, (b, k) in enumerate(vs):
            sel = list(range(len(cmds))) if self.thorough else list(range(j, len(cmds), len(vs)))
            if not sel: continue
            t = time.time()
            got = self.run(b, [cmds[i] for i in sel])
            diff = [i for i, g in zip(sel, got) if g != traces[i]]
            self.same += len(sel) - len(diff)
            self.log("  %s: %d of %d traces the same as those accepted (%.1fs)" % (k, len(sel) - len(diff), len(sel), time.time() - t))
            if diff: self.conform1(b, [cmds[i] for i in diff], module, consts, "%s (built with %s)" % (label, k), batch)
        return traces
    def conform1(self, binary, cmds, module, consts=None, label="", batch=200000, runner=None):
        if not cmds: raise Err("no commands for " + label)
        run = runner or (lambda cs: self.run(binary, cs))
        t = time.time()
        traces = run(cmds)
        t1 = time.time()
        for tr in traces:
            for e in tr or ():
                m = re.match(r'(?:@1 )?\{"op":"(\w+)"', e)
                k = m.group(1) if m else "?"
                self.opcount[k] = self.opcount.get(k, 0) + 1
        if not self.samples and traces:
            self.samples.append({"set": label, "commands": cmds[0][:400], "trace": [json.loads(e[3:] if e[0] == "@" else e) for e in (traces[0] or [])[:4]]})
        elif len(self.samples) < 6:
            j = len(cmds) // 2
            self.samples.append({"set": label, "commands": cmds[j][:400], "trace": [json.loads(e[3:] if e[0] == "@" else e) for e in (traces[j] or [])[:3]]})
        # crashed traces first: they are certain rejections
        i = 0; chunk = []; size = 0; base = []
        def flush():
            nonlocal chunk, size, base
            if not chunk: return
            bad = self.validate(module, chunk, consts)
            if bad: self._rejected(binary, cmds[base[bad[0]]], chunk[bad[0]], bad, module, consts, label, run, cmds)
            chunk = []; size = 0; base = []
        order = sorted(range(len(cmds)), key=lambda k: 0 if traces[k] and '"op": "Crash"' in traces[k][-1] else 1)
        for k in order:
            if traces[k] is None: continue
            for o in self.objects(traces[k]): chunk.append(o); base.append(k); size += len(o)
            if size >= batch: flush()
        flush()
        if any(t is None for t in traces): raise Err("some traces were not run: " + label)
        self.log("conform %s: %d traces, %d events accepted (driver %.1fs, TLC %.1fs)" % (label, len(cmds), sum(len(t) for t in traces), t1 - t, time.time() - t1))
        return traces

    def _rejected(self, binary, cmd, trace, bad, module, consts, label, run, allcmds=()):
        _, li, out = bad
        self.log("rejected (%s) at event %d: %s" % (label, li, trace[li] if li < len(trace) else "end"))
        ok = self.anyrun        # where the schedule is the machine's, one observed rejection is enough
        for _ in range(0 if ok else 3):      # report only what a re-run repeats
            b2 = self.judge(module, run([cmd]), consts)
            if b2: ok = 1; trace = b2[0]; li = b2[1][1]; out = b2[1][2]; break
        if not ok and len(allcmds) > 1:      # it may need what ran before it in the same process
            t2 = run(list(allcmds)); b2 = None; subs = []; of = []
            for q, t in enumerate(t2):
                for o in self.objects(t or []): subs.append(o); of.append(q)
            b2 = self.validate(module, subs, consts)
            if b2: ok = 1; trace = subs[b2[0]]; cmd = allcmds[of[b2[0]]]; li = b2[1]; out = b2[2]; label += " (only in a process that ran other histories before)"
        if not ok:
            raise Err("rejection did not repeat: %s" % cmd[:300])
        raise Violation("%s: event %d of the implementation's trace is not allowed by %s" % (label, li, module),
                        {"property": self.pid, "module": module, "consts": consts, "label": label, "commands": cmd,
                         "event_index": li, "event": json.loads(trace[li]) if li < len(trace) else None,
                         "trace": [json.loads(e) for e in trace[:li + 1]], "spec_state": out})

    # -- evidence -----------------------------------------------------------
    def evidence(self, violations, spec):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "traces_of_optimised_builds_equal_to_validated_ones": self.same, "samples": self.samples or ["none recorded"],
               "model_checks": self.mc, "operations_exercised": dict(sorted(self.opcount.items())), "explanation": spec.get("explanation", "")}
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
             "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + self.pid)
        with open(tmp, "w") as f: json.dump(d, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))

def weave(r, a, b):
    """Two histories, on an object each, interleaved ("ob" of drivers/hx.h)."""
    q = [a.split(";"), b.split(";")]; out = ["nest"] if r.random() < .5 else []; k = 0
    while q[0] or q[1]:
        k = 1 - k if q[1 - k] else k
        n = r.choice([1, 1, 1, 2, 3, 10, 40]); out.append("ob %d" % k); out += q[k][:n]; del q[k][:n]
    return ";".join(out)

def main(checks):
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("pid"); ap.add_argument("--replay"); ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    if a.thorough: os.environ["VERIF_TIER"] = "thorough"
    fn = checks[a.pid]
    ctx = Ctx(a.pid); rc = 2; viol = []
    try:
        fn.run(ctx); rc = 0
    except Violation as v:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        body = json.dumps(v.replay, indent=1)
        p = os.path.join(VERIF, "replay", "%s-%s.json" % (a.pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(p, "w") as f: f.write(body)
        print(str(v)); print("commands:", (v.replay or {}).get("commands", "")[:600])
        print("event:", json.dumps((v.replay or {}).get("event"))[:600])
        print("VIOLATION property=%s replay=%s" % (a.pid, p), flush=True)
        viol = [{"what": str(v), "replay": p}]; rc = 1
    except Err as e:
        print("CHECK ERROR:", e, file=sys.stderr, flush=True); rc = 2
    finally:
        ctx.close()
    if rc != 2: ctx.evidence(len(viol), fn.__dict__.get("spec", {}) if hasattr(fn, "__dict__") else {})
    print("%s %s: %s, %d states, %d traces, %.1fs" % (a.pid, ctx.tier, ["held", "VIOLATED", "error"][rc], ctx.states, ctx.traces, time.time() - ctx.t0))
    sys.exit(rc)
