"""Machinery shared by all checks: building harnesses from /repo, running them, TLC, verdicts, evidence."""
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FB_REPO", "/repo")          # always /repo for the registered commands
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "g++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]
BASE = ["-std=c++17", "-w"]
ABSL = None

class Infra(Exception):
    """Something about the machinery, not the code under test, went wrong."""

def big_stack():
    """Generated types hold short lists in place, so that objects of nested lists are large."""
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 512 << 20
    resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))

def absl_libs():
    global ABSL
    if ABSL is None:
        ABSL = subprocess.run(["pkg-config", "--libs", "absl_time", "absl_strings", "absl_str_format", "absl_flat_hash_map", "absl_hash"],
                              capture_output=True, text=True, check=True).stdout.split()
    return ABSL

class BuildError(Exception):
    def __init__(self, what, log):
        super().__init__(what); self.what = what; self.log = log

def run(cmd, timeout=600, cwd=None, env=None, stdin=None):
    """Runs a command in its own process group; kills the group at the time limit."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         cwd=cwd, env=env, stdin=stdin or subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, err = p.communicate()
        return -999, out, err

def compile_objs(jobs, workers=8, timeout=600):
    """jobs: list of (source, object, flags). Compiles in parallel; raises BuildError on the first failure."""
    def one(j):
        src, obj, flags = j
        rc, out, err = run([CXX] + BASE + flags + ["-c", src, "-o", obj], timeout)
        return src, rc, err
    with ThreadPoolExecutor(workers) as ex:
        for src, rc, err in ex.map(one, jobs):
            if rc == -999: raise Infra("compiling %s timed out" % src)
            if rc != 0: raise BuildError(os.path.basename(src), err)

def repo_files():
    lib = [os.path.join(REPO, "src/util/BerView.cpp"), os.path.join(REPO, "src/ber_types/Real.cpp")]
    for d in ("src/util", "src/ber_types"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = os.path.join(REPO, d, f)
            if f.endswith(".cpp") and p not in lib: lib.append(p)
    return lib

CODEC = {"oidd", "oide", "reald", "reale", "intd", "inte"}      # stateless among operations on pools

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.work = tempfile.mkdtemp(prefix="fbv-%s-" % pid.lower())
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.commands = 0
        self.samples = []         # a few actual cases, written out
        self.cover = {}
        self.fields = None        # parts of an event the property is about; all of them if None
        self.viol = []            # (key, description, replay dict)
        self.known_hits = {}
        self.notes = []
        kf = os.path.join(VERIF, "known-findings.json")
        data = json.load(open(kf)) if os.path.exists(kf) else {"findings": []}
        self.known = [f for f in data["findings"] if f["property"] == pid]
    @property
    def quick(self): return self.tier != "thorough"
    def path(self, *a): return os.path.join(self.work, *a)
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)
    def add(self, name, n=1): self.cover[name] = self.cover.get(name, 0) + n

    # ---- verdicts ----
    def reject(self, key, what, replay):
        """A behaviour of the code which the specification does not allow. key identifies the input or history."""
        for f in self.known:
            if f["key"] == key or (f.get("keys") and key in f["keys"]):
                self.known_hits.setdefault(f["id"], f)
                return
        self.viol.append((key, what, replay))

    def finish(self):
        level = "model_checking"
        for f in self.known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        for f in self.known:
            if f["id"] not in self.known_hits and not self.viol:
                print("note: listed finding no longer reproduces: %s" % f["what"])
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        shown = 0
        seen = set()
        for key, what, replay in self.viol:
            h = hashlib.sha1(("%s|%s" % (self.pid, key)).encode()).hexdigest()[:12]
            if h in seen: continue
            seen.add(h)
            if shown >= 12: continue
            shown += 1
            rp = os.path.join(rd, "%s-%s.json" % (self.pid, h))
            json.dump({"property": self.pid, "key": key, "what": what, "detail": replay}, open(rp, "w"), indent=1)
            print("  %s: %s" % (key[:300], what[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        ed = os.path.join(VERIF, "evidence"); os.makedirs(ed, exist_ok=True)
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:12] or ["(none)"]}
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": level,
              "coverage": dict(cov, detail=dict(self.cover, commands_executed=self.commands), known_findings=sorted(self.known_hits), notes=self.notes),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(seen)}
        json.dump(ev, open(os.path.join(ed, self.pid + ".json"), "w"), indent=1)
        self.log("done: %d states, %d implementation events judged, %d violations" % (self.states, self.traces, len(seen)))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.viol else 0

    # ---- building ----
    def build(self, sources, name, extra_inc=(), opt="-O1", san=True, defs=()):
        """Compiles harness sources plus the runtime library of /repo into an executable."""
        flags = [opt, "-g1", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS] + ["-I" + i for i in extra_inc] + ["-D" + d for d in defs] + (SAN if san else [])
        jobs = []
        for s in list(sources) + repo_files():
            fl = list(flags)
            if s.endswith("Real.cpp") and s.startswith(REPO): fl = [f if f != "-O1" else "-O0" for f in fl]
            jobs.append((s, self.path("%s-%s.o" % (name, hashlib.md5(s.encode()).hexdigest()[:8])), fl))
        compile_objs(jobs)
        exe = self.path(name)
        rc, out, err = run([CXX] + (SAN if san else []) + [j[1] for j in jobs] + absl_libs() + ["-o", exe])
        if rc != 0: raise BuildError("link " + name, err)
        return exe

    # ---- running ----
    def execute(self, exe, cmds, per_cmd=10.0, sessions=None, max_crashes=40, extra_env=None):
        """cmds: list of command strings (without number). Returns (events, crashes): events by number,
        crashes {n: description}. sessions: optional list, same length, of session ids; after a crash the
        run resumes at the next session (or the next command)."""
        cf, ef = self.path("cmds.txt"), self.path("events.json")
        with open(cf, "w") as f:
            for n, c in enumerate(cmds): f.write("%d %s\n" % (n, c))
        if os.path.exists(ef): os.remove(ef)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2048",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", TZ="UTC")
        env.update(extra_env or {})
        crashes, first, hangs = {}, 0, 0
        while first < len(cmds):
            rc, err = self._watch([exe, cf, ef, str(first)], ef, env, per_cmd)
            if rc == 0: break
            last = self._last(ef)
            n = max(first, last + 1)
            if n >= len(cmds):
                # everything executed, then a non-zero end (leaks are reported here)
                crashes[len(cmds) - 1] = self._why(rc, err) + " (at exit)"
                break
            crashes[n] = self._why(rc, err)
            if rc == -998: hangs += 1
            if len(crashes) >= max_crashes or hangs >= 3:
                crashes["more"] = "stopped after %d crashes" % len(crashes); break
            if sessions is None: first = n + 1
            else:
                first = n + 1
                while first < len(cmds) and sessions[first] == sessions[n]: first += 1
        events = {}
        if os.path.exists(ef):
            with open(ef) as f:
                for line in f:
                    try: o = json.loads(line)
                    except ValueError: continue
                    events[o["n"]] = o
        return events, crashes

    def _last(self, ef):
        if not os.path.exists(ef): return -1
        last = -1
        with open(ef, "rb") as f:
            f.seek(0, 2); size = f.tell(); f.seek(max(0, size - (1 << 20)))
            for line in f.read().split(b"\n"):
                m = re.match(rb'\{"n":(\d+)', line)
                if m and line.endswith(b"}"): last = int(m.group(1))
        return last

    def _watch(self, cmd, ef, env, per_cmd):
        errf = open(self.path("stderr.txt"), "w+", errors="replace")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, stdin=subprocess.DEVNULL, env=env, start_new_session=True, preexec_fn=big_stack)
        last, since = -2, time.time()
        rc = None
        while True:
            try:
                rc = p.wait(timeout=0.25); break
            except subprocess.TimeoutExpired:
                size = os.path.getsize(ef) if os.path.exists(ef) else 0
                if size != last: last, since = size, time.time()
                elif time.time() - since > per_cmd:
                    os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = -998; break
        errf.seek(0); err = errf.read(200000); errf.close()
        if rc == 2 and "unknown op" in err: raise Infra(err)
        return rc, err

    def _why(self, rc, err):
        if rc == -998: return "did not terminate"
        for pat in (r"(ERROR: AddressSanitizer: [^\n]*)", r"(ERROR: LeakSanitizer[^\n]*)", r"([^\n]*runtime error: [^\n]*)", r"([^\n]*Assertion [^\n]*)", r"(terminate called[^\n]*\n[^\n]*)"):
            m = re.search(pat, err)
            if m:
                w = m.group(1).strip()
                fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\n]*)", err)
                loc = next((a + " " + b for a, b in fr if "fast_ber" in a or "/include/fast_ber" in b), "")
                return (w + (" at " + loc if loc else ""))[:500]
        return "exit status %s: %s" % (rc, err[-300:])

    # ---- TLC ----
    def tlc(self, module, cfg, env=None, workers=8, extra=(), heap="6g", timeout=840, deadlock=True):
        md = tempfile.mkdtemp(prefix="md-", dir=self.work)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dtlc2.tool.impl.Tool.cdot=false", "-cp", JAR, "tlc2.TLC", "-metadir", md, "-workers", str(workers), "-config", cfg] + list(extra) + [module]
        e = dict(os.environ); e.update(env or {})
        rc, out, err = run(cmd, timeout, cwd=SPEC, env=e)
        shutil.rmtree(md, ignore_errors=True)
        if rc == -999: raise Infra("TLC timed out on %s" % module)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return {"rc": rc, "out": out + err, "gen": gen, "distinct": dist,
                "ok": rc == 0 and "No error has been found" in out}

    def model_check(self, module, cfg, name=None, **kw):
        """Exhaustive check of the specification itself. A failure is an error of the specification."""
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]: raise Infra("model check of %s/%s failed:\n%s" % (module, cfg, r["out"][-3000:]))
        self.states += r["distinct"]; self.trans += r["gen"]
        self.cover["model:" + (name or cfg)] = {"distinct_states": r["distinct"], "generated": r["gen"]}
        return r

    def judge(self, module, events, cfg="Trace.cfg", env=None, stateless=None):
        """Has TLC judge the recorded events (list of dicts, in order). Returns {n: why} for rejected ones.
        The events are dealt out, whole sessions together, to several TLC processes."""
        stateless = module in ("TraceCore", "TraceSchema", "TraceView", "TraceCompiler") if stateless is None else stateless
        sess = []
        for e in events:
            if stateless or not sess or e["op"] == "new" or e["op"] in CODEC: sess.append([e])
            else: sess[-1].append(e)
        k = max(1, min(8, len(events) // 100))
        parts = [[e for s in sess[j::k] for e in s] for j in range(k)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: self._judge(module, parts[j], j, cfg, env), range(k)))
        bad = {}
        for r in res: bad.update(r)
        self.cover["events:" + module] = self.cover.get("events:" + module, 0) + len(events)
        return bad

    def _judge(self, module, evs, part, cfg, env):
        bad = {}
        for attempt in range(4):
            if not evs: return bad
            tf = self.path("trace-%s-%d.ndjson" % (module, part))
            with open(tf, "w") as f:
                for e in evs: f.write(json.dumps(e, separators=(",", ":")) + "\n")
            r = self.tlc(module, cfg, env=dict(env or {}, TRACE=tf), workers=1, heap="3g")
            got = {}
            for m in re.finditer(r'"REJECT <<(-?\d+), (.*)>>"', r["out"]):
                got.setdefault(int(m.group(1)), m.group(2).replace('\\"', '"'))
            if r["ok"]:
                if r["distinct"] != len(evs): raise Infra("TLC visited %d of %d events of %s" % (r["distinct"], len(evs), module))
                bad.update(got)
                self.states += r["distinct"]; self.trans += r["gen"]; self.traces += len(evs)
                return bad
            # The specification could not be evaluated on an event: the event is not one it knows.
            m = re.findall(r"\bi = (\d+)", r["out"])
            if not m: raise Infra("TLC failed on %s:\n%s" % (module, r["out"][-3000:]))
            k = int(m[-1]) - 1
            bad[evs[k]["n"]] = "not an event of the specification: " + (os.environ.get("FBV_DEBUG") and json.dumps(evs[k]) or "") + re.sub(r"\s+", " ", r["out"][r["out"].find("Error:"):][:400])
            del evs[k]
        self.notes.append("%d events of %s not judged after repeated failures" % (len(evs), module))
        return bad

    def sample(self, cases, k=3):
        """Keeps a few of the cases for the evidence file."""
        if cases: self.samples += [cases[i] for i in sorted({0, len(cases) // 2, len(cases) - 1})][:k]

    def conform(self, exe, module, cmds, per_cmd=10.0, sessions=None, env=None, judge_env=None, keep=None):
        """Executes commands against the code and has the specification judge the events.
        sessions: session id of each command, when commands build on the ones before them."""
        events, crashes = self.execute(exe, cmds, per_cmd, sessions, extra_env=env)
        self.commands += len(cmds)
        start = {}
        if sessions is not None:
            for n, s in enumerate(sessions): start.setdefault(s, n)
        def key(n): return cmds[n] if sessions is None else "; ".join(cmds[start[sessions[n]]:n + 1])
        more = crashes.pop("more", None)
        for n, why in sorted(crashes.items()):
            self.reject(key(n), "crash: " + why, {"commands": key(n), "harness": os.path.basename(exe), "env": env})
        if more: self.notes.append(more)
        bad = self.judge(module, [events[n] for n in sorted(events)], env=judge_env)
        self.sample([{"command": key(n)[:400], "event": events[n]} for n in sorted(events) if len(str(events[n])) < 1500])
        dead = {sessions[n] for n in crashes} if sessions is not None else set()
        missing = [n for n in range(len(cmds)) if n not in events and n not in crashes and not (sessions is not None and sessions[n] in dead)]
        if missing and not more: raise Infra("%d commands gave no event, first %s" % (len(missing), cmds[missing[0]]))
        done = set()
        for n, why in sorted(bad.items()):
            if sessions is not None:
                if sessions[n] in done: continue        # only the first disagreement of a session
                done.add(sessions[n])
            self.reject(key(n), "expected " + why, {"commands": key(n), "event": events[n], "expected": why, "env": env})
        return events

    def conform_sessions(self, exe, module, sess, **kw):
        """sess: list of command lists."""
        cmds, ids = [], []
        for k, s in enumerate(sess):
            cmds += s; ids += [k] * len(s)
        return self.conform(exe, module, cmds, sessions=ids, **kw)

def parse_tla(txt):
    """A TLC value as Python: records -> dict, sequences -> list, sets -> frozenset-like list, strings, ints, booleans."""
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|<<|>>|\|->|:>|@@|[\[\]{}(),]|-?\d+|\w+', txt)
    pos = 0
    def val():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "<<" or t == "{":
            end = ">>" if t == "<<" else "}"
            out = []
            while toks[pos] != end:
                out.append(val())
                if toks[pos] == ",": pos += 1
            pos += 1
            return out
        if t == "[":
            out = {}
            while toks[pos] != "]":
                k = toks[pos]; pos += 2
                out[k] = val()
                if toks[pos] == ",": pos += 1
            pos += 1
            return out
        if t == "(":
            out = {}
            while True:
                k = val(); pos += 1; out[k if not isinstance(k, list) else tuple(k)] = val()
                t = toks[pos]; pos += 1
                if t == ")": return out
        if t == "TRUE": return True
        if t == "FALSE": return False
        if t[0] == '"': return t[1:-1]
        return int(t) if re.match(r"-?\d", t) else t
    return val()

def dump_pairs(ctx, module, cfg, names, text=None, pick=None):
    """All states TLC reaches, as tuples of the values of the named variables; pick: chooses from their texts."""
    f = ctx.path("dump-%s" % module)
    if text: cfg = ctx.path(cfg + ".cfg"); open(cfg, "w").write(text)
    r = ctx.tlc(module, cfg, extra=["-dump", f], workers=4)
    if not r["ok"]: raise Infra("TLC failed generating from %s:\n%s" % (module, r["out"][-2000:]))
    ctx.states += r["distinct"]; ctx.trans += r["gen"]
    ctx.cover["model:" + module + ":" + os.path.basename(cfg)] = r["distinct"]
    out = []
    texts = re.split(r"^State \d+:.*\n", open(f + ".dump").read(), flags=re.M)[1:]
    for st in pick(texts) if pick else texts:
        d = dict(re.findall(r"^(?:/\\ )?(\w+) = (.*(?:\n [^/]*)*)$", st, re.M))
        out.append(tuple(parse_tla(d[n]) for n in names))
    return out

def dump_states(ctx, module, cfg, var):
    """All states TLC reaches, as the values (text) of one variable: behaviours generated from the specification."""
    f = ctx.path("dump-%s" % module)
    r = ctx.tlc(module, cfg, extra=["-dump", f])
    if not r["ok"]: raise Infra("TLC failed generating from %s:\n%s" % (module, r["out"][-2000:]))
    ctx.states += r["distinct"]; ctx.trans += r["gen"]
    ctx.cover["generated:" + cfg] = r["distinct"]
    txt = open(f + ".dump").read()
    return re.findall(r"^(?:/\\ )?%s = (.*(?:\n .*)*)$" % var, txt, re.M)
