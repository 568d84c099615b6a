"""Common machinery of the checks: build the harness from /repo, run cases on it, have TLC judge the traces."""
import concurrent.futures, hashlib, json, os, queue, random, re, select, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JV_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(HARN, "target")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def env_cargo(hooks=True):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="1")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin"
    e["RUSTFLAGS"] = "--cfg jubako_verif" if hooks else ""
    return e


def src_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HARN, "src")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(HARN, "Cargo.toml")):
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def build(profile="dev"):
    """Build the harness against /repo's working tree; returns the path of the binary."""
    os.makedirs(TARGET, exist_ok=True)
    prof = "debug" if profile == "dev" else profile
    out = os.path.join(TARGET, prof, "jv")
    stamp = os.path.join(TARGET, "stamp-" + prof)
    h = src_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old == h and os.path.exists(out):
        return out
    e = env_cargo()
    args = ["cargo", "build", "--offline"] + (["--release"] if profile == "release" else [])
    if old is not None:
        # never trust mtimes: the working tree may have been replaced by older files
        subprocess.run(["cargo", "clean", "--offline", "-p", "jubako", "-p", "jv"] + args[3:], cwd=HARN, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    log("building harness", profile)
    r = subprocess.run(args, cwd=HARN, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        raise ToolError("harness build failed (%s)" % profile)
    open(stamp, "w").write(h)
    log("built", profile)
    return out


def shim(name):
    """Compiles harness/shim/<name>.c (an LD_PRELOAD library)."""
    src = os.path.join(HARN, "shim", name + ".c")
    os.makedirs(TARGET, exist_ok=True)
    out = os.path.join(TARGET, "shim-%s-%s.so" % (name, hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]))
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout)
            raise ToolError("shim %s does not compile" % name)
        os.rename(tmp, out)
    return out


class Scratch:
    """A scratch directory under /verif/work removed at exit."""

    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix=name + "-", dir=WORK)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


class Worker:
    def __init__(self, binary, scratch, env=None):
        self.binary, self.scratch, self.env = binary, scratch, env or {}
        self.p = None

    def start(self):
        e = dict(os.environ)
        e["JV_SCRATCH"] = self.scratch
        e.setdefault("RUST_BACKTRACE", "0")
        e.update(self.env)
        self.p = subprocess.Popen([self.binary, "worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=e, cwd=self.scratch, start_new_session=True)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

    def run(self, case, timeout):
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        try:
            self.p.stdin.write(json.dumps(case).encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while True:
            nl = self.buf.find(b"\n")
            if nl >= 0:
                line, self.buf = self.buf[:nl], self.buf[nl + 1:]
                return json.loads(line)
            left = end - time.time()
            if left <= 0:
                self.stop()
                return {"id": case.get("id"), "outcome": "hang", "panics": 0}
            r, _, _ = select.select([fd], [], [], min(left, 1.0))
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    rc = self.p.wait()
                    self.stop()
                    return {"id": case.get("id"), "outcome": "crash", "rc": rc, "panics": 0}
                self.buf += d


class Pool:
    """Runs cases on worker processes; crashes and hangs become outcomes."""

    def __init__(self, binary, scratch, n=None, timeout=60, env=None):
        self.timeout = timeout
        self.q = queue.Queue()
        self.n = n or NCPU
        for _ in range(self.n):
            self.q.put(Worker(binary, scratch, env))

    def one(self, case, timeout=None):
        w = self.q.get()
        try:
            return w.run(case, timeout or self.timeout)
        finally:
            self.q.put(w)

    def map(self, cases, timeout=None):
        with concurrent.futures.ThreadPoolExecutor(self.n) as ex:
            return list(ex.map(lambda c: self.one(c, timeout), cases))

    def close(self):
        while not self.q.empty():
            self.q.get().stop()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def tlc_cp():
    for l in open(shutil.which("tlc")):
        m = re.search(r"-cp\s+(\S+)", l)
        if m:
            return m.group(1).strip('"')
    return JAVA_CP


def tlc(module, cfg, env=None, workers=None, timeout=800, heap="6g", extra=(), deadlock=False, quiet=True):
    """Run TLC on spec/<module>.tla with spec/<cfg>. Returns dict(ok, states, distinct, out, depth)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=WORK if os.path.isdir(WORK) else (os.makedirs(WORK) or WORK))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", tlc_cp(), "tlc2.TLC", "-cleanup", "-noGenerateSpecTE",
           "-workers", str(workers or NCPU), "-metadir", meta, "-config", cfg]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    res = {"rc": r.returncode, "out": out, "states": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0,
           "depth": int(d.group(1)) if d else 0, "wall": time.time() - t}
    res["ok"] = r.returncode == 0 and "Model checking completed. No error has been found" in out
    return res


def tlc_ok(module, cfg, **kw):
    """A model-checking run that must succeed (the design itself)."""
    r = tlc(module, cfg, **kw)
    if not r["ok"]:
        print(r["out"][-4000:])
        raise ToolError("model %s/%s is not correct (rc=%d)" % (module, cfg, r["rc"]))
    log("TLC %s/%s: %d states, %d distinct, %.1fs" % (module, cfg, r["states"], r["distinct"], r["wall"]))
    return r


def tlc_emit(module, cfg, **kw):
    """A model-checking run that must succeed and prints the cases to replay ("CASE {json}")."""
    kw.setdefault("workers", 4)
    r = tlc_ok(module, cfg, **kw)
    cases = []
    for l in r["out"].splitlines():
        if l.startswith('"CASE '):
            cases.append(json.loads(json.loads(l)[5:]))
    if not cases:
        raise ToolError("%s/%s emitted no case" % (module, cfg))
    return cases, r


def model(chk, module, cfg, **kw):
    """Exhaustive check of a design model; counted in the evidence."""
    r = tlc_ok(module, cfg, **kw)
    chk.add(states=r["distinct"], transitions=r["states"], models_checked=1)
    return r


def model_bad(chk, module, cfg, **kw):
    """A planted design fault: TLC must find the violation (the specification has teeth)."""
    r = tlc(module, cfg, **kw)
    if not re.search(r"(Invariant|Temporal properties|property) .*violated|Deadlock reached|is violated", r["out"]):
        print(r["out"][-3000:])
        raise ToolError("model %s/%s: the planted design fault is not found" % (module, cfg))
    log("TLC %s/%s: the planted design fault is found" % (module, cfg))
    chk.add(states=r["distinct"], transitions=r["states"], design_faults_found=1)


def tlc_trace(module, events, tag, cfg=None, heap="6g", timeout=800, keep=None):
    """Trace validation: every event of `events` must be accepted by <module>'s next-state relation, in order.
    Returns (accepted_count, tlc result). The trace specification consumes event l at state l."""
    os.makedirs(WORK, exist_ok=True)
    fd, p = tempfile.mkstemp(prefix=tag + "-", suffix=".ndjson", dir=WORK)
    with os.fdopen(fd, "w") as f:
        for ev in events:
            f.write(json.dumps(ev, separators=(",", ":")) + "\n")
    try:
        r = tlc(module, cfg or module + ".cfg", env={"TRACE": p}, workers=1, timeout=timeout, heap=heap)
    finally:
        if keep is None:
            os.unlink(p)
    m = re.search(r"TRACE-ACCEPTED (\d+) OF (\d+)", r["out"])
    if not m:
        print(r["out"][-4000:])
        raise ToolError("trace specification %s failed to run" % module)
    acc, tot = int(m.group(1)), int(m.group(2))
    if tot != len(events):
        raise ToolError("trace specification %s read %d of %d events" % (module, tot, len(events)))
    return acc, r


def tlc_cases(module, events, tag, cfg=None, heap="4g", timeout=800, jobs=None):
    """Independent cases (each event judged by itself): returns indexes of the rejected events.
    Batches run in parallel TLC processes; the spec prints the indexes it rejects."""
    if not events:
        return [], {"states": 0, "distinct": 0}
    jobs = jobs or min(6, max(1, len(events) // 50 + 1))
    size = (len(events) + jobs - 1) // jobs
    chunks = [(i, events[i:i + size]) for i in range(0, len(events), size)]

    def go(ch):
        base, evs = ch
        bad, at, tot = [], 0, {"states": 0, "distinct": 0}
        while at < len(evs):
            fd, p = tempfile.mkstemp(prefix=tag + "-", suffix=".ndjson", dir=WORK if os.path.isdir(WORK) else None)
            with os.fdopen(fd, "w") as f:
                for ev in evs[at:]:
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")
            try:
                r = tlc(module, cfg or module + ".cfg", env={"TRACE": p}, workers=1, timeout=timeout, heap=heap)
            finally:
                os.unlink(p)
            bad += [base + at + int(x) - 1 for x in re.findall(r"CASE-REJECTED (\d+)", r["out"])]
            for k in tot:
                tot[k] += r[k]
            if bad:
                log("clauses:", sorted(set(re.findall(r"CLAUSE ([^\"]+)", r["out"]))))
            m = re.search(r"CASES-JUDGED (\d+)", r["out"])
            if m and int(m.group(1)) == len(evs) - at and r["ok"]:
                break
            # an event for which an operator has no value is not a behaviour of the specification either
            pos = re.findall(r"^l = (\d+)", r["out"], re.M)
            if "The behavior up to this point is" not in r["out"] and "The error occurred when" not in r["out"] or not pos:
                print(r["out"][-2500:])
                raise ToolError("case specification %s failed to run" % module)
            log("specification undefined on event", base + at + int(pos[-1]) - 1,
                (re.search(r"Error: (?!The behavior)(.{0,300})", r["out"], re.S) or [0, ""])[1].replace("\n", " "))
            bad.append(base + at + int(pos[-1]) - 1)
            at += int(pos[-1])
        return bad, tot

    bad, states = [], {"states": 0, "distinct": 0}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for b, r in ex.map(go, chunks):
            bad += b
            states["states"] += r["states"]
            states["distinct"] += r["distinct"]
    return sorted(set(bad)), states


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop, level, title=""):
        self.prop, self.level = prop, level
        self.viol = []
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.known_hit = set()
        os.makedirs(WORK, exist_ok=True)

    def violation(self, what, replay):
        """replay: any JSON value with what is needed to see the failure again. `key` identifies known findings."""
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay, "seed": SEED, "tier": TIER}, f, indent=1)
        self.viol.append({"what": what, "replay": p})
        if len(self.viol) <= 8:
            log("violation:", what[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def finish(self):
        for kid, what in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        cov = dict(self.cov)
        cov.setdefault("samples", self.samples or ["-"])
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - T0, 1), "assumptions": self.assumptions,
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s: %s" % (self.prop, "VIOLATED (%d)" % len(self.viol) if self.viol else "held"), json.dumps(
            {k: v for k, v in cov.items() if k != "samples"}))
        return 1 if self.viol else 0


def main(fn, prop, level):
    c = Check(prop, level)
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        print("TOOL-ERROR", e, flush=True)
        rc = 1 if c.viol else 2
        if c.viol:
            c.finish()
    sys.exit(rc)
