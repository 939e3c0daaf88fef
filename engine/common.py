"""Build of the code under test, process runner, evidence and violation plumbing."""
import fcntl, hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp
import multiprocessing.connection

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CPUS = int(os.environ.get("VERIF_CPUS", "0") or 0) or min(8, os.cpu_count() or 8)


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ build
def cargo_env(kind):
    env = {k: v for k, v in os.environ.items() if k in ("LANG", "TERM", "TMPDIR")}
    env.update(HOME="/root", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin",
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(BUILD, kind))
    return env


def build(kind="dbg"):
    """Build hush from /repo's working tree; returns the path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, kind)
    env = cargo_env(kind)
    if kind == "dbg":
        env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        cmd = ["cargo", "build", "--offline", "--quiet"]
        sub = "debug"
    elif kind == "asan":
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=address --cfg hush_verif"
        env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
        cmd = ["cargo", "build", "--offline", "--quiet", "--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/debug"
    elif kind == "gc":
        env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        env["RUSTFLAGS"] = "--cfg hush_verif"
        cmd = ["cargo", "build", "--offline", "--quiet"]
        sub = "debug"
    else:
        raise ValueError(kind)
    with open(os.path.join(BUILD, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fp = os.path.join(target, sub, ".fingerprint")
        if os.path.isdir(fp):   # src/runtime/lib is listed by a macro that cargo does not track
            for d in os.listdir(fp):
                if d.startswith("hush-"): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        binary = os.path.join(target, sub, "hush")
        if p.returncode != 0 or not os.path.exists(binary):
            sys.stdout.write(p.stdout.decode("utf-8", "replace")[-4000:])
            raise HarnessError("build failed (%s)" % kind)
    return binary


# ------------------------------------------------------------------ limits
def set_limits():
    """Limits inherited by everything a worker starts."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 1 << 30
    if hard != resource.RLIM_INFINITY: want = min(want, hard)
    try: resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except (ValueError, OSError): pass


# ------------------------------------------------------------------ runner
LIVE = set()      # process groups this process has running


class Res:
    __slots__ = ("status", "out", "err", "timeout", "stuck", "spin", "dur", "cpu")
    def crash(self):
        """Interpreter-level failure: killed by a signal or a Rust panic."""
        return self.status is not None and (self.status < 0 or self.status == 101 or b"panicked at" in self.err)
    def brief(self):
        return "status=%s timeout=%s stuck=%s\n--- stdout\n%s\n--- stderr\n%s" % (
            self.status, self.timeout, self.stuck, self.out.decode("utf-8", "replace")[-6000:], self.err.decode("utf-8", "replace")[-3000:])


def _group(pgid):
    """pids of the session/process group."""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d, "rb") as f: s = f.read()
                rest = s[s.rindex(b")") + 2:].split()
                if int(rest[3]) == pgid or int(rest[2]) == pgid:
                    out.append((int(d), rest[0].decode(), int(rest[11]) + int(rest[12])))
            except (OSError, ValueError, IndexError):
                pass
    return out


def _cpu():
    u = resource.getrusage(resource.RUSAGE_CHILDREN)
    return u.ru_utime + u.ru_stime


def run(cmd, stdin=b"", env=None, cwd=None, timeout=60, stdin_file=None, cpu=None):
    """Run a command in its own session with a watchdog. At the watchdog the process group is
    examined: `stuck` is True when every process of it sleeps and none consumes CPU for 5 seconds
    (a deadlock), or when it has used 30 seconds of CPU time, many times more than any of the
    workloads needs (`spin`: it runs forever); else the outcome is inconclusive."""
    r = Res(); r.timeout = r.stuck = r.spin = False
    t0 = time.monotonic(); c0 = _cpu()
    kw = {}
    if stdin_file is not None: kw["stdin"] = stdin_file
    elif stdin is None: kw["stdin"] = subprocess.DEVNULL
    else: kw["stdin"] = subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
                         start_new_session=True, **kw)
    LIVE.add(p.pid)
    inp = stdin if kw["stdin"] == subprocess.PIPE else None
    try:
        r.out, r.err = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        a = _group(p.pid); time.sleep(5); b = _group(p.pid)
        if b and all(s in "SDZ" for _, s, _ in b) and sum(c for _, _, c in a) == sum(c for _, _, c in b) \
                and {x[0] for x in a} == {x[0] for x in b}:
            r.stuck = True
        elif sum(c for _, _, c in b) >= 30 * os.sysconf("SC_CLK_TCK"): r.stuck = r.spin = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        try: r.out, r.err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired: r.out, r.err = b"", b""
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    LIVE.discard(p.pid)
    r.status = p.returncode
    r.cpu = _cpu() - c0
    if not r.timeout and r.cpu > W.get("max_cpu", 0): W["max_cpu"] = r.cpu
    r.dur = time.monotonic() - t0
    return r


BASE_ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent-home", "LANG": "C.UTF-8",
            "RUST_BACKTRACE": "0", "LC_ALL": "C.UTF-8"}

# per-worker state
W = {}


def _end(*_):
    for pid in list(LIVE):
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
    os._exit(0)


def _worker(conn, others, func, tmp, binary, extra):
    for o in others:
        try: o.close()
        except Exception: pass
    signal.signal(signal.SIGTERM, _end)
    try:
        _init(tmp, binary, extra)
        while True:
            try: batch = conn.recv()
            except EOFError: break
            try: out = [func(x) for x in batch]
            except Exception: out = traceback.format_exc()
            else: out[-1]["max_cpu"] = W.get("max_cpu", 0)
            conn.send(out)
    finally: os._exit(0)


def _init(tmp, binary, extra):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    set_limits()
    sys.setrecursionlimit(20000)
    W["tmp"] = os.path.join(tmp, "w%d" % os.getpid())
    os.makedirs(W["tmp"], exist_ok=True)
    W["hush"] = binary
    W.update(extra or {})
    if "asan" not in W:     # a runaway allocation ends that process, not the sandbox (AddressSanitizer reserves address space)
        try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        except (ValueError, OSError): pass


def _probe(item):
    func, arg = item
    r = func(arg)
    if r is None: return {"ok": True, "inconclusive": "watchdog"}
    return {"ok": True, "evals": 1, "stats": {"known_inputs_probed": 1}, "probe": r}


def _exhaust(item):
    script, fine, crash = item
    path = os.path.join(W["tmp"], "deep.hsh")
    with open(path, "wb") as f: f.write(script)
    r = run(["/bin/sh", "-c", 'ulimit -s 8192 && exec "$@"', "sh", W["hush"], path], env=dict(BASE_ENV), timeout=60)
    if r.timeout and not r.stuck: return None
    return {"known": r.status == crash[0] and crash[1] in r.err, "fine": (r.status, r.out) in fine, "desc": r.brief(),
            "files": {"program.hsh": script, "stderr.txt": r.err}}


def scratch():
    """Fresh scratch directory for a case."""
    return tempfile.mkdtemp(dir=W["tmp"])


def hush(script, args=(), stdin=b"", env=None, cwd=None, timeout=60, flags=(), binary=None, name="t.hsh"):
    """Run a script (bytes) from a file in the worker's scratch directory."""
    path = os.path.join(cwd or W["tmp"], name)
    with open(path, "wb") as f: f.write(script)
    e = dict(BASE_ENV)
    if env: e.update(env)
    cmd = [binary or W["hush"], *flags, path, *args]
    return run(cmd, stdin=stdin, env=e, cwd=cwd or W["tmp"], timeout=timeout)


# ------------------------------------------------------------------ check context
# The quick tier's amounts, multiplied, so that each check takes about half a minute to a minute on 8 cores.
SCALE = {"C01": 2, "C02": 2, "C03": 2, "C04": 2, "C05": 2, "C06": 2, "C08": 2, "C10": 2, "C11": 3, "C13": 2, "C14": 2, "C15": 3, "C16": 3,
         "C17": 4, "C18": 1.3, "C19": 2, "C20": 1.5, "C21": 2, "C23": 1.5}


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.t0 = time.monotonic()
        self.seed, self.tier = SEED, TIER
        self.quick = TIER != "thorough"
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.viol = []
        self.inconclusive = []
        self.known = []
        self.probed = None
        self.tmp = tempfile.mkdtemp(prefix="hushverif-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.binary = None
        self.rule = ""
        self.assumptions = []
        self.replay_n = 0

    def rng(self, *salt):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def n(self, quick, thorough):
        return int(quick * SCALE.get(self.prop, 1)) if self.quick else thorough

    def cap(self, quick, thorough):
        return quick if self.quick else thorough

    def add(self, stat, k=1):
        self.stats[stat] = self.stats.get(stat, 0) + k

    def report(self, desc, files, confirm=None):
        """Record a violation; files: {name: bytes} for the replay directory."""
        self.replay_n += 1
        if self.replay_n > 5: self.viol.append(None); return
        d = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d-%d" % (self.prop, self.tier, self.seed, self.replay_n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, c in files.items():
            with open(os.path.join(d, n), "wb") as f: f.write(c if isinstance(c, bytes) else str(c).encode("utf-8", "replace"))
        with open(os.path.join(d, "violation.txt"), "w", errors="replace") as f: f.write(desc + "\n")
        self.viol.append((desc, d))
        print("violation of %s: %s" % (self.prop, desc.replace("\n", "\n    ")[:3000]))
        sys.stdout.flush()

    def map(self, func, items, extra=None, cap=None, stop_after=3, chunk=1, procs=None):
        """Run func over items in worker processes. func returns a dict:
        ok (bool), [evals], [distinct: iterable of strings], [stats: {}], [sample], [desc], [files],
        [inconclusive: text]. Stops early once stop_after violations were confirmed or at cap seconds."""
        t0 = time.monotonic()
        # the quick tier as a whole ends well before the 900 s it is given, however slow the machine
        if self.quick: cap = min(cap or 600, max(10, 600 - (t0 - self.t0)))
        ctx = mp.get_context("fork")
        src = iter(items)
        workers = {}                    # connection -> [process, deadline]
        done = 0

        def feed(conn):
            batch = []
            for _ in range(chunk):
                try: batch.append(next(src))
                except StopIteration: break
            if not batch: return False
            conn.send(batch); workers[conn][1] = time.monotonic() + 1200
            return True

        def start():
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(b, [a] + list(workers), func, self.tmp, self.binary, extra), daemon=True)
            p.start(); b.close()
            workers[a] = [p, None]
            return a

        def drop(conn):
            p = workers.pop(conn)[0]
            conn.close()
            try: p.terminate()
            except Exception: pass
            p.join(5)
            if p.is_alive(): p.kill(); p.join(5)

        try:
            for _ in range(procs or CPUS):
                c = start()
                if not feed(c): drop(c); break
            stop = False
            while workers and not stop:
                now = time.monotonic()
                if cap and now - t0 > cap + 120:
                    self.add("stopped_at_time_cap"); self.add("inconclusive"); self.inconclusive.append("no answer from a worker 120 s after the time cap"); break
                for conn in [k for k, v in workers.items() if v[1] < now]:
                    self.add("inconclusive"); self.inconclusive.append("worker gave no answer in 1200 s"); drop(conn)
                for conn in mp.connection.wait(list(workers), timeout=5):
                    try: rs = conn.recv()
                    except (EOFError, ConnectionError):
                        self.add("inconclusive"); self.inconclusive.append("worker died"); drop(conn)
                        if len(self.inconclusive) > 50: raise HarnessError("workers keep dying")
                        c = start()
                        if not feed(c): drop(c)
                        continue
                    if isinstance(rs, str): raise HarnessError("in a worker:\n" + rs)
                    for r in rs:
                        done += 1
                        self.take(r)
                        if len([v for v in self.viol]) >= stop_after: stop = True
                    if stop: break
                    if cap and time.monotonic() - t0 > cap:
                        self.add("stopped_at_time_cap"); stop = True; break
                    if not feed(conn): drop(conn)
        finally:
            for conn in list(workers):
                try: workers[conn][0].terminate()
                except Exception: pass
            for conn in list(workers): drop(conn)
        return done

    def take(self, r):
        if "probe" in r: self.probed = r["probe"]
        self.evals += r.get("evals", 1)
        self.stats["max_cpu_s"] = max(self.stats.get("max_cpu_s", 0), round(r.get("max_cpu", 0), 2))
        for d in r.get("distinct", ()):
            self.distinct.add(hashlib.blake2b(d.encode("utf-8", "replace") if isinstance(d, str) else d, digest_size=8).digest())
        for k, v in r.get("stats", {}).items(): self.add(k, v)
        if r.get("sample") is not None and len(self.samples) < 5: self.samples.append(r["sample"])
        if r.get("inconclusive"):
            self.add("inconclusive"); self.inconclusive.append(r["inconclusive"][:300])
        if not r.get("ok", True): self.report(r["desc"], r.get("files", {}))

    def probe(self, key, func, item, extra=None):
        """Run func(item) in a worker: a probe of one specific input on which the tree is known to fail. It returns {"fine", "known",
        "desc", "files"}: fine - the property holds there; known - it fails in the way known_findings.txt lists under this key.
        Anything else is a violation like any other, and so is the known failure once it is not listed."""
        self.probed = None
        self.map(_probe, [(func, item)], extra=extra)
        r = self.probed
        if r is None or r["fine"]: return
        listed = [l[7:].strip() for l in open(os.path.join(VERIF, "known_findings.txt")) if l.startswith("known: property=%s %s " % (self.prop, key))]
        if r["known"] and listed: self.known_finding(listed[0].split(" ", 1)[1])
        else: self.report("%s: %s" % (key, r["desc"]), r["files"])

    def exhaust(self, key, script, fine, crash=(-6, b"overflowed its stack")):
        """A text or recursion so deep that the machine stack (8 MiB here) cannot hold it. fine: the accepted (status, stdout) pairs."""
        self.probe(key, _exhaust, (script, fine, crash))

    def known_finding(self, text):
        self.known.append(text)
        print("KNOWN-FINDING: property=%s %s" % (self.prop, text))

    def finish(self):
        wall = time.monotonic() - self.t0
        ev = {"property": self.prop, "tier": "thorough" if not self.quick else "quick", "seed": self.seed,
              "level": self.level, "wall_s": round(wall, 2), "violations": len(self.viol),
              "assumptions": self.assumptions,
              "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples or ["(none)"],
                           "observed": self.stats, "inconclusive": self.inconclusive[:10],
                           "known_findings": self.known}}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f: json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.viol:
            for v in self.viol:
                if v: print("VIOLATION property=%s replay=%s" % (self.prop, v[1]))
            return 1
        # A run that observed nothing decides nothing.
        if self.evals == 0 or len(self.distinct) == 0:
            print("harness error: nothing was observed")
            return 3
        if len(self.inconclusive) > max(5, self.evals // 20):
            print("harness error: too many inconclusive executions: %s" % self.inconclusive[:3])
            return 3
        print("%s: held on %d evaluations (%d distinct), %.1f s" % (self.prop, self.evals, len(self.distinct), wall))
        return 0
