"""Shared machinery: building fixtures, running TLC, turning TLC's state graph
into covering behaviours, replaying behaviours, reporting and evidence."""
import fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
JAVA_HOME = "/usr/lib/jvm/java-17-openjdk-amd64"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery itself failed: exit 2, never a verdict."""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", JAVA_HOME=JAVA_HOME, PYTHONDONTWRITEBYTECODE="1",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_INCREMENTAL="1", RUST_BACKTRACE="0",
             PATH="/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin:" + os.environ.get("PATH", ""))
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    return e


def run(cmd, timeout=600, cwd=None, extra_env=None, stdin=None):
    e = env()
    e.update(extra_env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           input=stdin, text=True, errors="replace")
    except subprocess.TimeoutExpired as x:
        raise ToolError("timeout: %s" % (cmd,)) from x
    return p


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.lock = threading.RLock()
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.level = "model_checking"
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        kf = os.path.join(VERIF, "known_findings.json")
        self.known_list = [k for k in json.load(open(kf)) if k["property"] == pid and k.get("status") == "known"] if os.path.exists(kf) else []

    quick = property(lambda s: s.tier != "thorough")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def is_known(self, signature):
        for k in self.known_list:
            if k["signature"] == signature:
                if k["signature"] not in self.known:
                    self.known.append(k["signature"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return True
        return False

    def violation(self, what, replay, signature=None):
        """Record a violation. `signature` identifies input/call site/history for known findings."""
        with self.lock:
            self._violation(what, replay, signature)

    def _violation(self, what, replay, signature):
        if signature is not None and self.is_known(signature):
            return
        self.violations.append(what)
        if len(self.violations) > 5:
            return
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "what": what,
                       "signature": signature, "replay": replay}, f, indent=1, default=str)
        print("violation:", what[:1500], flush=True)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def sample(self, s, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def add_tlc(self, st):
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]
        self.cov.setdefault("models", []).append({k: st[k] for k in st if k not in ("edges", "init")})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.pid, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.log("done: violations=%d states=%d transitions=%d traces=%d" % (
            len(self.violations), self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"]))
        return 1 if self.violations else 0


# ---------------------------------------------------------------- building
class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


class BuildBroken(Exception):
    """flapigen itself builds, the fixture generated/compiled with it does not."""
    def __init__(self, stage, log):
        super().__init__(stage)
        self.stage, self.log = stage, log


def cargo(args, crate, timeout=800, extra_env=None):
    return run(["cargo"] + args + ["--offline", "--manifest-path", os.path.join(HARNESS, crate, "Cargo.toml")],
               timeout=timeout, extra_env=extra_env)


def build_flapigen(crate):
    """Build only the library (host, as build-dependency or dependency) to tell its breakage from a fixture's."""
    p = run(["cargo", "build", "--offline", "-p", "flapigen", "--manifest-path", os.path.join(HARNESS, crate, "Cargo.toml")])
    return p


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, extra=(), workers=4, timeout=600, mem="4g", extra_files=(), env_extra=None):
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), workdir)
    for f in extra_files:
        shutil.copy(f, workdir)
    cfgp = os.path.join(workdir, "run.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + mem, "-cp", TLA_CP, "tlc2.TLC", "-metadir", os.path.join(workdir, "meta"),
           "-workers", str(workers), "-config", "run.cfg", "-noGenerateSpecTE"] + list(extra) + [module + ".tla"]
    e = dict(env_extra or {})
    p = run(cmd, timeout=timeout, cwd=workdir, extra_env=e)
    shutil.rmtree(os.path.join(workdir, "meta"), ignore_errors=True)
    return p


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return None
    return {"transitions": int(m[-1][0]), "states": int(m[-1][1])}


def tla(v):
    """A Python value as a TLA+ expression (str: verbatim TLA; S('x'): string literal)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, S):
        return json.dumps(str(v))
    if isinstance(v, str):
        return v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        if not v:
            return "<<>>"
        return "(" + " @@ ".join("(%s :> %s)" % (tla(S(k) if isinstance(k, str) else k), tla(x)) for k, x in sorted(v.items())) + ")"
    raise ToolError("tla(): %r" % (v,))


class S(str):
    pass


def mc_module(ck, module, constants, tag=""):
    d = os.path.join(BUILD, "mc", ck.pid + tag)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "MC_%s.tla" % module)
    with open(p, "w") as f:
        f.write("---- MODULE MC_%s ----\nEXTENDS %s, TLC\n" % (module, module))
        for k, v in constants.items():
            f.write("def_%s == %s\n" % (k, tla(v)))
        f.write("====\n")
    return p


def explore(ck, module, constants, invariants=(), properties=(), emit=True, spec="Spec", timeout=600, workers=4, mem="4g",
            constraint=None, view=None, mustpass=True, tag=""):
    """Exhaustively model-check `module`; optionally emit every transition as JSON (EmitEdge/EmitInit in the module)."""
    lines = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE"]
    mc = mc_module(ck, module, constants, tag)
    for k in constants:
        lines.append("CONSTANT %s <- def_%s" % (k, k))
    for i in invariants:
        lines.append("INVARIANT " + i)
    for i in properties:
        lines.append("PROPERTY " + i)
    if constraint:
        lines.append("CONSTRAINT " + constraint)
    if view:
        lines.append("VIEW " + view)
    if emit:
        lines.append("INVARIANT EmitInit")
        lines.append("ACTION_CONSTRAINT EmitEdge")
    wd = os.path.join(BUILD, "tlc", ck.pid + "-" + module + tag)
    p = tlc("MC_" + module, "\n".join(lines) + "\n", wd, workers=1 if emit else workers, timeout=timeout, mem=mem, extra_files=[mc])
    st = tlc_stats(p.stdout)
    if st is None or "Error:" in p.stdout or p.returncode != 0:
        if mustpass:
            raise ToolError("TLC on %s failed:\n%s\n%s" % (module, p.stdout[-3000:], p.stderr[-1000:]))
    st = st or {"transitions": 0, "states": 0}
    st["module"] = module
    st["constants"] = {k: str(v)[:300] for k, v in constants.items()}
    st["properties_checked"] = list(invariants) + list(properties)
    if emit:
        edges, init = [], []
        for line in p.stdout.splitlines():
            if line.startswith('"E {'):
                edges.append(json.loads(json.loads(line)[2:]))
            elif line.startswith('"I '):
                init.append(json.loads(json.loads(line)[2:]))
        st["edges"], st["init"] = edges, init
    return st


def enumerate_states(ck, module, constants, invariants=(), timeout=600, tag="", mem="4g"):
    """Every state of a choice model, printed by its Emit invariant as "D {...}"."""
    lines = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
    mc = mc_module(ck, module, constants, tag)
    for k in constants:
        lines.append("CONSTANT %s <- def_%s" % (k, k))
    for i in list(invariants) + ["Emit"]:
        lines.append("INVARIANT " + i)
    wd = os.path.join(BUILD, "tlc", ck.pid + "-" + module + tag)
    p = tlc("MC_" + module, "\n".join(lines) + "\n", wd, workers=1, timeout=timeout, mem=mem, extra_files=[mc])
    st = tlc_stats(p.stdout)
    if st is None or "Error:" in p.stdout or p.returncode != 0:
        raise ToolError("TLC on %s failed:\n%s\n%s" % (module, p.stdout[-3000:], p.stderr[-1000:]))
    st.update(module=module, constants={k: str(v)[:300] for k, v in constants.items()}, properties_checked=list(invariants))
    return [json.loads(json.loads(l)[2:]) for l in p.stdout.splitlines() if l.startswith('"D {')], st


def key(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class Graph:
    def __init__(self, edges, init):
        self.out = {}
        seen = set()
        self.n = 0
        for e in edges:
            k, t = key(e["f"]), key(e["t"])
            s = (k, key(e["a"]), t)
            if s in seen:
                continue
            seen.add(s)
            self.out.setdefault(k, []).append((e["a"], t, e["t"]))
            self.out.setdefault(t, self.out.get(t, []))
            self.n += 1
        for k in self.out:
            self.out[k].sort(key=lambda x: (key(x[0]), x[1]))
        self.init = [key(i) for i in init]

    def tours(self, rng, maxlen=400, limit=None):
        """Walks from an initial state that together take every transition (or until `limit` steps in total)."""
        unc = {k: list(range(len(v))) for k, v in self.out.items()}
        for v in unc.values():
            rng.shuffle(v)
        left = sum(map(len, unc.values()))
        total = 0
        walks = []
        inits = list(self.init)
        while left and inits and (limit is None or total < limit):
            start = cur = rng.choice(inits)
            walk = []
            while len(walk) < maxlen:
                if unc[cur]:
                    i = unc[cur].pop()
                    left -= 1
                    a, t, ts = self.out[cur][i]
                    walk.append((a, ts))
                    cur = t
                    continue
                path = self._to_uncovered(cur, unc, maxlen - len(walk))
                if path is None:
                    break
                for (a, t, ts) in path:
                    walk.append((a, ts))
                    cur = t
            if not walk:
                # nothing uncovered reachable from this one within bounds
                inits.remove(start)
                continue
            walks.append(walk)
            total += len(walk)
        self.uncovered = left
        return walks

    def _to_uncovered(self, src, unc, maxd):
        prev = {src: None}
        q = [src]
        d = 0
        while q and d < maxd:
            nq = []
            for u in q:
                for (a, t, ts) in self.out[u]:
                    if t in prev:
                        continue
                    prev[t] = (u, (a, t, ts))
                    if unc[t]:
                        path = []
                        x = t
                        while prev[x] is not None:
                            path.append(prev[x][1])
                            x = prev[x][0]
                        return path[::-1]
                    nq.append(t)
            q = nq
            d += 1
        return None

    def random_walks(self, rng, n, length):
        walks = []
        for _ in range(n):
            cur = rng.choice(self.init)
            w = []
            for _ in range(length):
                o = self.out[cur]
                if not o:
                    break
                a, t, ts = rng.choice(o)
                w.append((a, ts))
                cur = t
            walks.append(w)
        return walks


def simulate(ck, module, constants, depth, num, seed, spec="SimSpec", timeout=300, invariants=(), tag=""):
    """Random behaviours of the spec: module prints the history (EmitHist) when the level reaches Depth."""
    lines = ["SPECIFICATION %s" % spec, "CHECK_DEADLOCK FALSE", "INVARIANT EmitHist"]
    constants = dict(constants, Depth=depth)
    mc = mc_module(ck, module, constants, "-sim" + tag)
    for k in constants:
        lines.append("CONSTANT %s <- def_%s" % (k, k))
    for i in invariants:
        lines.append("INVARIANT " + i)
    wd = os.path.join(BUILD, "tlc", ck.pid + "-" + module + "-sim" + tag)
    p = tlc("MC_" + module, "\n".join(lines) + "\n", wd, workers=1, timeout=timeout, extra_files=[mc],
            extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)])
    if "Error:" in p.stdout:
        raise ToolError("TLC simulate %s failed:\n%s" % (module, p.stdout[-3000:]))
    hs = []
    for line in p.stdout.splitlines():
        if line.startswith('"H '):
            hs.append(json.loads(json.loads(line)[2:]))
    m = re.findall(r"(\d+) states generated", p.stdout)
    return hs, {"module": module + "(simulate)", "states": int(m[-1]) if m else 0, "transitions": int(m[-1]) if m else 0,
                "constants": {k: str(v) for k, v in constants.items()}}


# ---------------------------------------------------------------- online testing against a (possibly nondeterministic) graph
class Online:
    """Drives a real system along a TLC graph, choosing inputs not taken yet; several workers share the coverage.
    inp(action) -> hashable input; an observed (obs) must match one of the edges of (state, input)."""
    def __init__(self, graph, inp):
        self.g, self.lock = graph, threading.Lock()
        self.edges = {}
        for k, outs in graph.out.items():
            d = self.edges.setdefault(k, {})
            for (a, t, ts) in outs:
                d.setdefault(inp(a), []).append((a, t, ts))
        self.unc = {k: set(d) for k, d in self.edges.items()}
        self.total = sum(map(len, self.unc.values()))
        self.seen = {}
        self.steps = 0

    def left(self):
        return sum(map(len, self.unc.values()))

    def plan(self, cur, rng):
        """Next input at cur, or None if nothing uncovered can be reached."""
        with self.lock:
            if self.unc[cur]:
                i = rng.choice(sorted(self.unc[cur]))
                self.unc[cur].discard(i)
                return i
            prev = {cur: None}
            q = [cur]
            while q:
                nq = []
                for u in q:
                    ins = list(self.edges[u].items())
                    rng.shuffle(ins)
                    for i, outs in ins:
                        for (a, t, ts) in outs:
                            if self.seen.get((u, i), t) != t or t in prev:
                                continue
                            prev[t] = (u, i)
                            if self.unc[t]:
                                while prev[t][0] != cur:
                                    t = prev[t][0]
                                return prev[t][1]
                            nq.append(t)
                q = nq
            return None

    def walk(self, rng, execute, matches, on_bad, deadline=None, max_steps=10 ** 9, restart_every=10 ** 9):
        """execute(inp or None for reset) -> obs; matches(action, state, obs) -> None or message."""
        cur = rng.choice(self.g.init)
        execute(None, None)
        hist = []
        n = 0
        while n < max_steps and (deadline is None or time.time() < deadline):
            i = self.plan(cur, rng)
            if i is None:
                break
            outs = self.edges[cur][i]
            obs = execute(i, outs[0][0])
            n += 1
            hist.append(outs[0][0])
            msgs = []
            for (a, t, ts) in outs:
                m = matches(a, ts, obs)
                if m is None:
                    break
                msgs.append(m)
            else:
                on_bad("; or ".join(sorted(set(msgs))), list(hist), [o[2] for o in outs], obs)
                hist = []
                cur = rng.choice(self.g.init)
                execute(None, None)
                continue
            with self.lock:
                self.seen[(cur, i)] = t
                self.steps += 1
            cur = t
            if len(hist) >= restart_every:
                hist = []
                cur = rng.choice(self.g.init)
                execute(None, None)
        return n


# ---------------------------------------------------------------- replay of behaviours
class DriverDied(Exception):
    pass


def drive(cmd, lines, timeout=300, cwd=None, extra_env=None):
    """Feed lines to a driver which answers each with one line starting '@'. Returns (answers, returncode, stderr tail)."""
    e = env()
    e.update(extra_env or {})
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e)
    errbuf = []

    def feed():
        try:
            p.stdin.write(("\n".join(lines) + "\n").encode())
            p.stdin.close()
        except (BrokenPipeError, OSError):
            pass

    def rderr():
        for l in p.stderr:
            errbuf.append(l)
            if len(errbuf) > 4000:
                del errbuf[1000:2000]
    tf = threading.Thread(target=feed, daemon=True)
    te = threading.Thread(target=rderr, daemon=True)
    tf.start()
    te.start()
    answers = []
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    for raw in p.stdout:
        if raw.startswith(b"@"):
            answers.append(raw[1:].decode("utf-8", "replace").rstrip("\n"))
    p.wait()
    timed_out = not timer.is_alive()
    timer.cancel()
    te.join(5)
    err = b"".join(errbuf).decode("utf-8", "replace")
    return answers, p.returncode, err, timed_out


def replay_walks(ck, cmd, walks, to_line, compare, reset="reset", cwd=None, extra_env=None, timeout=400, what="", end_check=None,
                 signature=None, max_restarts=12):
    """Replay walks [(action, state)]; each answer is JSON. compare(action, state, obs, walk, idx) -> None or message.
    A driver that dies or hangs at a step fails that step."""
    todo = list(range(len(walks)))
    steps = ok_walks = 0
    restarts = 0
    while todo:
        lines, where = [], []
        for wi in todo:
            lines.append(reset)
            where.append((wi, -1))
            for i, (a, s) in enumerate(walks[wi]):
                lines.append(to_line(a))
                where.append((wi, i))
        lines.append(reset)
        where.append((None, -1))
        ans, rc, err, to = drive(cmd, lines, cwd=cwd, extra_env=extra_env, timeout=timeout)
        bad_walks = set()
        for j, a in enumerate(ans):
            if j >= len(where):
                raise ToolError("driver printed too many answers: " + a)
            wi, i = where[j]
            if wi is None or wi in bad_walks:
                continue
            try:
                obs = json.loads(a)
            except ValueError:
                raise ToolError("bad driver answer: %r" % a)
            if i < 0:
                # end of the previous walk: the reset answer reports what was left over
                if end_check and j > 0:
                    m = end_check(obs)
                    if m:
                        pw = where[j - 1][0]
                        _report(ck, what + ": after releasing everything: " + m, walks[pw], len(walks[pw]) - 1, obs, signature)
                continue
            steps += 1
            act, st = walks[wi][i]
            m = compare(act, st, obs)
            if m:
                bad_walks.add(wi)
                _report(ck, "%s: %s" % (what, m), walks[wi], i, obs, signature)
        if end_check and len(ans) == len(where):
            m = end_check(json.loads(ans[-1]))
            if m and where[-2][0] is not None and where[-2][0] not in bad_walks:
                pw = where[-2][0]
                _report(ck, what + ": after releasing everything: " + m, walks[pw], len(walks[pw]) - 1, json.loads(ans[-1]), signature)
        if len(ans) < len(where):
            wi, i = where[len(ans)]
            if wi is None:
                wi = todo[-1]
                i = len(walks[wi]) - 1
            reason = "hung" if to else "died (exit %s)" % rc
            if to and not lines:
                raise ToolError("driver timeout")
            _report(ck, "%s: process %s at this step; stderr: %s" % (what, reason, _tail(err)), walks[wi], max(i, 0), None, signature)
            done_upto = todo.index(wi)
            ok_walks += done_upto - len([w for w in bad_walks if w in todo[:done_upto]])
            todo = todo[done_upto + 1:]
            restarts += 1
            if restarts >= max_restarts or len(ck.violations) > 5:
                break
        else:
            if rc != 0:
                _report(ck, "%s: process exit %s after the last step; stderr: %s" % (what, rc, _tail(err)), walks[todo[-1]], len(walks[todo[-1]]) - 1, None, signature)
            ok_walks += len(todo) - len(bad_walks)
            todo = []
    with ck.lock:
        ck.cov["traces_validated_against_impl"] += ok_walks
        ck.cov["replayed_steps"] = ck.cov.get("replayed_steps", 0) + steps
    return steps


def _tail(err):
    for pat in ("ERROR: AddressSanitizer", "runtime error", "panic: ", "panicked at", "SUMMARY"):
        i = err.find(pat)
        if i >= 0:
            return err[max(0, i - 100):i + 900]
    return err[-800:]


def _report(ck, msg, walk, i, obs, signature):
    sig = signature(walk[i][0], msg) if signature and walk else None
    pre = [a for a, _ in walk[:i + 1]]
    exp = walk[i][1] if walk else None
    ck.violation("%s | step %d action %s expected %s observed %s" % (msg, i, json.dumps(walk[i][0]) if walk else "", json.dumps(exp)[:600], json.dumps(obs)[:600]),
                 {"history": pre, "expected": exp, "observed": obs}, sig)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def main(registry):
    import traceback
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = Check(pid, tier, seed)
    try:
        registry(pid)(ck)
        rc = ck.finish()
    except BuildBroken as b:
        # flapigen compiles, but what it generates for the fixture does not: observable breakage
        ck.violation("the fixture that builds on the unchanged tree no longer builds (%s): %s" % (b.stage, b.log[-1500:]), {"stage": b.stage, "log": b.log[-6000:]})
        rc = ck.finish()
    except ToolError as t:
        print("TOOL ERROR:", t, flush=True)
        rc = 1 if ck.violations else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if ck.violations else 2
    sys.exit(rc)
