"""Building the harness, executing sessions on the real code, running TLC."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# core: analyses and grids; real, small: data files, with read buffers as in the code or of 4 steps;
# python, pysmall: the library Python loads, with read buffers as in the code or of 4 steps
HARNESS = {"core": os.path.join(BUILD, "target", "debug", "up4harness"),
           "real": os.path.join(BUILD, "up4io-real"), "small": os.path.join(BUILD, "up4io-small"),
           "python": os.path.join(BUILD, "libup4.so"), "pysmall": os.path.join(BUILD, "libup4small.so")}
IO_KINDS = ("reader", "convert")
INTERPRETER = "/opt/veriftools/pyvenv/bin/python"
REPO = os.environ.get("UP4_REPO", "/repo")


def binary(session):
    if session["kind"] in ("python", "pyconvert"):
        return "pysmall" if session.get("small") else "python"
    if session["kind"] not in IO_KINDS:
        return "core"
    return "small" if session.get("small") else "real"


class Broken(Exception):
    """The machinery itself could not do its work (exit 2)."""


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, text=True, errors="replace",
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def cargo_env():
    env = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
           "CARGO_TARGET_DIR": os.path.join(BUILD, "target"), "PYO3_PYTHON": "/usr/bin/python3",
           "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "RUSTC_WRAPPER": "",
           "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
           "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "")}
    return env


def mirror(what):
    r = sh([sys.executable, os.path.join(VERIF, "bin", "sync_core.py"), what])
    if r.returncode:
        raise Broken("mirroring /repo failed:\n" + r.stdout)


def build(io=False, small=False):
    """Mirrors /repo's current tree and builds the harness (for data files: both; io="python": the
    library for Python, with small read buffers if asked for) against it."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if io == "python":
            mirror("full")
            name = "pysmall" if small else "python"
            r = sh(["cargo", "build", "--offline", "--quiet", "--lib"] + (["--features", "up4_small_buffer"] if small else []),
                   env=cargo_env(), cwd=os.path.join(BUILD, "up4full"))
            if r.returncode:
                raise Broken("building the library for Python from /repo failed:\n" + r.stdout[-6000:])
            shutil.copy2(os.path.join(BUILD, "target", "debug", "libupppp_rust.so"), HARNESS[name] + ".new")
            os.replace(HARNESS[name] + ".new", HARNESS[name])
            return []
        if io:
            # converters that do not compile leave the data managers
            for what, part in (("io", "convert"), ("readers", "")):
                mirror(what)
                for name, features in (("small", "small"), ("real", "")):
                    r = sh(["cargo", "build", "--offline", "--quiet", "--no-default-features", "--features",
                            features + "," + part], env=cargo_env(), cwd=os.path.join(VERIF, "harness_io"))
                    if r.returncode:
                        break
                    shutil.copy2(os.path.join(BUILD, "target", "debug", "up4io"), HARNESS[name] + ".new")
                    os.replace(HARNESS[name] + ".new", HARNESS[name])
                else:
                    return [part]
                first = r.stdout if part else first
            raise Broken("building the harness for data files against /repo failed:\n" + first[-6000:])
        mirror("core")
        # a change to private code that a hook calls costs only the checks that need this hook
        for features in ("compare,rotate", "compare", "rotate", ""):
            r = sh(["cargo", "build", "--offline", "--quiet", "--no-default-features", "--features", features],
                   env=cargo_env(), cwd=os.path.join(VERIF, "harness"))
            if r.returncode == 0:
                return features.split(",")
            first = r.stdout if features == "compare,rotate" else first
        raise Broken("building the harness against /repo failed:\n" + first[-6000:])


def workdir(name):
    d = os.path.join(BUILD, "work", name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def write_sessions(path, sessions):
    with open(path, "w") as f:
        for s in sessions:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")


def read_lines(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def execute(sessions, work, name):
    """Runs the sessions on the real code; returns them with what the code produced. A session
    that ends or hangs the harness process is an outcome as well."""
    src, dst = os.path.join(work, name + ".in.ndjson"), os.path.join(work, name + ".log.ndjson")
    write_sessions(src, sessions)
    which = binary(sessions[0])
    cmd, env = [HARNESS[which], src, dst], {}
    if which in ("python", "pysmall"):
        cmd = [INTERPRETER, os.path.join(VERIF, "harness_py", "driver.py"), src, dst]
        env = {"UP4_LIB": HARNESS[which], "UP4_REPO": REPO}
    try:
        r = sh(cmd, env=env, cwd=work, timeout=300)
    except subprocess.TimeoutExpired:
        r = None
    if r is None or r.returncode:
        if r is not None and r.returncode == 3:
            raise Broken("harness: " + r.stdout[-2000:])
        done = read_complete(dst)
        raise Crash(sessions[len(done)] if len(done) < len(sessions) else {},
                    "hangs" if r is None else "ended with %d: %s" % (r.returncode, r.stdout[-500:]))
    return dst


class Crash(Exception):
    """The real code ended (abort, stack overflow) or hung on a session."""

    def __init__(self, session, what):
        Exception.__init__(self, what)
        self.session = session


def read_complete(path):
    out = []
    try:
        with open(path) as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    break
    except OSError:
        pass
    return out


REFUSED = re.compile(r'<<\s*"REJECTED",\s*(\d+)')


class Tlc:
    def __init__(self, out, ended=0):
        self.out, self.ended = out, ended
        self.ok = "Model checking completed. No error has been found." in out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.invariant = re.search(r"(Invariant|Temporal properties|Action property) ?(\S+)? (is|were) violated", out)

    def sessions(self):
        """What the model printed for the implementation."""
        out = []
        for line in self.out.splitlines():
            if line.startswith('"SESSION '):
                out.append(json.loads(json.loads(line)[8:]))
        return out


def tlc(module, cfg, work, tag, again=True, **kw):
    t = run_tlc(module, cfg, work, tag, **kw)
    if t.ended < 0 and not REFUSED.search(t.out) and again:     # something else ended it
        return tlc(module, cfg, work, tag, again=False, **kw)
    return t


def run_tlc(module, cfg, work, tag, env=None, workers=1, mem="1500m", timeout=850, extra=()):
    meta = os.path.join(work, "tlc-" + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + mem, "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, module]
    out = os.path.join(work, "tlc-" + tag + ".out")
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=f, stderr=subprocess.STDOUT)
    end, refused = time.time() + timeout, None
    while True:
        try:
            p.wait(0.05 if refused is None else 1)
            break
        except subprocess.TimeoutExpired:
            pass
        # a refused trace is decided: what was expected there is only reported when that is quick
        if refused is None and module.startswith("Trace") and REFUSED.search(open(out, errors="replace").read()):
            refused = time.time()
        if time.time() > end or refused and time.time() > refused + 20:
            p.kill()
            p.wait()
            break
    text = open(out, errors="replace").read()
    shutil.rmtree(meta, ignore_errors=True)
    if p.returncode == -9 and refused is None and time.time() > end:
        raise Broken("TLC did not finish on %s" % module)
    return Tlc(text, p.returncode)


def model_check(module, cfg, work, workers=4, **kw):
    t = tlc(module, cfg, work, "mc-" + os.path.splitext(os.path.basename(cfg))[0], workers=workers,
            env={"EMIT": "1"}, **kw)
    if not t.ok:
        raise Broken("the specification %s (%s) violates its own invariants:\n%s" % (module, cfg, t.out[-3000:]))
    return t


def rejected(t):
    """Whether the trace was refused, as opposed to TLC failing."""
    if t.ok:
        return False
    if REFUSED.search(t.out):
        return True
    raise Broken("TLC failed on a trace (%d):\n%s" % (t.ended, t.out[-3000:]))


def validate(module, log, work, tag):
    return tlc(module, "Trace.cfg", work, tag, env={"TRACE": log})


class Outcome:
    """Validated sessions, TLC's counts, and what was refused."""

    def __init__(self):
        self.sessions, self.states, self.transitions, self.bad, self.logs = 0, 0, 0, [], []

    def add(self, other):
        self.sessions += other.sessions
        self.states += other.states
        self.transitions += other.transitions
        self.bad += other.bad
        self.logs += other.logs
        return self


def one_chunk(module, sessions, work, tag):
    """Executes sessions and validates their trace. A session that ends the process is refused."""
    o = Outcome()
    try:
        log = execute(sessions, work, tag)
    except Crash as e:
        o.bad.append({"module": module, "session": e.session, "report": "the code under test " + str(e)})
        return o
    t = validate(module, log, work, tag)
    o.sessions, o.states, o.transitions = len(sessions), t.distinct, t.generated
    if rejected(t):
        o.bad.append(locate(module, log, t))
        o.sessions = 0
    else:
        o.logs.append(log)
    return o


def validate_all(module, sessions, work, name, jobs=6, size=1200):
    """Executes the sessions and validates the recorded traces, in chunks."""
    chunks = []
    for which in HARNESS:
        mine = [s for s in sessions if binary(s) == which]
        n = max(1, min(jobs, len(mine)), -(-len(mine) // size))
        chunks += [mine[k::n] for k in range(n) if mine]
    n = len(chunks)
    out = Outcome()
    with cf.ThreadPoolExecutor(max(1, min(n, jobs))) as ex:
        for o in ex.map(lambda k: one_chunk(module, chunks[k], work, "%s-%d" % (name, k)), range(n)):
            out.add(o)
    return out


def locate(module, log, t):
    """The session a trace was rejected at, as a replayable file content."""
    m = REFUSED.search(t.out)
    if not m:
        raise Broken("no rejected session in TLC's output:\n" + t.out[-3000:])
    session = read_lines(log)[int(m.group(1)) - 1]
    i = t.out.find('"REJECTED"')
    return {"module": module, "session": session, "report": t.out[max(0, i - 400):i + 1500]}


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]
