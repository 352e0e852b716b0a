"""Shared machinery of the checks: building drivers against /repo, running TLC, reporting."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TARGET = os.path.join(BUILD, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def workdir(name, fresh=True):
    d = os.path.join(BUILD, "work", name)
    if fresh and os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d, exist_ok=True)
    return d


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET,
             CARGO_PROFILE_DEV_DEBUG="0")
    e.setdefault("HOME", "/root")
    e.pop("RUSTFLAGS", None)
    return e


def write_crate(name, main_rs, extra=None, opt=0, release=False):
    """Creates build/crates/<name> with path dependencies on /repo's crates; release: without overflow checks and debug assertions,
    as in a release build."""
    d = os.path.join(BUILD, "crates", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    checks = "overflow-checks = false\ndebug-assertions = false\n" if release else ""
    toml = f'''[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
monoasm = {{ path = "{REPO}/monoasm" }}
monoasm_macro = {{ path = "{REPO}/monoasm_macro" }}

[profile.dev]
debug = 0
opt-level = {opt}
incremental = false
{checks}
[profile.dev.package."*"]
opt-level = 0
'''
    def put(path, text):
        try:
            if open(path).read() == text:
                return
        except OSError:
            pass
        with open(path, "w") as f:
            f.write(text)
    put(os.path.join(d, "Cargo.toml"), toml)
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    put(os.path.join(d, "src", "main.rs"), main_rs)
    for fn, text in (extra or {}).items():
        put(os.path.join(d, "src", fn), text)
    return d


def cargo(crate_dir, cmd="build", timeout=600):
    """Returns (ok, exe, errors); errors: list of (file, line, message)."""
    p = subprocess.run(["cargo", cmd, "--offline", "--message-format=json"], cwd=crate_dir,
                       env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, text=True)
    exe, errs = None, []
    name = os.path.basename(crate_dir)
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m.get("executable") and m["target"]["name"] == name:
            exe = m["executable"]
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            msg = m["message"]
            spans = []
            for s in msg["spans"]:
                if s.get("is_primary"):
                    # walk out of macro expansions to the invocation in the driver
                    while s.get("expansion") and not s["file_name"].endswith("main.rs"):
                        s = s["expansion"]["span"]
                    spans.append((s["file_name"], s["line_start"]))
                    t = s
                    while t.get("expansion"):
                        t = t["expansion"]["span"]
                        spans.append((t["file_name"], t["line_start"]))
            errs.append((m.get("package_id", ""), spans, msg["message"], msg.get("rendered", "")))
    return p.returncode == 0, exe, errs, p.stderr


_PRE = threading.Lock()
_pre_done = False


def prebuild():
    """Builds /repo's crates once, so that drivers built in parallel only wait for themselves."""
    global _pre_done
    with _PRE:
        if _pre_done:
            return
        d = write_crate("prebuild", "fn main() { let _ = std::mem::size_of::<monoasm::JitMemory>(); }\n")
        ok, exe, errs, stderr = cargo(d)
        if not ok:
            raise ToolError("/repo does not build:\n%s" % stderr[-3000:])
        _pre_done = True


def build_driver(name, render, items, extra=None, opt=0, timeout=600, release=False):
    """Builds a generated driver.  `render(items)` gives (source, {line: item index}).
    Statements the macro no longer accepts are removed and returned as rejected."""
    rejected = {}
    alive = list(range(len(items)))
    for _ in range(6):
        src, lines = render([items[k] for k in alive])
        d = write_crate(name, src, extra, opt, release)
        prebuild()
        ok, exe, errs, stderr = cargo(d, timeout=timeout)
        if ok and exe:
            return exe, rejected
        bad = {}
        for pkg, spans, msg, rendered in errs:
            hit = [lines[l] for f, l in spans if f.endswith("main.rs") and l in lines]
            for h in hit:
                bad[alive[h]] = msg
            if not hit and not re.match(r"aborting due to|could not compile", msg):
                raise ToolError("driver %s does not build:\n%s" % (name, rendered or msg))
        if not bad:
            raise ToolError("driver %s does not build:\n%s" % (name, stderr[-3000:]))
        rejected.update(bad)
        alive = [k for k in alive if k not in rejected]
    raise ToolError("driver %s: too many rounds of rejected statements" % name)


class Crash(Exception):
    """The code under test took the driver down (signal, abort, escaped panic, hang)."""


def run_driver(exe, args=(), timeout=400 if TIER == "quick" else 3000, env=None, stdin=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([exe, *map(str, args)], env=e, stdout=subprocess.PIPE, cwd=cwd,
                           stderr=subprocess.PIPE, timeout=timeout, input=stdin)
    except subprocess.TimeoutExpired:
        # drivers take seconds: one that is still running hangs in the code under test
        raise Crash("driver %s did not end within %s s" % (os.path.basename(exe), timeout))
    if p.returncode == 0:
        return p.stdout
    err = p.stderr.decode("utf8", "replace")[-4000:]
    if p.returncode in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
        raise ToolError("driver %s was killed (%s)" % (exe, p.returncode))
    raise Crash("driver ended with status %s\n%s" % (p.returncode, err))


TLC_RE = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def tlc(module, cfg=None, env=None, workers=8, timeout=800 if TIER == "quick" else 5400, extra=(), heap="6g", check=True, java=()):
    """Runs TLC on spec/<module>.tla; returns (output, generated, distinct)."""
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    meta = tempfile.mkdtemp(prefix=module + "-", dir=os.path.join(BUILD, "tlc"))
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, *java, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = None
    for m in TLC_RE.finditer(out):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if check and "Model checking completed. No error has been found." not in out:
        raise ToolError("TLC failed on %s:\n%s" % (module, out[-4000:]))
    return out, gen, dist


BAD_RE = re.compile(r'<<\s*"BAD",\s*(-?\d+),\s*(-?\d+)\s*>>')


def bad_events(out):
    return sorted({(int(a), int(b)) for a, b in BAD_RE.findall(out)})


# ---------------------------------------------------------------------------
# reporting

def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(path)).get("findings", [])
    except OSError:
        return []


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"samples": []}
        self.viol = []
        self.known = []
        self.assumptions = []

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, s):
        if len(self.cov["samples"]) < 8:
            self.cov["samples"].append(s)

    def violation(self, key, detail):
        """key: stable identification of the failing input; detail: anything JSON."""
        for f in known_findings():
            if f["property"] == self.prop and f["key"] == key:
                if key not in self.known:
                    self.known.append(key)
                    log("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
                return
        self.viol.append((key, detail))

    def finish(self):
        evdir = os.path.join(VERIF, "evidence") if BUILD == os.path.join(VERIF, "build") else os.path.join(BUILD, "evidence")
        os.makedirs(evdir, exist_ok=True)
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": SEED, "tier": TIER,
                           "violations": [{"key": k, "detail": x} for k, x in self.viol[:2000]],
                           "total": len(self.viol)}, f, indent=1)
            for k, x in self.viol[:5]:
                log("  deviates: %s  %s" % (k, json.dumps(x)[:600]))
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        log("OK property=%s tier=%s wall=%.1fs %s" % (
            self.prop, TIER, time.time() - self.t0,
            {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 0
