"""Shared machinery of the checks: building, running TLC, reporting."""
import hashlib, json, os, shutil, signal, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JOBS = min(8, os.cpu_count() or 8)
LOCAL_PACKAGES = ["serde_xdr", "serde-xdr", "serde_xdr_derive", "serde-xdr-derive", "rpcgen", "vh", "vg"]


class ToolError(Exception):
    pass


def cargo_env(target=TARGET):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for top in paths:
        files = [top] if os.path.isfile(top) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(top) for f in fs
            if "/target/" not in d + "/" and "/.git" not in d)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def repo_hash():
    return tree_hash([os.path.join(REPO, p) for p in ("serde-xdr", "serde-xdr-derive", "rpcgen", "Cargo.toml")])


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sync_sources(target=TARGET):
    """cargo looks at modification times; we look at content."""
    stamp = os.path.join(target, "stamp")
    now = repo_hash() + tree_hash([os.path.join(VERIF, "harness"), os.path.join(VERIF, "tools")])
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if now == old:
        return False
    # forget what was built from the old sources
    prints = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(prints):
        for d in os.listdir(prints):
            if d.rsplit("-", 1)[0] in LOCAL_PACKAGES:
                shutil.rmtree(os.path.join(prints, d))
    if os.path.isdir(target):
        for d in os.listdir(target):
            if d.startswith("done-"):
                os.remove(os.path.join(target, d))
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
    return True


def build(binary):
    """Build one harness binary from the current /repo and return its path."""
    where = os.path.join(VERIF, "harness" if binary == "codec" else "tools")
    with Lock():
        sync_sources()
        done = os.path.join(TARGET, "done-" + binary)
        path = os.path.join(TARGET, "debug", binary)
        if not (os.path.exists(done) and os.path.exists(path)):
            r = subprocess.run(["cargo", "build", "--offline", "--bin", binary], cwd=where,
                               env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("cannot build %s:\n%s" % (binary, r.stdout[-6000:]))
            open(done, "w").close()
        return path


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return False
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return True


def crate(name, files, deps, check_only=False, bins=None):
    """Write and build a generated crate that uses /repo's crates; the path of its executable.
    Returns (path or None, compiler output)."""
    with Lock():
        sync_sources()
        d = os.path.join(BUILD, "gen", name)
        manifest = ('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n%s\n'
                    '[profile.dev]\nopt-level = 0\ndebug = 0\ndebug-assertions = true\noverflow-checks = true\nincremental = false\n'
                    '[profile.dev.package.vh]\nopt-level = 1\n') % (name, deps)
        key = hashlib.sha256(json.dumps([manifest, files, open(os.path.join(TARGET, "stamp")).read()]).encode()).hexdigest()
        done = os.path.join(d, "done")
        path = os.path.join(TARGET, "debug", name)
        if os.path.exists(done) and os.path.exists(path) and open(done).read() == key:
            return path, ""
        if os.path.exists(done):
            os.remove(done)
        write_if_changed(os.path.join(d, "Cargo.toml"), manifest)
        for f, text in files.items():
            # a new modification time, so that cargo looks
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "w") as fh:
                fh.write(text)
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        r = subprocess.run(["cargo", "build", "--offline"], cwd=d, env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout
        with open(done, "w") as f:
            f.write(key)
        return path, ""


def workspace(name, members, deps):
    """Write and build a workspace of generated crates {crate: {file: text}}.
    Returns ({crate: executable or None}, compiler output)."""
    with Lock():
        sync_sources()
        d = os.path.join(BUILD, "gen", name)
        top = ('[workspace]\nresolver = "2"\nmembers = [%s]\n\n[profile.dev]\nopt-level = 0\ndebug = 0\ndebug-assertions = true\n'
               'overflow-checks = true\nincremental = false\ncodegen-units = 4\n[profile.dev.package.vh]\nopt-level = 1\n'
               % ", ".join('"%s"' % m for m in sorted(members)))
        manifest = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2024"\n\n[dependencies]\n' + deps
        key = hashlib.sha256(json.dumps([top, manifest, members, open(os.path.join(TARGET, "stamp")).read()], sort_keys=True).encode()).hexdigest()
        done = os.path.join(d, "done")
        paths = {m: os.path.join(TARGET, "debug", m) for m in members}
        if os.path.exists(done) and open(done).read() == key and all(os.path.exists(p) for p in paths.values()):
            return paths, ""
        shutil.rmtree(d, ignore_errors=True)
        for m, files in members.items():
            for f, text in list(files.items()) + [("Cargo.toml", manifest % m)]:
                p = os.path.join(d, m, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as fh:
                    fh.write(text)
            if os.path.exists(paths[m]):
                os.remove(paths[m])
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(top)
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        r = subprocess.run(["cargo", "build", "--offline", "--keep-going"], cwd=d, env=cargo_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            with open(done, "w") as f:
                f.write(key)
        return {m: p if os.path.exists(p) else None for m, p in paths.items()}, r.stdout if r.returncode else ""


DEPS = ('serde = { version = "1", features = ["derive"] }\nserde_xdr = { path = "%s/serde-xdr" }\n'
        'serde_xdr_derive = { path = "%s/serde-xdr-derive" }\nvh = { path = "%s/harness" }\n' % (REPO, REPO, VERIF))


# ---- TLC ------------------------------------------------------------------------
def workdir(prop, name):
    d = os.path.join(BUILD, "run", prop, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tla(v):
    """a Python value as a TLA+ constant"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


class TlcRun:
    def __init__(self):
        self.states = self.generated = 0
        self.lines = 0


def tlc(prop, name, module, constants, invariants=(), properties=(), emit=None, env=None, workers=JOBS, timeout=None,
        simulate=None, heap="6g", spec="Spec", stack="64m", seed=None):
    """Run TLC; what it prints as JSON goes, one object per line, to emit."""
    d = workdir(prop, name)
    for f in os.listdir(os.path.join(VERIF, "spec")):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(VERIF, "spec", f), d)
    with open(os.path.join(d, "run.cfg"), "w") as f:
        if constants:
            # sequences cannot be written in a configuration file; give them through definitions
            direct = {k: v for k, v in constants.items() if not has_seq(v)}
            seqs = {k: v for k, v in constants.items() if has_seq(v)}
            f.write("CONSTANTS\n")
            for k, v in direct.items():
                f.write("  %s = %s\n" % (k, tla(v)))
            if seqs:
                root = "Run" + module
                with open(os.path.join(d, root + ".tla"), "w") as m:
                    m.write("---- MODULE %s ----\nEXTENDS %s\n" % (root, module))
                    for k, v in seqs.items():
                        m.write("Def_%s == %s\n" % (k, tla(v)))
                    m.write("====\n")
                for k in seqs:
                    f.write("  %s <- Def_%s\n" % (k, k))
                module = root
        f.write("SPECIFICATION %s\n" % spec)
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for p in properties:
            f.write("PROPERTY %s\n" % p)
        f.write("CHECK_DEADLOCK FALSE\n")
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss" + stack, "-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers),
           "-config", "run.cfg", "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(SEED if seed is None else seed)]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    out = os.path.join(d, "out.txt")
    run = TlcRun()
    with open(out, "wb") as f:
        try:
            rc = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout or (3000 if THOROUGH else 800)).returncode
        except subprocess.TimeoutExpired:
            raise ToolError("TLC ran out of time on %s (%s)" % (module, name))
    sink = open(emit, "w") if emit else None
    tail = []
    run.json = []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                try:
                    t = json.loads(line)
                except ValueError:
                    tail.append(line)
                    continue
                if sink:
                    sink.write(t + "\n")
                else:
                    run.json.append(json.loads(t))
                run.lines += 1
            else:
                tail.append(line)
                if "distinct states found" in line and "states generated" in line and "Progress" not in line:
                    w = line.replace(",", "").split()
                    run.generated, run.states = int(w[0]), int(w[3])
                elif simulate and "states checked" in line.replace("states generated", "states checked"):
                    digits = [x for x in line.replace(",", "").split() if x.isdigit()]
                    if digits:
                        run.generated = run.states = int(digits[0])
    if sink:
        sink.close()
    if rc != 0:
        raise ToolError("TLC refused %s (%s), exit %d:\n%s" % (module, name, rc, "".join(tail[-40:])))
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    os.remove(out)
    return run


def has_seq(v):
    return isinstance(v, (list, tuple)) or (isinstance(v, (set, frozenset)) and any(has_seq(x) for x in v))


# ---- running the harness -------------------------------------------------------------
def limited(gb):
    import resource

    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
    return f


def spawn(cmd, out, gb=12, cwd=None, env=None):
    return subprocess.Popen(cmd, stdout=open(out, "wb"), stderr=open(out + ".err", "wb"), cwd=cwd, env=env,
                            preexec_fn=limited(gb))


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def wait_all(procs, timeout):
    """exit codes; None for what had to be killed"""
    end = time.time() + timeout * (4 if THOROUGH else 1)
    rcs = []
    for p in procs:
        try:
            rcs.append(p.wait(max(0.1, end - time.time())))
        except subprocess.TimeoutExpired:
            kill(p)
            rcs.append(None)
    return rcs


# ---- findings and reports -------------------------------------------------------------
def known_findings():
    """lines 'finding: property=<id> key=<key> <text>' of KNOWN_FINDINGS"""
    r = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                r[(parts[1].split("=", 1)[1], parts[2].split("=", 1)[1])] = parts[3].strip()
    return r


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.bad = []           # (key, text, replay object)
        self.known = known_findings()
        self.seen_known = set()

    def model(self, run, name=None):
        self.cov["states"] += run.states
        self.cov["transitions"] += run.generated
        if name:
            self.cov.setdefault("models", {})[name] = {"distinct": run.states, "generated": run.generated, "printed": run.lines}

    def replayed(self, n, what=None):
        self.cov["traces_validated_against_impl"] += n
        if what:
            c = self.cov.setdefault("replayed", {})
            c[what] = c.get(what, 0) + n

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 2000 else s[:2000] + "...")

    def violation(self, text, replay, key=""):
        if key and (self.prop, key) in self.known:
            if key not in self.seen_known:
                self.seen_known.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[(self.prop, key)]))
            return
        self.bad.append((key, text, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.bad:
            print("%s held: %d model states, %d runs of the code, %.1f s" % (
                self.prop, self.cov["states"], self.cov["traces_validated_against_impl"], ev["wall_s"]))
            return 0
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".json")
        with open(path, "w") as f:
            json.dump([{"what": t, "key": k, "replay": r} for k, t, r in self.bad[:50]], f, indent=1)
        for k, t, r in self.bad[:5]:
            print("  " + t[:600])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1
