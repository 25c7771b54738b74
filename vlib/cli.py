"""C24: the runs MCCli prints, repeated with the real rpcgen program."""
import json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .core import *
from . import gen


def text(v):
    x = v["x"]
    if v["k"] == "crlf":
        x = ["\r\n" if p == " " else p for p in x]
    return "".join(x).replace("UUU", "é漢😀\u00a0")


def place(d, v):
    """Make the file; what to call it by."""
    t, k = text(v).encode(), v["k"]
    plain = os.path.join(d, "f.x")

    def write(path, data=t):
        with open(path, "wb") as f:
            f.write(data)
        return path
    if k in ("plain", "crlf"):
        return write(plain)
    if k == "relative":
        write(plain)
        return "f.x"
    if k == "symlink":
        os.symlink(write(plain), os.path.join(d, "l.x"))
        return os.path.join(d, "l.x")
    if k == "spaced":
        return write(os.path.join(d, "a b  c.x "))
    if k == "dotted":
        os.mkdir(os.path.join(d, "s"))
        write(plain)
        return "s/.././f.x"
    if k == "wide":
        return write(os.path.join(d, "é漢😀.x"))
    if k == "missing":
        return os.path.join(d, "nothing.x")
    if k == "directory":
        os.mkdir(plain)
        return plain
    if k == "notdir":
        return write(plain) + "/f.x"
    if k == "loop":
        os.symlink("l.x", os.path.join(d, "l.x"))
        return os.path.join(d, "l.x")
    if k == "dangling":
        os.symlink("gone.x", os.path.join(d, "l.x"))
        return os.path.join(d, "l.x")
    if k == "long":
        return os.path.join(d, "a" * 300)
    if k == "empty-name":
        return ""
    if k == "latin1":
        return write(plain, t + b"\n/* \xe9 */\n")
    if k == "utf16":
        return write(plain, t.decode().encode("utf-16"))
    if k == "truncated-utf8":
        return write(plain, t + "\n/* 漢".encode()[:-1])
    raise ToolError("file " + k)


def run(exe, v):
    d = tempfile.mkdtemp(dir=os.path.join(BUILD, "run", "C24"))
    try:
        path = place(d, v)
        args = [path if a == "PATH" else a for a in v["a"]]
        out = subprocess.PIPE
        if v["s"] == "full":
            out = open("/dev/full", "wb")
        elif v["s"] == "closed":
            r, w = os.pipe()
            os.close(r)
            out = os.fdopen(w, "wb")
        try:
            r = subprocess.run([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return None, b"", b"does not end"
        finally:
            if out != subprocess.PIPE:
                out.close()
        return r.returncode, r.stdout or b"", r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c24(c):
    r = tlc(c.prop, "cli", "MCCli", {}, invariants=["Silent", "Orderless", "Stronger", "Sure", "Emit"], properties=["EndsAtLast"])
    c.model(r, "MCCli")
    exe = build("rpcgen")
    runs = r.json
    # what the library generates
    keys = sorted({(text(v), v["c"]) for v in runs if v["m"] == "code"})
    want = dict(zip(keys, gen.generate(c, "cli", [{"x": [t], "c": b} for t, b in keys])))
    with ThreadPoolExecutor(JOBS) as pool:
        got = list(pool.map(lambda v: run(exe, v), runs))
    for v, (rc, out, err) in zip(runs, got):
        bad = None
        if v["m"] == "code":
            w = want[(text(v), v["c"])]
            if "code" not in w:
                bad = "the library refuses what must be generated: %s" % w
            elif rc != 0:
                bad = "exit status %s where code must be printed: %s" % (rc, err[:200])
            elif out.decode(errors="replace") not in (w["code"], w["code"] + "\n"):
                bad = "the output is not the generated code: " + out.decode(errors="replace")[:300]
        elif rc in (0, None):
            bad = "exit status %s where it must fail" % rc
        elif out:
            bad = "output in spite of failure: " + out.decode(errors="replace")[:300]
        elif not err:
            bad = "failure without a report"
        if bad:
            c.violation("%s; arguments %s, file %s, output %s: %s" % (bad, v["a"], v["k"], v["s"], text(v)[:300]),
                        {"run": v, "exit": rc, "out": out.decode(errors="replace")[:3000], "err": err.decode(errors="replace")[:3000]})
    c.replayed(len(runs), "runs of the program")
    for v in runs[:2]:
        c.sample({"arguments": v["a"], "file": v["k"], "outcome": v["m"]})
