"""C14-C17: texts printed by MCIdl, read by the real parser and fed to the real generator."""
import json, os
from .core import *


def texts(c, name, universe, edits, count=0, heap="8g", timeout=None):
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name + ".jsonl")
    r = tlc(c.prop, name, "MCIdl", {"Universe": universe, "Edits": set(edits), "Seed": SEED, "Count": count}, invariants=["ReadsBack", "Emit"], emit=out,
            heap=heap, timeout=timeout)
    c.model(r, "MCIdl %s %s%s" % (universe, "+".join(edits), " (%d)" % count if count else ""))
    return out


def shards(c, cmd, args, what, timeout=600, gb=8, n=JOBS):
    """Run idl n times; the lines it printed, and what became of runs that did not finish."""
    exe = build("idl")
    base = os.path.join(BUILD, "run", c.prop)
    os.makedirs(base, exist_ok=True)
    outs = [os.path.join(base, cmd + ".%d" % s) for s in range(n)]
    procs = [spawn([exe, cmd] + args(s) + [outs[s] + ".at"], outs[s], gb) for s in range(n)]
    rcs = wait_all(procs, timeout)
    lines, total = [], {}
    for s in range(n):
        end = None
        for l in open(outs[s], errors="replace"):
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("done"):
                    end = j
                else:
                    lines.append(j)
        if end is None:
            at = open(outs[s] + ".at", "rb").read()
            err = open(outs[s] + ".err", errors="replace").read()[-300:]
            why = "hangs" if rcs[s] in (97, None) else "ends the process (%s) %s" % (rcs[s], err)
            if cmd == "fuzz":
                lines.append({"bad": "died", "text": at.decode(errors="replace"), "got": why})
            elif len(at) == 8:
                lines.append({"bad": "died", "line": int.from_bytes(at, "little"), "got": why})
            else:
                raise ToolError("the text harness failed: %s %s" % (rcs[s], err))
        else:
            for k, v in end.items():
                if k != "done":
                    total[k] = total.get(k, 0) + v
    got = {}
    return lines, total


def read(c, path, kinds, what, cmd="ast", **kw):
    lines, total = shards(c, cmd, lambda s: [path, str(s), str(JOBS)], what, **kw)
    c.replayed(total.get("runs") or sum(total.values()), what)
    c.cov.setdefault("outcomes", {})[what] = total
    wanted = {l["line"] for l in lines if "line" in l} | {11, 2003}
    with open(path) as f:
        got = {i: json.loads(l) for i, l in enumerate(f) if i in wanted}
    for i in (11, 2003):
        if i in got:
            c.sample({"text": "".join(got[i]["x"]), "expected": got[i].get("m") or got[i].get("it")})
    for l in lines:
        if l["bad"] in kinds:
            v = got.get(l.get("line"), {})
            t = l.get("text") or "".join(v.get("x", []))
            c.violation("%s: %s; the code: %s; expected: %s" % (l["bad"], t[:400], json.dumps(l["got"])[:300], json.dumps(v.get("a") or v.get("it") or v.get("m"))[:300]),
                        {"text": t, "vector": v, "got": l})


CRASH = {"panic", "died"}
WRONG = {"different", "refused", "accepted"}


def c14(c):
    read(c, texts(c, "all", "all", ["none"]), WRONG | CRASH, "every name, type, value and shape")
    read(c, texts(c, "seqs", "seqs", ["none"]), WRONG | CRASH, "sequences of definitions")
    read(c, texts(c, "many", "many", ["none"]), WRONG | CRASH, "many definitions, members, labels, procedures; long names and literals; types within types")
    read(c, texts(c, "random", "random", ["rand"], count=20000 if THOROUGH else 1500), WRONG | CRASH, "random specifications")
    read(c, texts(c, "free", "free", ["rand"], count=12000 if THOROUGH else 1200), WRONG | CRASH, "random specifications of any names, literals and types")


def c15(c):
    read(c, texts(c, "few", "few", ["none", "gap", "gaps", "stack", "lines"]), WRONG | CRASH, "every layout at every boundary")
    read(c, texts(c, "random", "random", ["rand"], count=30000 if THOROUGH else 3000), WRONG | CRASH, "random layouts")
    read(c, texts(c, "free", "free", ["rand"], count=9000 if THOROUGH else 900), WRONG | CRASH, "random layouts of specifications of any names, literals and types")
    if THOROUGH:
        read(c, texts(c, "types", "types", ["gap", "gaps", "lines"]), WRONG | CRASH, "every layout, all types")
        read(c, texts(c, "shapes", "shapes", ["gap", "gaps", "lines"]), WRONG | CRASH, "every layout, all shapes")
        read(c, texts(c, "many", "many", ["gaps"]), WRONG | CRASH, "much laid out")


def c16(c):
    read(c, texts(c, "few", "few", ["none", "word"]), WRONG | CRASH, "every edit of a word")
    read(c, texts(c, "tiny", "tiny", ["none", "char"]), WRONG | CRASH, "every edit of a character")
    read(c, texts(c, "random", "random", ["randword"], count=30000 if THOROUGH else 4000), WRONG | CRASH, "random edits of random specifications")
    read(c, texts(c, "free", "free-small", ["randword"], count=30000 if THOROUGH else 3000), WRONG | CRASH, "random edits of specifications of any names, literals and types")
    if THOROUGH:
        read(c, texts(c, "shapes", "shapes", ["word"]), WRONG | CRASH, "every edit of a word, all shapes")
        read(c, texts(c, "values", "values", ["word"]), WRONG | CRASH, "every edit of a word, all values")
        read(c, texts(c, "chars", "few", ["char"]), WRONG | CRASH, "every edit of a character, more specifications")


def c17(c):
    read(c, texts(c, "few", "few", ["none", "word"]), CRASH, "edited words", cmd="crash")
    read(c, texts(c, "tiny", "tiny", ["char"]), CRASH, "edited characters", cmd="crash")
    read(c, texts(c, "all", "all", ["none"]), CRASH, "every name, type, value and shape", cmd="crash")
    read(c, texts(c, "seqs", "seqs", ["none"]), CRASH, "sequences of definitions", cmd="crash")
    read(c, texts(c, "many", "many", ["none"]), CRASH, "many definitions, members, labels, procedures; long names and literals; types within types", cmd="crash")
    read(c, texts(c, "free", "free", ["rand"], count=12000 if THOROUGH else 1500), CRASH, "random specifications", cmd="crash")

    # every value at every place
    path = os.path.join(BUILD, "vec", c.prop, "values")
    r = tlc(c.prop, "values", "MCVerdict", {"Keeping": False, "Alone": True}, invariants=["Emit"], emit=path)
    c.model(r, "MCVerdict values")
    read(c, path, CRASH, "every value at every place", cmd="crash")

    rounds = 60000 if THOROUGH else 6000
    lines, total = shards(c, "fuzz", lambda s: [str(SEED * 1000 + s), str(rounds)], "arbitrary texts")
    c.replayed(total.get("runs", 0), "arbitrary texts")
    c.cov["arbitrary_texts"] = total
    for l in lines:
        c.violation("%s: %s; the code: %s" % (l["bad"], l["text"][:600], l["got"]), l)
