"""C01-C11: the codec, vectors from MCVec/MCLong replayed, runs recorded and validated."""
import json, os
from .core import *
from . import rustgen


def vectors(c, name, universe, depth, faults, emitting, heap="6g", timeout=None):
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name + ".jsonl")
    r = tlc(c.prop, name, "MCVec", {"Universe": universe, "Depth": depth, "Faults": set(faults), "Emitting": set(emitting)},
            invariants=["Inv", "Emit"], emit=out, heap=heap, timeout=timeout)
    c.model(r, "MCVec %s depth %d %s" % (universe, depth, "+".join(faults)))
    return out


def machine(c, full, liveness=False, zoo=False):
    r = tlc(c.prop, "machine", "MCMachine", {"Full": full, "Zoo": zoo}, invariants=["Inv"],
            properties=["AppendOnly", "Forward"] + (["Ends"] if liveness else []), spec="FairSpec" if liveness else "Spec")
    c.model(r, "MCMachine")


def reports(path):
    """the complete reports in the output of a run"""
    with open(path, errors="replace") as f:
        for l in f:
            if l.startswith("{"):
                try:
                    yield json.loads(l)
                except ValueError:
                    pass        # cut off when the process was ended


def lines_of(path, wanted):
    got = {}
    with open(path) as f:
        for i, l in enumerate(f):
            if i in wanted:
                got[i] = json.loads(l)
    return got


def replay(c, path, kinds, what, cmd="replay", shards=JOBS, timeout=300, gb=12, only=None, exe=None):
    """Run every vector in the real code; report the deviations among kinds."""
    exe = exe or build("codec")
    base = os.path.join(BUILD, "run", c.prop)
    os.makedirs(base, exist_ok=True)
    outs = [os.path.join(base, "replay.%d" % s) for s in range(shards)]
    progs = [o + ".at" for o in outs]
    for p in progs:
        open(p, "wb").close()
    env = dict(os.environ) if only else dict(os.environ, VH_KINDS=",".join(sorted(kinds)))
    procs = [spawn([exe, cmd, path, str(s), str(shards), progs[s]], outs[s], gb, env=env) for s in range(shards)]
    rcs = wait_all(procs, timeout)
    devs, n = [], 0
    for s in range(shards):
        summary = None
        for j in reports(outs[s]):
            if j.get("done"):
                summary = j
            else:
                devs.append(j)
        if summary is None:
            at = open(progs[s], "rb").read()
            err = open(outs[s] + ".err", errors="replace").read()[-300:]
            if len(at) != 8:
                raise ToolError("the replay harness failed: %s %s" % (rcs[s], err))
            i = int.from_bytes(at, "little")
            why = "hangs" if rcs[s] in (97, None) else "ends the process (%s) %s" % (rcs[s], err)
            devs.append({"bad": "died", "line": i, "got": why})
        else:
            n += summary["enc"] + summary["dec"] + summary["rep"]
            if "worst" in summary and cmd == "mem":
                c.cov["most_memory_held"] = max(c.cov.get("most_memory_held", 0), summary["worst"])
    c.replayed(n, what)
    devs = [d for d in devs if d["bad"] in kinds]
    got = lines_of(path, {d["line"] for d in devs} | {7, 1001})
    for i in (7, 1001):
        if i in got:
            c.sample(got[i])
    for d in devs:
        v = got.get(d["line"])
        if only and not only(v, d):
            continue
        c.violation("%s: %s; the code: %s" % (d["bad"], json.dumps(v)[:400], json.dumps(d["got"])[:300]), {"vector": v, "got": d})


def long(c, kinds, opaque_only=False, cmd="replay"):
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "long.jsonl")
    lengths = {255, 256, 257, 1021, 4096, 65535, 65536, 65537, 100003}
    if THOROUGH:
        lengths |= {16777215, 16777216, 16777217, 131071, 1048579} if opaque_only else {131071, 262144, 1048579}
    depths = {10, 16, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400}
    if THOROUGH:
        depths |= {500, 512, 700, 1000, 1025, 2000}
    opaques = {10, 31, 32, 33, 34, 35, 63, 64, 65, 66, 128, 255, 256, 257, 258, 1025, 4096, 65535, 65536, 65537, 65538}
    r = tlc(c.prop, "long", "MCLong", {"Lengths": lengths, "Opaques": opaques, "Depths": depths}, invariants=["Law", "Emit"], emit=out)
    c.model(r, "MCLong")
    if opaque_only:
        keep = [l for l in open(out) if json.loads(l)["t"]["k"] in ("ofix", "ovar", "bytes")]
        open(out, "w").writelines(keep)
    replay(c, out, kinds, "long data", cmd=cmd)


def words(c, kinds, all):
    """Every word (or many), read as every type that is one word."""
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "words.jsonl")
    r = tlc(c.prop, "words", "MCWords", {"Groups": set(kinds)}, invariants=["Partition", "Meaning", "Emit"], emit=path)
    c.model(r, "MCWords %s" % "+".join(kinds))
    if all:
        # every one of the 2^32 words for some types, the many for the others: a minute each
        ls = [json.loads(l) for l in open(path)]
        ls.sort(key=lambda j: json.dumps(j["t"], sort_keys=True))
        for n, j in enumerate(ls):
            j["all"] = j["t"]["k"] in ("i8", "u8", "i16", "u16", "char", "bool", "f32") or len(j["t"].get("vs", "")) in (3, 300) or (j["t"]["k"] == "s32" and n < 3)
        c.cov["types_read_from_every_word"] = [json.dumps(j["t"])[:60] for j in ls if j["all"]]
        with open(path, "w") as f:
            f.writelines(json.dumps(j) + "\n" for j in ls)
    sweep(c, build("codec"), path, all)


def sweep(c, exe, path, all):
    base = os.path.join(BUILD, "run", c.prop)
    os.makedirs(base, exist_ok=True)
    outs = [os.path.join(base, "words.%d" % s) for s in range(JOBS)]
    procs = [spawn([exe, "words", path, str(s), str(JOBS), outs[s] + ".at", str(SEED), "1" if all else "0"], outs[s]) for s in range(JOBS)]
    rcs = wait_all(procs, 850 if all else 300)
    lines = [json.loads(l) for l in open(path)]
    for s in range(JOBS):
        done = False
        for j in reports(outs[s]):
            if j.get("done"):
                done = True
                c.replayed(j["runs"], "all words" if all else "many words")
            else:
                c.violation("%s: a word read as %s: %s" % (j["bad"], json.dumps(lines[j["line"]]["t"])[:300], json.dumps(j["got"])), {"type": lines[j["line"]]["t"], "got": j})
        if not done:
            at = open(outs[s] + ".at", "rb").read()
            if len(at) != 8 or rcs[s] is None:
                raise ToolError("the words harness failed: %s %s" % (rcs[s], open(outs[s] + ".err").read()[-300:]))
            c.violation("reading words as %s ends the process (%s)" % (json.dumps(lines[int.from_bytes(at, "little")]["t"])[:300], rcs[s]), {"line": lines[int.from_bytes(at, "little")]})


def traces(c, which, rounds, judge):
    """Random runs of the real code on ordinary Rust types, accepted or rejected by TLC."""
    exe = build("codec")
    base = os.path.join(BUILD, "run", c.prop)
    os.makedirs(base, exist_ok=True)
    tr = os.path.join(base, "trace.ndjson")
    out = os.path.join(base, "trace.out")
    p = spawn([exe, "trace", str(SEED), str(rounds), tr, which], out)
    rc = wait_all([p], 300)[0]
    done = False
    for j in reports(out):
        if j.get("done"):
            done = True
        elif judge(None, j):
            c.violation("%s: %s" % (j["bad"], json.dumps(j)[:500]), j)
    if not done:
        at = rc
        if judge(None, {"bad": "died"}):
            c.violation("the process recording runs ended with %s" % at, {"seed": SEED, "rounds": rounds})
        return
    r = tlc(c.prop, "trace", "TraceCodec", {"Chunk": 64}, invariants=["Checked"], env={"TRACE": tr})
    c.model(r, "TraceCodec")
    n = sum(1 for _ in open(tr))
    rejects = {j["reject"] - 1 for j in r.json}
    c.replayed(n, "recorded runs")
    got = lines_of(tr, rejects | {3})
    if 3 in got:
        c.sample(got[3])
    for i in sorted(rejects):
        if judge(got[i], None):
            c.violation("recorded run is not a behaviour of the specification: " + json.dumps(got[i])[:600], got[i])


def fuzz(c, rounds, kinds):
    exe = build("codec")
    base = os.path.join(BUILD, "run", c.prop)
    os.makedirs(base, exist_ok=True)
    outs = [os.path.join(base, "fuzz.%d" % s) for s in range(JOBS)]
    procs = [spawn([exe, "fuzz", str(SEED * 1000 + s), str(rounds), outs[s] + ".at"], outs[s]) for s in range(JOBS)]
    rcs = wait_all(procs, 300)
    for s in range(JOBS):
        done = False
        for j in reports(outs[s]):
            if j.get("done"):
                done = True
                c.replayed(j["cases"], "arbitrary bytes")
                c.cov["most_memory_held"] = max(c.cov.get("most_memory_held", 0), int(j["worst"]))
            elif j["bad"] in kinds:
                c.violation("%s: %s" % (j["bad"], json.dumps(j)[:500]), j)
        if not done and "died" in kinds:
            c.violation("decoding arbitrary bytes ends the process: %s" % rcs[s],
                        {"seed": SEED * 1000 + s, "rounds": rounds, "at": open(outs[s] + ".at", "rb").read().hex()})


def zoo(c, universe, faults, what, tag=""):
    """Vectors of derived enums: the types become Rust source, compiled against the repo's macros."""
    raw = vectors(c, universe + tag, universe, 0, faults, ["enc", "dec"], heap="12g")
    index, types, out = {}, [], raw + ".t"
    swept = os.path.join(BUILD, "vec", c.prop, "words.jsonl") if universe == "ix" else None
    if swept:
        r = tlc(c.prop, "words", "MCWords", {"Groups": {"ix"}}, invariants=["Partition", "Meaning", "Emit"], emit=swept + ".raw")
        c.model(r, "MCWords ix")
    for path in [raw] + ([swept + ".raw"] if swept else []):
        with open(path) as f:
            for l in f:
                t = json.loads(l)["t"]
                key = json.dumps(t, sort_keys=True)
                if key not in index:
                    index[key] = len(types)
                    types.append(t)
    order = sorted(range(len(types)), key=lambda i: json.dumps(types[i], sort_keys=True))
    rank = {i: n for n, i in enumerate(order)}
    for path, to in [(raw, out)] + ([(swept + ".raw", swept)] if swept else []):
        with open(path) as f, open(to, "w") as o:
            for l in f:
                j = json.loads(l)
                j["T"] = rank[index[json.dumps(j["t"], sort_keys=True)]]
                o.write(json.dumps(j) + "\n")
    src = rustgen.Source().text([types[i] for i in order])
    exe, err = crate("zoo_" + universe, {"src/main.rs": src}, DEPS)
    c.cov["rust_types_compiled"] = len(types)
    if exe is None:
        # the types are within what the derive macros support: refusing them breaks the property
        build("codec")
        c.violation("enums deriving the macros do not compile: " + err[-1500:], {"source": src, "error": err[-6000:]})
        return
    kinds = {"enc-bytes", "enc-refused", "trip", "dec-value", "dec-refused", "dec-accepted"} | CRASH
    replay(c, out, kinds, what, exe=exe)
    if swept:
        sweep(c, exe, swept, False)


ANY = ["none", "cut", "ext", "over"]
CRASH = {"panic", "trip-panic", "died"}


def c01(c):
    machine(c, THOROUGH)
    kinds = {"trip", "enc-refused"} | CRASH
    replay(c, vectors(c, "all", "all", 2, ["none"], ["enc", "dec"]), kinds | {"dec-refused", "dec-value"}, "all leaves, depth 2")
    if THOROUGH:
        replay(c, vectors(c, "few", "few", 3, ["none"], ["enc", "dec"]), kinds | {"dec-refused", "dec-value"}, "few leaves, depth 3")
    replay(c, vectors(c, "wide", "wide", 1 if THOROUGH else 0, ["none"], ["enc", "dec"], heap="12g"), kinds | {"dec-refused", "dec-value"}, "many parts")
    long(c, kinds)
    traces(c, "trip", 150 if THOROUGH else 20, lambda l, d: d or l["p"] != "enc" or not l["ok"])


def c02(c):
    machine(c, THOROUGH)
    kinds = {"enc-bytes", "enc-refused", "panic", "died"}
    replay(c, vectors(c, "all", "all", 2, ["none"], ["enc"]), kinds, "all leaves, depth 2")
    if THOROUGH:
        replay(c, vectors(c, "few", "few", 3, ["none"], ["enc"]), kinds, "few leaves, depth 3")
    replay(c, vectors(c, "wide", "wide", 1 if THOROUGH else 0, ["none"], ["enc"], heap="12g"), kinds, "many parts")
    long(c, kinds)
    traces(c, "enc", 300 if THOROUGH else 40, lambda l, d: d or l["p"] == "enc")


def c03(c):
    machine(c, False, liveness=True)
    replay(c, vectors(c, "all", "all", 1, ANY, ["dec"]), CRASH, "all leaves, depth 1, damaged")
    replay(c, vectors(c, "byte", "few", 1, ["byte"], ["dec"]), CRASH, "few leaves, depth 1, damaged bytes")
    if THOROUGH:
        replay(c, vectors(c, "few", "few", 2, ["cut", "over"], ["dec"], heap="12g"), CRASH, "few leaves, depth 2, damaged")
    fuzz(c, 30000 if THOROUGH else 4000, {"panic", "died"})


def c04(c):
    kinds = {"dec-accepted", "dec-class", "dec-refused"} | CRASH
    only = lambda v, d: v["p"] == "rep" or v["f"] in ("cut", "ext")
    replay(c, vectors(c, "all", "all", 1, ["cut", "ext"], ["dec"]), kinds, "all leaves, depth 1", only=only)
    if THOROUGH:
        replay(c, vectors(c, "few", "few", 2, ["cut", "ext"], ["dec"], heap="12g"), kinds, "few leaves, depth 2", only=only)
    replay(c, vectors(c, "opaque", "opaque", 0, ["cut", "ext"], ["dec"]), kinds, "opaque data", only=only)
    long(c, kinds)
    traces(c, "cut", 100 if THOROUGH else 10, lambda l, d: d or l["p"] != "enc")


def c05(c):
    kinds = {"dec-accepted", "dec-value", "dec-refused"} | CRASH
    replay(c, vectors(c, "all", "all", 1, ["over"], ["dec"]), kinds, "all leaves, depth 1, words overwritten")
    replay(c, vectors(c, "bytes", "all" if THOROUGH else "few", 1, ["byte"], ["dec"], heap="12g"), kinds, "depth 1, bytes overwritten")
    replay(c, vectors(c, "leaf", "all", 0, ["byte"], ["dec"]), kinds, "leaves, bytes overwritten")
    if THOROUGH:
        replay(c, vectors(c, "few", "few", 2, ["over"], ["dec"], heap="12g"), kinds, "few leaves, depth 2, words overwritten")
    words(c, ["num"], THOROUGH)
    traces(c, "dec", 150 if THOROUGH else 15, lambda l, d: d or l["p"] != "enc")


def c06(c):
    kinds = {"dec-accepted", "dec-value", "dec-refused", "enc-bytes", "enc-refused", "trip"} | CRASH
    replay(c, vectors(c, "enum", "enum", 0, ["none", "over", "byte"], ["enc", "dec"]), kinds, "enums")
    replay(c, vectors(c, "enum1", "enum", 1, ["none", "over"] if THOROUGH else ["none"], ["enc", "dec"], heap="12g"), kinds, "enums inside composites")
    replay(c, vectors(c, "far", "far", 1, [], ["enc"]), kinds, "far variants")
    words(c, ["enum"], THOROUGH)
    if THOROUGH:
        replay(c, vectors(c, "enum2", "enum", 2, ["none"], ["enc", "dec"], heap="12g"), kinds, "enums inside composites, depth 2")


def c07(c):
    replay(c, vectors(c, "few", "few", 1, ["over"], ["dec"]), {"mem", "died"}, "few leaves, depth 1", cmd="mem")
    replay(c, vectors(c, "sour", "sour", 1, ["over"], ["dec"]), {"mem", "died"}, "counted bytes, depth 1", cmd="mem")
    replay(c, vectors(c, "bytes", "opaque", 0, ["over"], ["dec"]), {"mem", "died"}, "opaque data", cmd="mem")
    if THOROUGH:
        replay(c, vectors(c, "all", "all", 1, ["over"], ["dec"], heap="12g"), {"mem", "died"}, "all leaves, depth 1", cmd="mem")
    long(c, {"mem"}, cmd="mem")
    fuzz(c, 60000 if THOROUGH else 8000, {"mem", "died"})


def c08(c):
    kinds = {"enc-accepted", "enc-bytes", "enc-refused", "panic", "died"}
    replay(c, vectors(c, "refused", "refused", 2 if THOROUGH else 1, [], ["enc"]), kinds, "refused", shards=2)
    replay(c, vectors(c, "leaf", "refused", 0, [], ["enc"]), kinds, "refused leaves", shards=2)


def c09(c):
    kinds = {"enc-bytes", "enc-refused", "trip", "dec-value", "dec-refused"} | CRASH
    replay(c, vectors(c, "opaque", "opaque", 1, ["none"], ["enc", "dec"]), kinds, "all lengths, depth 1")
    if THOROUGH:
        replay(c, vectors(c, "opaque2", "opaque", 2, ["none"], ["enc"], heap="12g"), kinds, "all lengths, depth 2")
    replay(c, vectors(c, "damaged", "opaque", 0, ["over"], ["dec"]), kinds | {"dec-accepted"}, "all lengths, damaged")
    long(c, kinds, opaque_only=True)


def c10(c):
    kinds = {"enc-bytes", "enc-refused", "trip", "dec-value", "dec-refused", "dec-accepted"} | CRASH
    replay(c, vectors(c, "s32", "s32", 1, ["none", "over"], ["enc", "dec"]), kinds, "signed words, depth 1")
    replay(c, vectors(c, "s32b", "s32", 0, ["byte"], ["dec"]), kinds, "signed words, bytes overwritten")
    words(c, ["s32"], THOROUGH)
    replay(c, vectors(c, "s32n", "s32", 2, ["none"], ["enc", "dec"], heap="12g"), kinds, "signed words, depth 2")


def c11(c):
    kinds = {"enc-accepted", "enc-class", "enc-refused", "enc-bytes", "dec-accepted", "dec-class", "dec-refused", "dec-value"} | CRASH
    machine(c, THOROUGH)
    replay(c, vectors(c, "bomb", "bomb", 3 if THOROUGH else 2, ["none"], ["enc", "dec"]), kinds, "failing parts")
    # parts that cannot be represented, at every place in a composite
    replay(c, vectors(c, "refused", "refused", 2 if THOROUGH else 1, [], ["enc"]), kinds, "parts without representation", shards=2)
    # parts whose words are wrong
    only = lambda v, d: not v["r"]["ok"]
    replay(c, vectors(c, "sour", "sour", 2 if THOROUGH else 1, ["over"], ["dec"], heap="12g"), kinds, "wrong words", only=only)
    # parts that fail for want of data, at every depth
    only = lambda v, d: v["f"] == "cut"
    replay(c, vectors(c, "cut", "few", 2 if THOROUGH else 1, ["cut"], ["dec"], heap="12g"), kinds, "missing data", only=only)


def c12(c):
    machine(c, False, zoo=True)
    zoo(c, "ix", ["none", "cut", "over"] + (["byte"] if THOROUGH else []), "XdrIndexer enums")


def c13(c):
    machine(c, False, zoo=True)
    zoo(c, "un", ["none", "cut", "over"] + (["byte"] if THOROUGH else []), "XdrUnion enums")
