"""C18-C22: documents printed by MCGen, generated and compiled, decodings replayed into the compiled code."""
import json, os, re, subprocess
from .core import *

ALLOW = "#![allow(dead_code, unused_imports, unused_variables, non_camel_case_types, non_snake_case, non_upper_case_globals, unreachable_patterns, clippy::all)]\n"


def documents(c, name, module, constants, invariants, heap="8g", timeout=None):
    """The documents and the vectors a model prints."""
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    raw = os.path.join(d, name + ".raw")
    r = tlc(c.prop, name, module, constants, invariants=invariants, emit=raw, heap=heap, timeout=timeout)
    c.model(r, "%s %s" % (module, name))
    docs = {}
    out = os.path.join(d, name + ".jsonl")
    with open(raw) as f, open(out, "w") as o:
        for l in f:
            if l.startswith('{"key"') or '"key":' in l[:4000] and "key" in json.loads(l):
                j = json.loads(l)
                docs[j["key"]] = j
            else:
                o.write(l)
    os.remove(raw)
    return docs, out


def generate(c, name, items):
    """items: [{x, c}] -> [{code} or {err} or {panic}]"""
    exe = build("idl")
    base = os.path.join(BUILD, "run", c.prop)
    os.makedirs(base, exist_ok=True)
    src, out = os.path.join(base, name + ".in"), os.path.join(base, name + ".code")
    with open(src, "w") as f:
        for i in items:
            f.write(json.dumps({"x": i["x"], "c": i["c"]}) + "\n")
    rc = wait_all([spawn([exe, "gen", src, out], os.path.join(base, name + ".log"))], 300)[0]
    got = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
    if rc != 0 or len(got) != len(items):
        bad = items[len(got)] if len(got) < len(items) else items[-1]
        c.violation("generating code ends the process (%s): %s" % (rc, "".join(bad["x"])[:500]), bad)
        return got + [{"panic": "died"}] * (len(items) - len(got))
    return got


def decodings(keys, modules):
    table, numbers = [], []
    for k in keys:
        code, types, consts = modules[k]
        table += ['        ("%s::%s", vh::probe::entry::<%s::%s>),\n' % (k, t, k, t) for t in types]
        numbers += ['        ("%s::%s", %s::%s as i128),\n' % (k, t, k, t) for t in consts]
    return "\nfn main() {\n    vh::probe::main(&[\n%s    ], &[\n%s    ]);\n}\n" % ("".join(table), "".join(numbers))


def compiled(c, name, modules, body=decodings):
    """modules: {key: (code, ...)}; body(keys, modules): main(); {key: executable}"""
    n = min(JOBS, max(1, len(modules)))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for k in sorted(modules, key=lambda k: -len(modules[k][0])):
        i = load.index(min(load))
        bins[i].append(k)
        load[i] += len(modules[k][0])
    members = {}
    for i, keys in enumerate(bins):
        files = {}
        main = ["// generated from the specification\n#![allow(dead_code)]\n"]
        for k in sorted(keys):
            files["src/%s.rs" % k] = ALLOW + pretty(modules[k][0])
            main.append("mod %s;\n" % k)
        main.append(body(sorted(keys), modules))
        files["src/main.rs"] = "".join(main)
        members["%s_%d" % (name, i)] = files
    exes, err = workspace(name, members, DEPS)
    if err:
        build("codec")          # is it the tree that does not build?
        files = sorted(set(re.findall(r"--> (?:\S*/)?src/(\w+)\.rs", err)))
        broken = [f for f in files if f in modules]
        if not broken and "main" not in files:
            raise ToolError("the generated crates do not build:\n" + err[-4000:])
        m = re.search(r"error(\[\w+\])?: [^\n]*\n[^\n]*(\n[^\n]*){0,6}", err)
        c.violation("generated code does not compile (%s): %s" % (", ".join(broken) or "missing items", m.group(0) if m else err[-600:]),
                    {"modules": {k: modules[k][0] for k in broken[:3]}, "error": err[-8000:]})
    return {k: exes["%s_%d" % (name, i)] for i, keys in enumerate(bins) for k in keys}


def pretty(code):
    """One item per line, for readable compiler messages."""
    return re.sub(r"(\} |; )(?=(pub |impl |# \[|use |type ))", lambda m: m.group(1) + "\n", code) + "\n"


def run(c, name, modules, exes, vectors, what):
    base = os.path.join(BUILD, "run", c.prop)
    os.makedirs(base, exist_ok=True)
    files, counts = {}, {}
    with open(vectors) as f:
        for l in f:
            m = re.search(r'"m":"(\w+)"', l).group(1)
            exe = exes.get(m)
            if exe is None:
                continue
            # several runs of one executable
            k = (exe, counts.get(exe, 0) % 4)
            counts[exe] = counts.get(exe, 0) + 1
            if k not in files:
                files[k] = open(os.path.join(base, "%s.%s.%d.vec" % (name, os.path.basename(exe), k[1])), "w")
            files[k].write(l)
    for f in files.values():
        f.close()
    todo = list(files)
    for at in range(0, len(todo), 2 * JOBS):
        part = todo[at:at + 2 * JOBS]
        outs = [files[k].name + ".out" for k in part]
        procs = [spawn([k[0], files[k].name, o + ".at"], o, 4) for k, o in zip(part, outs)]
        rcs = wait_all(procs, 300)
        for k, o, rc in zip(part, outs, rcs):
            bads, done = [], None
            for l in open(o, errors="replace"):
                if l.startswith("{"):
                    j = json.loads(l)
                    if j.get("done"):
                        done = j
                    else:
                        bads.append(j)
            if done is None:
                a = open(o + ".at", "rb").read() if os.path.exists(o + ".at") else b""
                if len(a) != 8:
                    raise ToolError("the probe failed: %s %s" % (rc, open(o + ".err").read()[-500:]))
                bads.append({"bad": "died", "line": int.from_bytes(a, "little"), "got": "exit %s" % rc})
            else:
                c.replayed(done["runs"], what)
            if bads or len(c.cov["samples"]) < 3:
                lines = open(files[k].name).read().split("\n")
                if len(lines) > 20:
                    c.sample(json.loads(lines[13]))
                for b in bads:
                    v = json.loads(lines[b["line"]])
                    c.violation("%s: %s of %s from %s: expected %s; the code: %s" % (
                        b["bad"], v["t"], v["m"], v["x"], v["d"] or "a refusal", str(b["got"])[:300]), {"vector": v, "got": b, "code": modules[v["m"]][0]})
            for x in (files[k].name, o, o + ".err", o + ".at"):
                if os.path.exists(x) and not bads:
                    os.remove(x)


def subject(c, name, deepness=1, numbers=False, whole=False, count=0):
    """numbers: constants have the numbers they must; whole: every definition once, nothing else, the same again"""
    docs, vec = documents(c, name, "MCGen", {"Subject": name, "Deepness": deepness, "Seed": SEED, "Count": count}, ["Law", "Generable0", "EmitDoc", "EmitValue"])
    keys = sorted(docs)
    codes = generate(c, name, [docs[k] for k in keys])
    if whole:
        wholly(c, name, docs, keys, codes)
    modules = {}
    for k, g in zip(keys, codes):
        if "code" in g:
            modules[k] = (g["code"], docs[k]["ts"], [n for n, _ in docs[k]["numbers"]] if numbers else [])
        else:
            c.violation("code for a specification it must be generated from is refused: %s: %s" % (g, "".join(docs[k]["x"])[:600]), {"doc": docs[k], "got": g})
    c.cov.setdefault("documents", {})[name] = {"modules": len(modules), "types": sum(len(m[1]) for m in modules.values())}
    exes = compiled(c, "g_" + name, modules)
    run(c, name, modules, exes, vec, name)
    if numbers:
        have = {}
        for exe in sorted({e for e in exes.values() if e}):
            r = subprocess.run([exe, "numbers"], stdout=subprocess.PIPE, text=True, timeout=60)
            for l in r.stdout.split("\n"):
                if l:
                    j = json.loads(l)
                    have[j["n"]] = j["v"]
        n = 0
        for k in modules:
            if exes.get(k):
                for name, v in docs[k]["numbers"]:
                    n += 1
                    if have.get("%s::%s" % (k, name)) != v:
                        c.violation("the constant %s of %s is %s; it must be %s" % (name, k, have.get("%s::%s" % (k, name)), v),
                                    {"text": "".join(docs[k]["x"]), "mode": docs[k]["c"]})
        c.replayed(n, "constants")


def wholly(c, name, docs, keys, codes):
    again = generate(c, name + "2", [docs[k] for k in keys])
    plain = [k for k in keys if docs[k]["plain"]]
    pure = dict(zip(plain, generate(c, name + "3", [{"x": docs[k]["plain"], "c": docs[k]["c"]} for k in plain])))
    for k, g, h in zip(keys, codes, again):
        if "code" not in g:
            continue
        d = docs[k]
        if not g["again"] or g["code"] != h.get("code"):
            c.violation("generating twice gives different text: " + k, {"text": "".join(d["x"]), "first": g, "second": h})
        if "invalid" in g:
            c.violation("the generated text is not Rust (%s): %s" % (g["invalid"], k), {"text": "".join(d["x"]), "code": g["code"]})
            continue
        have = [(i["k"], i["n"]) for i in g["items"] if i["k"] != "type"]
        want = [tuple(i) for i in d["items"]]
        for i in sorted(set(want)):
            if have.count(i) != want.count(i):
                c.violation("%s %s appears %d times in the code generated for %s" % (i[0], i[1], have.count(i), k), {"text": "".join(d["x"]), "code": g["code"]})
        if k in pure and pure[k].get("code") != g["code"]:
            c.violation("programs or lines change the generated code: " + k, {"text": "".join(d["x"]), "code": g["code"], "without": pure[k]})
    c.replayed(3 * len(keys) + len(plain), "whole documents")


def verdicts(c, name, module, constants, invariants):
    """Whether code is generated, for every case a model prints."""
    from . import idl
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + ".jsonl")
    r = tlc(c.prop, name, module, constants, invariants=invariants, emit=path)
    c.model(r, "%s %s" % (module, name))
    idl.read(c, path, {"panic", "died", "refused", "accepted"}, name, cmd="verdict")


def c18(c):
    subject(c, "numbers", 2 if THOROUGH else 1, numbers=True)
    verdicts(c, "values", "MCVerdict", {"Keeping": THOROUGH, "Alone": False}, ["Known", "Orderless", "Emit"])


def c19(c):
    subject(c, "enums", 2 if THOROUGH else 1)
    subject(c, "ran_enums", 1, count=150 if THOROUGH else 24)


def c20(c):
    subject(c, "structs", 2 if THOROUGH else 1)
    subject(c, "ran_structs", 1, count=150 if THOROUGH else 24)
    # serde and Default know arrays up to 32 elements only
    text = ["struct s { int a[33]; };"]
    g = generate(c, "long", [{"x": text, "c": 20}])[0]
    if "code" in g:
        exe, err = crate("long_array", {"src/main.rs": "mod m {\n" + ALLOW + g["code"] + "}\n\nfn main() {\n    let v = m::S { a: [7; 33] };\n"
                                        "    assert!(serde_xdr::to_bytes(&v).unwrap().len() == 132);\n}\n"}, DEPS)
        if exe is None:
            c.violation("a fixed array of 33 elements does not compile: " + err[-600:], {"text": text, "error": err}, key="array-over-32" if "E0277" in err and "33]" in err else "")
        elif subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode:
            c.violation("a fixed array of 33 elements is not encoded as such", {"text": text})
    else:
        c.violation("a fixed array of 33 elements is refused: %s" % g, {"text": text}, key="array-over-32-refused")


def c21(c):
    subject(c, "unions", 2 if THOROUGH else 1)
    subject(c, "ran_unions", 1, count=150 if THOROUGH else 24)


def c22(c):
    subject(c, "typedefs", 2 if THOROUGH else 1, whole=True)
    subject(c, "orders", 2 if THOROUGH else 1, whole=True)
    subject(c, "ran_typedefs", 1, whole=True, count=150 if THOROUGH else 24)


RULES = ["LegalNames", "KeepsLetters", "Unchanged", "SnakeSmall", "CamelJoined", "SnakeTwice", "CamelTwice", "Generated", "Emit"]


def c23(c):
    from . import idl
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "names.jsonl")
    r = tlc(c.prop, "names", "MCNames", {"Longest": 7 if THOROUGH else 5, "Seed": SEED, "Count": 6000 if THOROUGH else 400}, invariants=RULES, emit=path)
    c.model(r, "MCNames names")
    idl.read(c, path, {"panic", "died", "refused", "not Rust", "names"}, "names at every place", cmd="names")
    subject(c, "names", 1, numbers=True)


# ---- C25, C26: what generated types offer beside the codec --------------------------------------
def helped(c, name, count=0):
    """documents, the enums in them, the generated code"""
    d = os.path.join(BUILD, "vec", c.prop)
    os.makedirs(d, exist_ok=True)
    raw = os.path.join(d, name + ".help")
    r = tlc(c.prop, name, "MCHelp", {"Subject": name, "Deepness": 1 if THOROUGH else 0, "Seed": SEED, "Count": count},
            invariants=["OnTheWire", "Distinct", "EmitWhere", "EmitEnum"], emit=raw, spec="SpecH")
    c.model(r, "MCHelp %s" % name)
    docs, enums = {}, {}
    for l in open(raw):
        j = json.loads(l)
        if "key" in j:
            docs[j["key"]] = j
        else:
            enums.setdefault(j["m"], []).append(j)
    keys = sorted(docs)
    codes = {}
    for k, g in zip(keys, generate(c, name, [docs[k] for k in keys])):
        if "code" in g:
            codes[k] = g["code"]
        else:
            c.violation("code for a specification it must be generated from is refused: %s: %s" % (g, "".join(docs[k]["x"])[:600]), {"doc": docs[k], "got": g})
    return docs, enums, codes


def conversions(keys, modules):
    fns, table = [], []
    for k in keys:
        for e in modules[k][1]:
            t = "%s::%s" % (k, e["t"])
            name = "c%d" % len(fns)
            vs = ", ".join("(%s::%s, %s::%s as i32)" % (t, v[0], t, v[0]) for v in e["vs"])
            std = "Some((|x: &%s| *AsRef::<i32>::as_ref(x), |n: i32| <%s as TryFrom<i32>>::try_from(n).ok()))" % (t, t) if e["e"] == "std" else "None"
            ix = "Some(|x: &%s| serde_xdr::XdrIndexer::index(x))" % t if e["e"] == "ix" else "None"
            fns.append("fn %s(ns: &[i32]) -> vh::probe::Conversions {\n    vh::probe::conversions::<%s>(vec![%s], %s, %s, ns)\n}\n" % (name, t, vs, std, ix))
            table.append('        ("%s", %s),\n' % (t, name))
    return "\n" + "".join(fns) + "\nfn main() {\n    vh::probe::convert(&[\n%s    ]);\n}\n" % "".join(table)


def c25(c):
    for name, count in [("enums", 0), ("numbers", 0), ("names", 0), ("ran_enums", 300 if THOROUGH else 40)]:
        docs, enums, codes = helped(c, name, count)
        modules = {k: (codes[k], enums[k]) for k in codes if k in enums}
        exes = compiled(c, "h_" + name, modules, conversions)
        base = os.path.join(BUILD, "run", c.prop)
        asked = os.path.join(base, name + ".ask")
        with open(asked, "w") as f:
            for k in modules:
                for e in enums[k]:
                    f.write(json.dumps({"t": "%s::%s" % (k, e["t"]), "ns": [t[0] for t in e["tries"]]}) + "\n")
        got = {}
        for exe in sorted({e for e in exes.values() if e}):
            r = subprocess.run([exe, asked], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            for l in r.stdout.split("\n"):
                if l:
                    j = json.loads(l)
                    got[j["t"]] = j
        n = 0
        for k in modules:
            if not exes.get(k):
                continue
            for e in enums[k]:
                t = "%s::%s" % (k, e["t"])
                g = got.get(t)
                want = [[v[1], v[2]] for v in e["vs"]]
                bad = None
                n += 3 * len(e["vs"]) + len(e["tries"]) + 1
                if g is None or "panic" in g:
                    bad = "converting panics", g, ""
                elif g["cast"] != want:
                    bad = "casts", g["cast"], want
                elif e["e"] == "std" and g["as_ref"] != want:
                    bad = "AsRef", g["as_ref"], want
                elif e["e"] == "std" and g["try_from"] != [[a, b or None] for a, b in e["tries"]]:
                    bad = "TryFrom", g["try_from"], e["tries"]
                elif e["e"] == "ix" and g["index"] != want:
                    bad = "XdrIndexer::index", g["index"], want
                if bad:
                    c.violation("%s of the enum %s of %s: %s; must be %s" % (bad[0], e["t"], k, str(bad[1])[:300], str(bad[2])[:300]),
                                {"text": "".join(docs[k]["x"])[:20000], "mode": docs[k]["c"], "enum": e, "got": g})
                elif n % 50 < 3:
                    c.sample({"enum": e["t"], "of": k, "must": want[:6]})
        c.replayed(n, "conversions: " + name)
        c.cov.setdefault("documents", {})[name] = {"modules": len(modules), "enums": sum(len(enums[k]) for k in modules)}


def makings(keys, modules):
    return "\nfn main() {\n    vh::probe::defaults(&[\n%s    ]);\n}\n" % "".join(
        '        ("%s::%s", vh::probe::made::<%s::%s>),\n' % (k, t, k, t) for k in keys for t in modules[k][1])


def c26(c):
    for name, count in [("structs", 0), ("enums", 0), ("unions", 0), ("typedefs", 0), ("names", 0), ("ran_structs", 150 if THOROUGH else 12), ("ran_unions", 200 if THOROUGH else 24)]:
        docs, _, codes = helped(c, name, count)
        modules = {k: (codes[k], sorted(t for t, _ in docs[k]["ts"])) for k in codes}
        exes = compiled(c, "d_" + name, modules, makings)
        base = os.path.join(BUILD, "run", c.prop)
        made = {}
        for exe in sorted({e for e in exes.values() if e}):
            at = 0
            while at is not None:
                # the next value to make, when making one ends the process
                r = subprocess.run([exe, str(at)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
                lines = [json.loads(l) for l in r.stdout.split("\n") if l]
                for j in lines:
                    if "t" in j:
                        made[j["t"]] = j
                if lines and lines[-1].get("done"):
                    at = None
                elif not lines:
                    raise ToolError("the probe failed: %s %s" % (r.returncode, r.stderr[-500:]))
                else:
                    last = lines[-1]
                    made[last["t"]] = {"t": last["t"], "died": r.returncode}
                    at = last["i"] + 1
        tr = os.path.join(base, name + ".made")
        n = 0
        with open(tr, "w") as f:
            where = []
            for k in modules:
                if not exes.get(k):
                    continue
                for t, spec in docs[k]["ts"]:
                    j = made.get("%s::%s" % (k, t), {})
                    n += 1
                    if "x" in j:
                        f.write(json.dumps({"doc": docs[k]["doc"], "mode": docs[k]["mode"], "ty": spec, "x": j["x"], "d": j["d"]}) + "\n")
                        where.append((k, t, j))
                    else:
                        c.violation("the default value of %s of %s %s" % (t, k, "cannot be made (the process ends: %s)" % j["died"] if "died" in j else
                                                                          "cannot be encoded: %s" % str(j)[:300]), {"text": "".join(docs[k]["x"])[:20000], "mode": docs[k]["c"], "got": j})
        c.replayed(n, "default values: " + name)
        c.cov.setdefault("documents", {})[name] = {"modules": len(modules), "types": sum(len(m[1]) for m in modules.values())}
        if not where:
            continue
        r = tlc(c.prop, name + "_made", "TraceDefaults", {"Subject": name, "Deepness": 1 if THOROUGH else 0, "Seed": SEED, "Count": count}, invariants=["Checked"], env={"TRACE": tr}, spec="SpecD")
        c.model(r, "TraceDefaults %s" % name)
        c.sample({"type": where[0][1], "of": where[0][0], "default": where[0][2]})
        for j in r.json:
            k, t, g = where[j["reject"] - 1]
            c.violation("the default value of %s of %s is not a value of it (or not the lowest enumerator): %s encoded as %s" % (t, k, g["d"][:300], str(g["x"])[:300]),
                        {"text": "".join(docs[k]["x"])[:20000], "mode": docs[k]["c"], "type": t, "got": g})
