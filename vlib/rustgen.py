"""Rust source for the specification's types."""
import json

PRIM = {"bool": "bool", "i8": "i8", "u8": "u8", "i16": "i16", "u16": "u16", "i32": "i32", "u32": "u32", "i64": "i64",
        "u64": "u64", "f32": "f32", "f64": "f64", "char": "char", "str": "String", "unit": "()"}
# names that derive macros may be tempted to use themselves
NAMES = list("ADSVETKXYZBCFGHIJLMNOPQRUW") + ["Value", "Visitor", "Inner", "Deserializer", "Serializer", "Index", "Seq"]


def vname(j):
    return "ABCDEFGH"[j] if j < 8 else "V%d" % j


def number(l):
    n = 0
    for x in l:
        n = n * 65536 + x
    return n


class Source:
    def __init__(self):
        self.items = []
        self.named = {}
        self.count = 0

    def fresh(self):
        n = NAMES[self.count] if self.count < len(NAMES) else "Item%d" % self.count
        self.count += 1
        return n

    def ty(self, t):
        k = t["k"]
        if k in PRIM:
            return PRIM[k]
        if k == "opt":
            return "Option<%s>" % self.ty(t["e"])
        if k == "seq":
            return "Vec<%s>" % self.ty(t["e"])
        if k == "arr":
            return "[%s; %d]" % (self.ty(t["e"]), t["n"])
        if k == "map":
            return "vh::conv::KvMap<%s, %s>" % (self.ty(t["a"]), self.ty(t["d"]))
        if k == "tup":
            return "(%s,)" % ", ".join(self.ty(x) for x in t["ts"])
        if k == "ovar":
            return "serde_xdr::opaque::VariableArray"
        if k == "ofix":
            return "serde_xdr::opaque::FixedArray<%d>" % t["n"]
        key = json.dumps(t, sort_keys=True)
        if key not in self.named:
            self.named[key] = None
            name = self.define(t)
            self.named[key] = name
        return self.named[key]

    def conv(self, name, frm, to):
        self.items.append("impl Conv for %s {\n    fn from_val(v: &Val) -> Self { %s }\n    fn to_val(&self) -> Val { %s }\n}" % (name, frm, to))

    def define(self, t):
        k = t["k"]
        serde = "#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]\n"
        if k == "ustruct":
            n = self.fresh()
            self.items.append(serde + "pub struct %s;" % n)
            self.conv(n, n, "Val::U")
        elif k == "newtype":
            e = self.ty(t["e"])
            n = self.fresh()
            self.items.append(serde + "pub struct %s(%s);" % (n, e))
            self.conv(n, "%s(<%s>::from_val(v))" % (n, e), "self.0.to_val()")
        elif k in ("struct", "tstruct"):
            ts = [self.ty(x) for x in t["ts"]]
            n = self.fresh()
            if k == "struct":
                self.items.append(serde + "pub struct %s { %s }" % (n, ", ".join("f%d: %s" % p for p in enumerate(ts))))
                made = "%s { %s }" % (n, ", ".join("f%d: <%s>::from_val(&items(v)[%d])" % (i, x, i) for i, x in enumerate(ts)))
                back = ", ".join("self.f%d.to_val()" % i for i in range(len(ts)))
            else:
                self.items.append(serde + "pub struct %s(%s);" % (n, ", ".join(ts)))
                made = "%s(%s)" % (n, ", ".join("<%s>::from_val(&items(v)[%d])" % (x, i) for i, x in enumerate(ts)))
                back = ", ".join("self.%d.to_val()" % i for i in range(len(ts)))
            self.conv(n, made, "Val::Xs(vec![%s])" % back)
        elif k == "enum":
            vs = [(v["vk"], [self.ty(x) for x in v["ts"]]) for v in t["vs"]]
            n = self.fresh()
            body, frm, to = [], [], []
            for j, (vk, ts) in enumerate(vs):
                a = ["a%d" % i for i in range(len(ts))]
                make = ["<%s>::from_val(&items(v)[%d])" % (x, i) for i, x in enumerate(ts)]
                vals = ", ".join("%s.to_val()" % x for x in a)
                if vk == "unit":
                    body.append(vname(j))
                    frm.append("%d => %s::%s" % (j, n, vname(j)))
                    to.append("%s::%s => Val::I(%d, vec![])" % (n, vname(j), j))
                elif vk == "struct":
                    body.append("%s { %s }" % (vname(j), ", ".join("a%d: %s" % p for p in enumerate(ts))))
                    frm.append("%d => %s::%s { %s }" % (j, n, vname(j), ", ".join("%s: %s" % p for p in zip(a, make))))
                    to.append("%s::%s { %s } => Val::I(%d, vec![%s])" % (n, vname(j), ", ".join(a), j, vals))
                else:
                    body.append("%s(%s)" % (vname(j), ", ".join(ts)))
                    frm.append("%d => %s::%s(%s)" % (j, n, vname(j), ", ".join(make)))
                    to.append("%s::%s(%s) => Val::I(%d, vec![%s])" % (n, vname(j), ", ".join(a), j, vals))
            self.items.append(serde + "pub enum %s { %s }" % (n, ", ".join(body)))
            self.conv(n, "match variant(v) { %s, _ => panic!() }" % ", ".join(frm), "match self { %s }" % ", ".join(to))
        elif k in ("ix", "un"):
            d = [self.ty(t["d"])] if k == "un" else []
            vs = [d + [self.ty(x) for x in v["ts"]] for v in t["vs"]]
            n = self.fresh()
            body, frm, to, names, index = [], [], [], [], []
            default = "_ => Err(())"
            for j, ts in enumerate(vs):
                a = ["a%d" % i for i in range(len(ts))]
                pat = "%s::%s" % (n, vname(j)) + ("(%s)" % ", ".join(a) if a else "")
                make = ["<%s>::from_val(&items(v)[%d])" % (x, i) for i, x in enumerate(ts)]
                body.append(vname(j) + ("(%s)" % ", ".join(ts) if ts else ""))
                frm.append("%d => %s::%s" % (j, n, vname(j)) + ("(%s)" % ", ".join(make) if make else ""))
                to.append("%s => Val::I(%d, vec![%s])" % (pat, j, ", ".join("%s.to_val()" % x for x in a)))
                if k == "ix":
                    names.append("%d => Ok(\"%s\")" % (t["vs"][j]["num"], vname(j)))
                    index.append("%s => %d" % (pat, t["vs"][j]["num"]))
                elif t["vs"][j]["def"]:
                    default = "_ => Ok(\"%s\")" % vname(j)
                else:
                    names.append("%s => Ok(\"%s\")" % (" | ".join(self.pattern(t["d"], d[0], x) for x in t["vs"][j]["ls"]), vname(j)))
            names.append(default)
            if k == "ix":
                self.items.append("#[derive(Clone, Debug, PartialEq, serde_xdr_derive::XdrIndexer)]\npub enum %s { %s }" % (n, ", ".join(body)))
                self.items.append("impl XdrIndexer for %s {\n    type Error = ();\n    fn name_by_index(index: i32) -> Result<&'static str, ()> { match index { %s } }\n"
                                  "    fn index(&self) -> i32 { match self { %s } }\n}" % (n, ", ".join(names), ", ".join(index)))
            else:
                self.items.append("#[derive(Clone, Debug, PartialEq, serde_xdr_derive::XdrUnion)]\npub enum %s { %s }" % (n, ", ".join(body)))
                self.items.append("impl XdrUnion<%s> for %s {\n    type Error = ();\n    fn name_by_value(value: &%s) -> Result<&'static str, ()> { match value { %s } }\n}"
                                  % (d[0], n, d[0], ", ".join(names)))
            self.conv(n, "match variant(v) { %s, _ => panic!() }" % ", ".join(frm), "match self { %s }" % ", ".join(to))
        else:
            raise ValueError(k)
        return n

    def pattern(self, t, name, v):
        if "b" in v:
            return "true" if v["b"] else "false"
        if "n" in v:
            return str(v["n"])
        if "l" in v:
            n = number(v["l"])
            return str(n - (1 << 64) if t["k"] == "i64" and n >> 63 else n)
        return "%s::%s" % (name, vname(v["i"]))

    def text(self, tops):
        tys = [self.ty(t) for t in tops]
        return ("// generated from the specification\n#![allow(unused, unreachable_patterns, non_camel_case_types)]\n"
                "use serde::ser::SerializeTuple;\nuse serde::{Deserialize, Serialize};\nuse serde_xdr::{XdrIndexer, XdrUnion};\nuse vh::conv::{Conv, items, variant};\nuse vh::dynamic::Val;\n\n"
                + "\n".join(self.items) + "\n\nfn main() {\n    vh::zoo::main(&[\n"
                + "".join("        vh::zoo::entry::<%s>(),\n" % x for x in tys) + "    ]);\n}\n")
