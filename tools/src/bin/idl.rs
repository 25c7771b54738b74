//! idl ast FILE SHARD SHARDS PROGRESS      texts printed by TLC, into the real parser
//! idl crash FILE SHARD SHARDS PROGRESS    the same texts, parsed and generated under every configuration
//! idl fuzz SEED ROUNDS PROGRESS           arbitrary texts: parsed and generated
//! idl verdict FILE SHARD SHARDS PROGRESS  whether code is generated, as the specification says
//! idl names FILE SHARD SHARDS PROGRESS    names which must appear in the generated code
//! idl gen FILE OUT                        generated code of every line's text and configuration
use rpcgen::gen_code::{Config, gen_code};
use rpcgen::parser::*;
use serde_json::{Value as J, json};
use std::io::{BufRead, BufWriter, Write};
use std::time::Duration;
use vh::rng::Rng;
use vh::run::{Progress, guard};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "ast" => ast(&a[2], n(3), n(4), &a[5]),
        "crash" => crash(&a[2], n(3), n(4), &a[5]),
        "fuzz" => fuzz(n(2), n(3), &a[4]),
        "verdict" => verdict(&a[2], n(3), n(4), &a[5]),
        "names" => names(&a[2], n(3), n(4), &a[5]),
        "gen" => generate(&a[2], &a[3]),
        c => panic!("command {c}"),
    }
}

/// What stands for text that is not ASCII in the specification's texts.
const WIDE: &str = "é漢😀\u{a0}";

fn text(x: &J) -> String {
    match x {
        J::String(s) => s.clone(),
        x => x.as_array().unwrap().iter().map(|p| p.as_str().unwrap()).collect::<String>().replace("UUU", WIDE),
    }
}

fn lines(file: &str) -> impl Iterator<Item = (u64, J)> {
    std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(file).unwrap())
        .lines()
        .enumerate()
        .map(|(i, l)| (i as u64, serde_json::from_str(&l.unwrap()).unwrap()))
}

// ---- the parser's output as the specification writes it ----
fn jv(v: &Value) -> J {
    match v {
        Value::Constant(Constant::Decimal(t)) => json!({"c": "dec", "t": t}),
        Value::Constant(Constant::Hex(t)) => json!({"c": "hex", "t": t}),
        Value::Constant(Constant::Octal(t)) => json!({"c": "oct", "t": t}),
        Value::Identifier(n) => json!({"id": n}),
    }
}

fn jo(v: &Option<Value>) -> J {
    J::Array(v.iter().map(jv).collect())
}

fn ja(a: &Assign) -> J {
    json!({"n": a.identifier, "v": jv(&a.value)})
}

fn jt(t: &TypeSpecifier) -> J {
    match t {
        TypeSpecifier::Int(s) => json!({"k": "int", "s": s}),
        TypeSpecifier::Hyper(s) => json!({"k": "hyper", "s": s}),
        TypeSpecifier::Char(s) => json!({"k": "char", "s": s}),
        TypeSpecifier::Short(s) => json!({"k": "short", "s": s}),
        TypeSpecifier::Float => json!({"k": "float"}),
        TypeSpecifier::Double => json!({"k": "double"}),
        TypeSpecifier::Quadruple => json!({"k": "quadruple"}),
        TypeSpecifier::Bool => json!({"k": "bool"}),
        TypeSpecifier::Void => json!({"k": "void"}),
        TypeSpecifier::Identifier(n) => json!({"k": "id", "n": n}),
        TypeSpecifier::Enum(e) => json!({"k": "enum", "b": e.body.iter().map(ja).collect::<Vec<_>>()}),
        TypeSpecifier::Struct(e) => json!({"k": "struct", "b": e.body.iter().map(jd).collect::<Vec<_>>()}),
        TypeSpecifier::Union(e) => json!({"k": "union", "u": jb(&e.body)}),
    }
}

fn jd(d: &Declaration) -> J {
    match d {
        Declaration::Variable(t, n) => json!({"d": "var", "ty": jt(t), "n": n, "v": []}),
        Declaration::FixedArray(t, n, v) => json!({"d": "fixed", "ty": jt(t), "n": n, "v": [jv(v)]}),
        Declaration::VariableArray(t, n, v) => json!({"d": "varr", "ty": jt(t), "n": n, "v": jo(v)}),
        Declaration::OpaqueFixedArray(n, v) => json!({"d": "ofix", "n": n, "v": [jv(v)]}),
        Declaration::OpaqueVariableArray(n, v) => json!({"d": "ovar", "n": n, "v": jo(v)}),
        Declaration::String(n, v) => json!({"d": "str", "n": n, "v": jo(v)}),
        Declaration::OptionVariable(t, n) => json!({"d": "opt", "ty": jt(t), "n": n, "v": []}),
        Declaration::Void => json!({"d": "void"}),
    }
}

fn jb(b: &UnionBody) -> J {
    let case = |c: &CaseSpec| json!({"vs": c.values.iter().map(jv).collect::<Vec<_>>(), "d": jd(&c.declaration)});
    json!({"cond": jd(&b.cond), "cases": b.specs.iter().map(case).collect::<Vec<_>>(),
           "def": b.default.iter().map(jd).collect::<Vec<_>>()})
}

fn jdef(d: &Definition) -> J {
    match d {
        Definition::LineComment => json!({"p": "line"}),
        Definition::Constant(a) => json!({"p": "const", "a": ja(a)}),
        Definition::Type(TypeDef::Declaration(d)) => json!({"p": "typedef", "d": jd(d)}),
        Definition::Type(TypeDef::Enum(n, b)) => json!({"p": "enum", "n": n, "b": b.iter().map(ja).collect::<Vec<_>>()}),
        Definition::Type(TypeDef::Struct(n, b)) => json!({"p": "struct", "n": n, "b": b.iter().map(jd).collect::<Vec<_>>()}),
        Definition::Type(TypeDef::Union(n, b)) => json!({"p": "union", "n": n, "u": jb(b)}),
        Definition::Program(p) => {
            let proc = |p: &Procedure| json!({"res": jt(&p.res_ty), "n": p.method, "req": jt(&p.req_ty), "v": jv(&p.value)});
            let vers = |v: &Version| json!({"n": v.name, "procs": v.procedures.iter().map(proc).collect::<Vec<_>>(), "v": jv(&v.value)});
            json!({"p": "prog", "n": p.name, "vers": p.versions.iter().map(vers).collect::<Vec<_>>(), "v": jv(&p.value)})
        }
    }
}

fn ast(file: &str, shard: u64, shards: u64, progress: &str) {
    let p = Progress::new(Some(progress), Duration::from_secs(20));
    let (mut acc, mut rej, mut may) = (0u64, 0u64, 0u64);
    for (i, j) in lines(file).filter(|(i, _)| i % shards == shard) {
        let t = text(&j["x"]);
        p.at(i);
        let got = guard(|| parse(&t).map(|ds| J::Array(ds.iter().map(jdef).collect())).map_err(|e| format!("{e:?}")));
        let m = j["m"].as_str().unwrap();
        *match m {
            "acc" => &mut acc,
            "rej" => &mut rej,
            _ => &mut may,
        } += 1;
        let bad = match (m, &got) {
            (_, Err(_)) => Some("panic"),
            ("acc" | "may", Ok(Ok(ds))) => (ds != &j["a"]).then_some("different"),
            ("acc", Ok(Err(_))) => Some("refused"),
            ("rej", Ok(Ok(_))) => Some("accepted"),
            _ => None,
        };
        if let Some(bad) = bad {
            println!("{}", json!({"bad": bad, "line": i, "text": t, "got": match got { Err(e) => json!(e), Ok(Ok(d)) => d, Ok(Err(e)) => json!(e) }}));
        }
    }
    p.done();
    println!("{}", json!({"done": true, "acc": acc, "rej": rej, "may": may}));
}

fn config(bits: u64) -> Config {
    Config {
        remove_typedef: bits & 1 == 0,
        enum_impl_indexer: bits & 2 != 0,
        enum_impl_std_trait: bits & 4 != 0,
        union_impl_indexer: bits & 8 != 0,
        union_impl_union: bits & 16 != 0,
    }
}

/// Parse and generate under every configuration; what went wrong, and how many ran.
fn all_ways(t: &str) -> (Option<(u64, String)>, u64, bool) {
    let defs = match guard(|| parse(t)) {
        Err(e) => return (Some((99, e)), 1, false),
        Ok(Err(_)) => return (None, 1, false),
        Ok(Ok(d)) => d,
    };
    for bits in 0..32 {
        if let Err(e) = guard(|| gen_code(defs.clone(), &config(bits)).map_err(|_| ())) {
            return (Some((bits, e)), bits + 1, true);
        }
    }
    (None, 33, true)
}

fn crash(file: &str, shard: u64, shards: u64, progress: &str) {
    let p = Progress::new(Some(progress), Duration::from_secs(20));
    let (mut runs, mut parsed) = (0u64, 0u64);
    for (i, j) in lines(file).filter(|(i, _)| i % shards == shard) {
        let t = text(&j["x"]);
        p.at(i);
        let (bad, n, ok) = all_ways(&t);
        runs += n;
        parsed += ok as u64;
        if let Some((bits, e)) = bad {
            println!("{}", json!({"bad": "panic", "line": i, "text": t, "got": format!("configuration {bits}: {e}")}));
        }
    }
    p.done();
    println!("{}", json!({"done": true, "runs": runs, "parsed": parsed}));
}

/// Texts put together from the words of the language, and texts damaged byte by byte.
fn fuzz(seed: u64, rounds: u64, progress: &str) {
    let p = Progress::new(None, Duration::from_secs(20));
    let mut r = Rng(seed);
    let words: Vec<&str> = "const typedef enum struct union switch case default void int unsigned hyper float double quadruple bool \
        opaque string program version ; ; ; , : { } { } [ ] < > ( ) = * a b c d e A B TRUE FALSE 0 1 2 5 32 33 65535 65536 \
        2147483647 2147483648 4294967295 4294967296 18446744073709551615 18446744073709551616 -1 -2147483648 0x10 017 /* */ \
        % _ __ Self self type"
        .split_whitespace()
        .collect();
    // definitions with holes: N a name, V a value, T a type
    let forms = [
        "const N = V;", "typedef T N;", "typedef T N[V];", "typedef T N<V>;", "typedef T N<>;", "typedef T *N;", "typedef opaque N[V];",
        "typedef opaque N<>;", "typedef string N<>;", "typedef void;", "enum N { N = V };", "enum N { N = V, N = V };",
        "enum N { N = V, N = V, N = V };", "struct N { T N; };", "struct N { T N; T *N; opaque N[V]; };", "struct N { void; };",
        "struct N { T N<>; T N[V]; string N<V>; };",
        "union N switch (T N) { case V: void; };", "union N switch (T N) { case V: T N; case V: opaque N<>; default: void; };",
        "union N switch (T N) { case V: case V: T *N; default: T N[V]; };", "union N switch (T N) { case V: opaque N[V]; default: opaque N[V]; };",
        "program N { version N { T N(void) = V; } = V; } = V;", "%line\n",
    ];
    let names = ["a", "b", "c", "d", "A", "B", "TRUE", "FALSE", "_", "__", "Self", "self", "type", "x_1", "_1", "String", "Default"];
    let values = ["0", "1", "2", "5", "33", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "-1", "-2147483648",
        "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0xFFFFFFFF", "0x7fffffff", "037777777777", "-2147483649"];
    let types = ["int", "unsigned int", "hyper", "unsigned hyper", "float", "double", "quadruple", "bool", "char", "unsigned short",
        "enum { N = V }", "struct { T N; }", "union switch (T N) { case V: void; }"];
    let mut file = std::fs::File::create(progress).unwrap();
    let (mut cases, mut parsed, mut runs) = (0u64, 0u64, 0u64);
    for _ in 0..rounds {
        let mut t = String::new();
        if r.below(4) == 0 {
            for _ in 0..r.below(25) {
                t.push_str(words[r.below(words.len() as u64) as usize]);
                if r.below(8) != 0 {
                    t.push(' ');
                }
            }
        } else {
            for _ in 0..1 + r.below(6) {
                let mut form = forms[r.below(forms.len() as u64) as usize].to_string();
                // the holes outside words; inline types up to two levels
                let mut depth = 0;
                loop {
                    let hole = form
                        .char_indices()
                        .find(|(i, c)| "NVT".contains(*c) && !form[i + 1..].starts_with(|c: char| c.is_alphanumeric()) && !form[..*i].ends_with(|c: char| c.is_alphanumeric()));
                    let Some((i, c)) = hole else { break };
                    let with = match c {
                        'N' => names[r.below(names.len() as u64) as usize],
                        'V' if r.below(3) == 0 => names[r.below(names.len() as u64) as usize],
                        'V' => values[r.below(values.len() as u64) as usize],
                        _ if r.below(3) == 0 => names[r.below(names.len() as u64) as usize],
                        _ => {
                            depth += 1;
                            types[r.below(if depth > 2 { 10 } else { types.len() as u64 }) as usize]
                        }
                    };
                    form.replace_range(i..i + 1, with);
                }
                t.push_str(&form);
                t.push('\n');
            }
            for _ in 0..r.below(5).saturating_sub(2) {
                let at = r.below(t.len() as u64 + 1) as usize;
                if !t.is_char_boundary(at) {
                    continue;
                }
                match r.below(3) {
                    0 if at < t.len() => {
                        t.remove(at);
                    }
                    1 => t.insert_str(at, words[r.below(words.len() as u64) as usize]),
                    _ => t.insert(at, ['é', '\0', '/', '*', '%', '{', '\u{feff}', '9'][r.below(8) as usize]),
                }
            }
        }
        p.at(cases);
        use std::io::Seek;
        file.seek(std::io::SeekFrom::Start(0)).unwrap();
        file.set_len(0).unwrap();
        file.write_all(t.as_bytes()).unwrap();
        let (bad, n, ok) = all_ways(&t);
        cases += 1;
        runs += n;
        parsed += ok as u64;
        if let Some((bits, e)) = bad {
            println!("{}", json!({"bad": "panic", "text": t, "got": format!("configuration {bits}: {e}")}));
        }
    }
    p.done();
    println!("{}", json!({"done": true, "cases": cases, "parsed": parsed, "runs": runs}));
}

/// Every line {x: text, c: configuration}: what the generator makes of it.
fn code(t: &str, bits: u64) -> Result<Result<String, String>, String> {
    guard(|| parse(t).map_err(|e| format!("parse: {e:?}")).and_then(|d| gen_code(d, &config(bits)).map_err(|e| format!("gen: {e:?}"))))
}

fn verdict(file: &str, shard: u64, shards: u64, progress: &str) {
    let p = Progress::new(Some(progress), Duration::from_secs(20));
    let (mut ok, mut err, mut any) = (0u64, 0u64, 0u64);
    for (i, j) in lines(file).filter(|(i, _)| i % shards == shard) {
        let t = text(&j["x"]);
        p.at(i);
        let got = code(&t, j["c"].as_u64().unwrap());
        let m = j["m"].as_str().unwrap();
        *match m {
            "ok" => &mut ok,
            "err" => &mut err,
            _ => &mut any,
        } += 1;
        let bad = match (m, &got) {
            (_, Err(_)) => "panic",
            ("ok", Ok(Err(_))) => "refused",
            ("err", Ok(Ok(_))) => "accepted",
            // a refusal is of the generator: the text itself is in the grammar
            (_, Ok(Err(e))) if e.starts_with("parse") => "refused",
            _ => continue,
        };
        println!("{}", json!({"bad": bad, "line": i, "text": t, "got": format!("{got:?}").chars().take(2000).collect::<String>()}));
    }
    p.done();
    println!("{}", json!({"done": true, "ok": ok, "err": err, "any": any}));
}

fn shown(t: &impl quote::ToTokens) -> String {
    t.to_token_stream().to_string()
}

/// What the text defines: kind, name, and the names inside.
fn items(code: &str) -> Result<J, String> {
    let f = syn::parse_file(code).map_err(|e| e.to_string())?;
    let mut out = vec![];
    for i in &f.items {
        out.push(match i {
            syn::Item::Const(c) => json!({"k": "const", "n": shown(&c.ident), "in": []}),
            syn::Item::Struct(s) => json!({"k": "struct", "n": shown(&s.ident), "in": s.fields.iter().map(|f| f.ident.as_ref().map(shown).unwrap_or_default()).collect::<Vec<_>>()}),
            syn::Item::Enum(e) => json!({"k": "enum", "n": shown(&e.ident), "in": e.variants.iter().map(|v| shown(&v.ident)).collect::<Vec<_>>()}),
            syn::Item::Type(t) => json!({"k": "type", "n": shown(&t.ident), "in": []}),
            _ => continue,
        });
    }
    Ok(J::Array(out))
}

fn names(file: &str, shard: u64, shards: u64, progress: &str) {
    let p = Progress::new(Some(progress), Duration::from_secs(20));
    let mut runs = 0u64;
    for (i, j) in lines(file).filter(|(i, _)| i % shards == shard) {
        let t = text(&j["x"]);
        p.at(i);
        runs += 1;
        let bad = match code(&t, j["c"].as_u64().unwrap()) {
            Err(e) => Some(("panic", e)),
            Ok(Err(e)) => Some(("refused", e)),
            Ok(Ok(text)) => match items(&text) {
                Err(e) => Some(("not Rust", format!("{e}: {text}"))),
                Ok(got) => missing(j["it"].as_array().unwrap(), got.as_array().unwrap()).map(|m| ("names", format!("{m}: {text}"))),
            },
        };
        if let Some((bad, e)) = bad {
            println!("{}", json!({"bad": bad, "line": i, "text": t, "got": e.chars().take(1500).collect::<String>()}));
        }
    }
    p.done();
    println!("{}", json!({"done": true, "runs": runs}));
}

fn missing(want: &[J], got: &[J]) -> Option<String> {
    for w in want {
        let found: Vec<_> = got.iter().filter(|g| g["k"] == w["k"] && g["n"] == w["n"]).collect();
        if found.len() != 1 {
            return Some(format!("{} {} appears {} times", w["k"], w["n"], found.len()));
        }
        let inside = found[0]["in"].as_array().unwrap();
        for n in w["in"].as_array().unwrap() {
            if inside.iter().filter(|g| *g == n).count() != 1 {
                return Some(format!("{} {} has no {n}, or several", w["k"], w["n"]));
            }
        }
    }
    None
}

fn generate(file: &str, out: &str) {
    let mut o = BufWriter::new(std::fs::File::create(out).unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    for (_, j) in lines(file) {
        let t = text(&j["x"]);
        let bits = j["c"].as_u64().unwrap();
        let line = match code(&t, bits) {
            Err(e) => json!({"panic": e}),
            Ok(Err(e)) => json!({"err": e}),
            Ok(Ok(text)) => {
                let again = code(&t, bits) == Ok(Ok(text.clone()));
                match items(&text) {
                    Ok(it) => json!({"code": text, "items": it, "again": again}),
                    Err(e) => json!({"code": text, "invalid": e, "again": again}),
                }
            }
        };
        writeln!(o, "{line}").unwrap();
    }
    o.flush().unwrap();
}
