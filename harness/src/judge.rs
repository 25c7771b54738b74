//! Judging what the code did with a vector of the specification.
use crate::dynamic::{Val, class};
use crate::run::guard;
use serde_json::{Value as J, json};

type Error = serde_xdr::error::Error;

#[derive(Default)]
pub struct Out {
    pub shown: u64,
    pub bad: u64,
    first: Option<std::time::Instant>,
}
impl Out {
    /// What is wrong has been shown; a broken code may take for ever on the rest.
    pub fn enough(&self) -> bool {
        self.first.is_some_and(|t| t.elapsed().as_secs() >= 15)
    }

    pub fn say(&mut self, i: u64, kind: &str, mode: u32, got: J) {
        self.bad += 1;
        if self.first.is_none() && std::env::var("VH_KINDS").is_ok_and(|k| k.split(',').any(|x| x == kind)) {
            self.first = Some(std::time::Instant::now());
        }
        if self.shown < 200 {
            self.shown += 1;
            println!("{}", json!({"bad": kind, "line": i, "mode": mode, "got": got}));
        }
    }
}

pub fn err_json(e: &serde_xdr::error::Error) -> J {
    let (c, x) = class(e);
    json!({"err": c, "x": x, "text": format!("{e:?}")})
}

/// enc and dec are the real code on the vector's type; v is the vector's value
pub fn one_encode(
    out: &mut Out,
    i: u64,
    m: u32,
    v: &Val,
    want: Option<&[u8]>,
    boom: bool,
    enc: &dyn Fn() -> Result<Vec<u8>, Error>,
    dec: Option<&dyn Fn(&[u8]) -> Result<Val, Error>>,
) {
    let got = match guard(enc) {
        Err(msg) => return out.say(i, "panic", m, json!({"panic": msg})),
        Ok(r) => r,
    };
    match (want, got) {
        (Some(w), Ok(b)) => {
            if w != b.as_slice() {
                out.say(i, "enc-bytes", m, json!({"bytes": b}));
            }
            let Some(dec) = dec else { return };
            match guard(|| dec(&b)) {
                Err(msg) => out.say(i, "trip-panic", m, json!({"panic": msg})),
                Ok(Ok(x)) if x == *v => {}
                Ok(Ok(x)) => out.say(i, "trip", m, json!({"v": x.json(), "bytes": b})),
                Ok(Err(e)) => out.say(i, "trip", m, err_json(&e)),
            }
        }
        (Some(_), Err(e)) => out.say(i, "enc-refused", m, err_json(&e)),
        (None, Ok(b)) => {
            out.say(i, "enc-accepted", m, json!({"len": b.len(), "head": b[..b.len().min(64)]}));
        }
        (None, Err(e)) => {
            if boom && class(&e).0 != "Boom" {
                out.say(i, "enc-class", m, err_json(&e));
            }
        }
    }
}

/// bomb: the type has parts which fail by themselves
pub fn one_decode(
    out: &mut Out,
    i: u64,
    m: u32,
    bomb: bool,
    w: &[u8],
    r: &J,
    dec: &dyn Fn(&[u8]) -> Result<Val, Error>,
) {
    let got = match guard(|| dec(w)) {
        Err(msg) => return out.say(i, "panic", m, json!({"panic": msg})),
        Ok(r) => r,
    };
    match (r["ok"].as_bool().unwrap(), got) {
        (true, Ok(x)) => {
            if x != Val::parse(&r["v"]) {
                out.say(i, "dec-value", m, json!({"v": x.json()}));
            }
        }
        (true, Err(e)) => out.say(i, "dec-refused", m, err_json(&e)),
        (false, Ok(x)) => out.say(i, "dec-accepted", m, json!({"v": x.json()})),
        (false, Err(e)) => {
            let (mut c, x) = class(&e);
            if c == "Boom" {
                c = "Custom".into();
            } else if c == "Custom" && bomb && r["e"] == json!(["Custom"]) {
                c = "OtherCustom".into();
            }
            let listed = r["e"].as_array().unwrap().iter().any(|k| k.as_str() == Some(&c));
            if !listed || (c == "Trailing" && r["x"].as_u64() != Some(x)) {
                out.say(i, "dec-class", m, err_json(&e));
            }
        }
    }
}

