//! JSON and RON: the same operations on either format.
use crate::jv::{cps, J};

/// bits of every number written outside strings, so that the specification can compare floats
pub fn numbers(s: &str, extra: &J) -> J {
    let mut lex: Vec<String> = vec![];
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' { if b[i] == '\\' { i += 1 } i += 1 }
            i += 1;
        } else if b[i] == '-' || b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_digit() || "+-.eE".contains(b[i])) { i += 1 }
            lex.push(b[st..i].iter().collect());
        } else { i += 1 }
    }
    fn floats(v: &J, o: &mut Vec<String>) {
        if let J::A(a) = v {
            if a.len() == 2 && matches!(&a[0], J::S(t) if t == "flt") { o.push(a[1].text()) } else { for x in a { floats(x, o) } }
        }
    }
    floats(extra, &mut lex);
    lex.sort();
    lex.dedup();
    J::A(lex.iter().filter(|l| l.parse::<f64>().is_ok()).map(|l| J::A(vec![
        cps(l),
        J::A(l.parse::<f32>().unwrap().to_le_bytes().iter().map(|b| J::N(*b as i64)).collect()),
        J::A(l.parse::<f64>().unwrap().to_le_bytes().iter().map(|b| J::N(*b as i64)).collect()),
    ])).collect())
}

macro_rules! format_mod {
    ($m:ident, $feat:literal, $Ser:ident, $De:ident, $St:ident, $Err:ident, $Why:ident, $Tok:ident, $newser:expr, $SerSt:ident,
     $ser:ident, $de:ident, $serialize:ident, $deserialize:ident) => {
#[cfg(feature = $feat)]
pub mod $m {
    use crate::abs::*;
    use nanoserde::*;
    use std::str::Chars;

    pub struct Vt {
        /// text after a prefix, written at a nesting level
        pub ser: fn(&J, usize, String) -> String,
        pub whole: fn(&J) -> String,
        pub dec: fn(&str) -> Result<J, J>,
        pub step: fn(&mut $St, &mut Chars) -> Result<J, J>,
        pub norm: fn(&J) -> J,
    }
    pub fn vt<T: Abs + $Ser + $De>() -> Vt {
        Vt {
            ser: |v, d, out| { let mut s = $newser(out); T::from_abs(v).$ser(d, &mut s); crate::note(|| s.out.clone()); s.out },
            whole: |v| { let s = T::from_abs(v).$serialize(); crate::note(|| s.clone()); s },
            dec: |t| {
                let a = T::$deserialize(t).map(|x| x.to_abs()).map_err(err);
                let mut st = $St::default();
                let mut ch = t.chars();
                st.next(&mut ch);
                let b = st.next_tok(&mut ch).and_then(|_| T::$de(&mut st, &mut ch)).map(|x| x.to_abs()).map_err(err);
                if let Ok(v) = &a { crate::note(|| v.show()); }
                if a != b { return Err(J::S("the whole-input and the incremental decoder disagree".into())); }
                a
            },
            step: |st, ch| T::$de(st, ch).map(|x| { let v = x.to_abs(); crate::note(|| v.show()); v }).map_err(err),
            norm: |v| T::from_abs(v).to_abs(),
        }
    }
    fn err(e: $Err) -> J {
        crate::note(|| format!("{e} {e:?}"));
        let (k, n) = match &e.msg {
            $Why::UnexpectedKey(n) => ("key", n.as_str()),
            $Why::UnexpectedToken(_, _) => ("token", ""),
            $Why::MissingKey(n) => ("missing", n.as_str()),
            $Why::NoSuchEnum(n) => ("enum", n.as_str()),
            $Why::OutOfRange(_) => ("range", ""),
            $Why::WrongType(_) => ("type", ""),
            $Why::CannotParse(_) => ("parse", ""),
            _ => ("other", ""),
        };
        let shown = e.to_string().ends_with(&format!("line:{} col:{}", e.line + 1, e.col + 1));
        J::A(vec![J::S("err".into()), J::S(k.into()), J::A(vec![J::N(e.line as i64), J::N(e.col as i64)]), cps(n), J::B(shown)])
    }
    /// level 1: kind, location and name of the error; level 2: kind and name; level 3: kind and location
    fn located(x: &J, e: &J, level: i64) -> bool {
        let (x, e) = (x.a(), e.a());
        x[1] == e[1] && (level == 2 || (x[2] == e[2] && e[4].b())) && (level == 3 || !["key", "missing", "enum"].contains(&x[1].s()) || x[3] == e[3])
    }
    fn tokname(t: &$Tok) -> String {
        let s = format!("{t:?}");
        s.split('(').next().unwrap().to_string()
    }
    fn judge(t: &Vt, c: &J, x: &J, r: Result<J, J>) -> Result<bool, String> {
        match (x.tag(), r) {
            (_, Err(J::S(m))) => Err(m),
            ("any", _) | ("isok", Ok(_)) => Ok(true),
            ("ok" | "okerr", Ok(v)) => { let w = (t.norm)(&x.a()[1]); if v != w { Err(format!("decoded {}, specified {}", v.show(), w.show())) } else { Ok(true) } }
            ("okerr", Err(_)) => Ok(true),
            ("err", Err(e)) => if c.get("l").map_or(false, |l| !located(x, &e, l.n())) { Err(format!("failed with {}, specified {}", e.show(), x.show())) } else { Ok(true) },
            ("ok" | "isok", Err(e)) => Err(format!("failed with {}, specified {}", e.show(), x.show())),
            ("err", Ok(v)) => Err(format!("decoded {}, specified an error {}", v.show(), x.show())),
            _ => panic!("bad expectation"),
        }
    }
    /// Runs one case; Err describes the mismatch.
    pub fn run(tab: &[Option<Vt>], c: &J, rec: &mut dyn FnMut(J)) -> Result<bool, String> {
        let ty = |i: &J| tab[(i.n() - 1) as usize].as_ref();
        let op = c.at("o").s();
        match op {
            // decoding the given text
            "dec" => {
                let Some(t) = ty(c.at("t")) else { return Ok(false) };
                let s = c.at("s").text();
                judge(t, c, c.at("x"), (t.dec)(&s)).map_err(|m| format!("{m}; text {:?}", if s.len() < 400 { s.as_str() } else { "(long)" }))
            }
            // several spellings that have to decode to the same value
            "same" => {
                let Some(t) = ty(c.at("t")) else { return Ok(false) };
                for s in c.at("ss").a() {
                    let s = s.text();
                    judge(t, c, c.at("x"), (t.dec)(&s)).map_err(|m| format!("{m}; text {s:?}"))?;
                }
                Ok(true)
            }
            // real output
            "ser" | "rt" => {
                let Some(t) = ty(c.at("t")) else { return Ok(false) };
                let v = c.at("v");
                let s = (t.whole)(v);
                if let Some(w) = c.get("s") { if s != w.text() { return Err(format!("written {s:?}, specified {:?}", w.text())); } }
                if op == "rt" {
                    match (t.dec)(&s) {
                        Err(J::S(m)) => return Err(m),
                        Err(e) => return Err(format!("parsing {s:?} fails with {}", e.show())),
                        Ok(g) => { let w = (t.norm)(c.at("x")); if g != w { return Err(format!("round trip through {s:?} gives {}, specified {}", g.show(), w.show())); } }
                    }
                }
                if c.get("rec").map_or(false, |r| r.b()) {
                    rec(J::O(vec![("t".into(), c.at("t").clone()), ("v".into(), v.clone()), ("s".into(), cps(&s)), ("nums".into(), super::numbers(&s, v))]));
                }
                Ok(true)
            }
            // appending: prefix untouched, the same text as alone
            "app" => {
                let Some(t) = ty(c.at("t")) else { return Ok(false) };
                let pre = c.at("pre").text();
                let alone = (t.whole)(c.at("v"));
                let d = c.get("d").map_or(0, |d| d.n()) as usize;
                let s = (t.ser)(c.at("v"), d, pre.clone());
                if !s.starts_with(&pre) { return Err("earlier output changed".into()); }
                if s[pre.len()..] != alone { return Err(format!("appended {:?}, alone it is {alone:?}", &s[pre.len()..])); }
                Ok(true)
            }
            // a reader stepping through one text: values and single tokens
            "walk" => {
                let items = c.at("w").a();
                if items.iter().any(|i| i.get("t").map_or(false, |t| ty(t).is_none())) { return Ok(false); }
                // the given text, or one the real writer appends to piece by piece
                let s = match c.get("s") {
                    Some(s) => s.text(),
                    None => items.iter().fold(String::new(), |mut o, it| {
                        o.push_str(&it.at("lit").text());
                        match it.get("v") { Some(v) => (ty(it.at("t")).unwrap().ser)(v, it.at("d").n() as usize, o), None => o }
                    }),
                };
                let mut st = $St::default();
                let mut ch = s.chars();
                st.next(&mut ch);
                if let Err(e) = st.next_tok(&mut ch) { return Err(format!("first token fails with {}", err(e).show())); }
                for (k, it) in items.iter().enumerate() {
                    if let Some(n) = it.get("tok") {
                        if tokname(&st.tok) != n.s() { return Err(format!("step {k} of {s:?}: the cursor is at {:?}, specified {}", st.tok, n.s())); }
                        if let Err(e) = st.next_tok(&mut ch) { return Err(format!("step {k} of {s:?}: {}", err(e).show())); }
                    } else {
                        let t = ty(it.at("t")).unwrap();
                        let w = (t.norm)(it.at("x"));
                        match (t.step)(&mut st, &mut ch) {
                            Ok(v) if v == w => {}
                            Ok(v) => return Err(format!("step {k} of {s:?} gives {}, specified {}", v.show(), w.show())),
                            Err(e) => return Err(format!("step {k} of {s:?} fails with {}", e.show())),
                        }
                    }
                }
                if tokname(&st.tok) != "Eof" { return Err(format!("after {s:?} the cursor is at {:?}", st.tok)); }
                Ok(true)
            }
            _ => panic!("unknown op {op}"),
        }
    }
}
    };
}
format_mod!(json, "json", SerJson, DeJson, DeJsonState, DeJsonErr, DeJsonErrReason, DeJsonTok, SerJsonState::new, SerJsonState,
    ser_json, de_json, serialize_json, deserialize_json);
format_mod!(ron, "ron", SerRon, DeRon, DeRonState, DeRonErr, DeRonErrReason, DeRonTok, (|out| SerRonState { out }), SerRonState,
    ser_ron, de_ron, serialize_ron, deserialize_ron);
