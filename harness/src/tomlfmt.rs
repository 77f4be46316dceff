//! TOML: parsing against the specified map.
use crate::jv::{cps, J};
use nanoserde::*;
use std::collections::BTreeMap;

fn num(f: f64) -> J { J::A(vec![J::S("num".into()), if f.is_nan() { J::S("nan".into()) } else { J::S(format!("{:016x}", f.to_bits())) }]) }
fn abs(v: &Toml) -> J {
    let t = |n: &str, x: J| J::A(vec![J::S(n.into()), x]);
    match v {
        Toml::Str(s) => { assert_eq!(v.str(), s); t("str", cps(s)) }
        Toml::Bool(b) => { assert_eq!(v.boolean(), *b); t("bool", J::N(*b as i64)) }
        Toml::Num(f) => { assert_eq!(v.num().to_bits(), f.to_bits()); num(*f) }
        Toml::Date(d) => { assert_eq!(&v.date(), d); t("date", cps(d)) }
        Toml::SimpleArray(a) => { assert_eq!(v.simple_arr().len(), a.len()); t("arr", J::A(a.iter().map(abs).collect())) }
        Toml::Array(m) => { assert_eq!(v.arr().len(), m.len()); t("tabs", J::A((0..m.len()).map(|i| map(&v[i])).collect())) }
    }
}
fn map(m: &BTreeMap<String, Toml>) -> J { J::A(m.iter().map(|(k, v)| J::A(vec![cps(k), abs(v)])).collect()) }
/// the specified map with number lexemes made into bits
fn norm(x: &J) -> J { J::A(x.a().iter().map(|p| J::A(vec![p.a()[0].clone(), nval(&p.a()[1])])).collect()) }
fn nval(v: &J) -> J {
    let b = &v.a()[1];
    match v.tag() {
        "num" => { let l = b.text(); num(if l.ends_with("nan") { f64::NAN } else { l.parse().unwrap() }) }
        "arr" => J::A(vec![J::S("arr".into()), J::A(b.a().iter().map(nval).collect())]),
        "tabs" => J::A(vec![J::S("tabs".into()), J::A(b.a().iter().map(norm).collect())]),
        _ => v.clone(),
    }
}
pub fn run(c: &J, _: &mut dyn FnMut(J)) -> Result<bool, String> {
    let s = c.at("s").text();
    let show = || if s.len() < 400 { format!("{s:?}") } else { "(long)".into() };
    let x = c.at("x");
    let r = TomlParser::parse(&s);
    crate::note(|| match &r { Ok(m) => format!("{m:?}"), Err(e) => format!("{e} {e:?}") });
    match (x.tag(), r) {
        ("any", _) => Ok(true),
        ("isok", Ok(_)) => Ok(true),
        ("ok" | "okerr", Ok(m)) => {
            let (g, w) = (map(&m), norm(&x.a()[1]));
            if g != w { return Err(format!("{} parses to {}, specified {}", show(), g.show(), w.show())); }
            Ok(true)
        }
        ("okerr", Err(_)) => Ok(true),
        ("err", Err(e)) => {
            if c.get("l").map_or(false, |l| l.b()) {
                let kind = if e.msg.starts_with("Unexpected token") { "token" } else { "parse" };
                let got = format!("{kind} at {}:{}", e.line, e.col);
                let l = x.a()[2].a();
                let want = format!("{} at {}:{}", x.a()[1].s(), l[0].n(), l[1].n());
                if got != want { return Err(format!("{} fails with {got}, specified {want}", show())); }
                let d = e.to_string();
                if !d.ends_with(&format!("line:{} col:{}", e.line + 1, e.col + 1)) { return Err(format!("message {d:?} does not name {}:{}", e.line + 1, e.col + 1)); }
            }
            Ok(true)
        }
        (_, Err(e)) => Err(format!("{} fails with {e}, specified a map", show())),
        ("err", Ok(m)) => Err(format!("{} parses to {}, specified an error", show(), map(&m).show())),
        _ => panic!("bad expectation"),
    }
}
