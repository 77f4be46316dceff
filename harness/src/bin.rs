use crate::abs::*;
use nanoserde::*;

pub struct Vt {
    pub enc: fn(&J, &mut Vec<u8>),
    pub dec: fn(&[u8], &mut usize) -> Result<J, J>,
    pub norm: fn(&J) -> J,
}
pub fn vt<T: Abs + SerBin + DeBin>() -> Vt {
    Vt {
        enc: |v, o| { let x = T::from_abs(v); if o.is_empty() { *o = x.serialize_bin() } else { x.ser_bin(o) } crate::note(|| format!("{o:?}")); },
        dec: |b, o| {
            let r = if *o == 0 { T::deserialize_bin(b).err().map(err) } else { None };
            let s = T::de_bin(o, b).map(|x| x.to_abs()).map_err(err);
            if let Ok(v) = &s { crate::note(|| format!("{} {o}", v.show())); }
            if let (Some(e), Err(f)) = (&r, &s) { if e != f { return Err(J::S("deserialize_bin and de_bin disagree".into())); } }
            else if r.is_some() { return Err(J::S("deserialize_bin fails where de_bin succeeds".into())); }
            s
        },
        norm: |v| T::from_abs(v).to_abs(),
    }
}
fn err(e: DeBinErr) -> J {
    crate::note(|| format!("{e} {e:?}"));
    let k = match &e.msg { DeBinErrReason::Length { .. } => "len", DeBinErrReason::Range(_) => "range", DeBinErrReason::UnknownDiscriminant(_) => "disc", _ => "other" };
    J::A(vec![J::S("err".into()), J::N(e.o as i64), J::S(k.into())])
}
fn errmatch(x: &J, e: &J) -> bool { e.a().len() == 3 && x.a()[1] == e.a()[1] && x.a()[2] == e.a()[2] }

/// Runs one case; Err describes the mismatch.
pub fn run(tab: &[Option<Vt>], c: &J, _rec: &mut dyn FnMut(J)) -> Result<bool, String> {
    let op = c.at("o").s();
    let ty = |i: &J| tab[(i.n() - 1) as usize].as_ref();
    match op {
        // encoding equals the specified bytes
        "enc" => {
            let Some(t) = ty(c.at("t")) else { return Ok(false) };
            let mut o = vec![];
            (t.enc)(c.at("v"), &mut o);
            let w = c.at("b").bytes();
            if o != w { return Err(format!("encoded {o:?}, specified {w:?}")); }
            Ok(true)
        }
        // decoding the given bytes
        "dec" => {
            let Some(t) = ty(c.at("t")) else { return Ok(false) };
            if c.at("x").tag() == "big" { return Ok(false); } // a listed finding: would take for ever
            let b = c.at("b").bytes();
            let mut at = c.get("at").map_or(0, |x| x.n()) as usize;
            let base = crate::alloc::start();
            let r = (t.dec)(&b, &mut at);
            let pk = crate::alloc::peak(base);
            if pk > 1_000_000 + 2048 * b.len() as isize { return Err(format!("decoding {} bytes allocated {pk} bytes", b.len())); }
            let x = c.at("x");
            match (x.tag(), r) {
                (_, Err(J::S(m))) => Err(m),
                ("any", _) => Ok(true),
                ("ok", Ok(v)) => {
                    let w = (t.norm)(&x.a()[1]);
                    if v != w { return Err(format!("decoded {}, specified {}", v.show(), w.show())); }
                    if at as i64 != x.a()[2].n() { return Err(format!("decoding stopped at {at}, specified {}", x.a()[2].n())); }
                    Ok(true)
                }
                ("okerr", Ok(v)) => { let w = (t.norm)(&x.a()[1]); if v != w { Err(format!("decoded {}, specified {} or an error", v.show(), w.show())) } else { Ok(true) } }
                ("okerr", Err(_)) => Ok(true),
                ("err", Err(e)) => if c.get("l").map_or(false, |l| l.b()) && !errmatch(x, &e) { Err(format!("failed with {}, specified {}", e.show(), x.show())) } else { Ok(true) },
                ("ok", Err(e)) => Err(format!("failed with {}, specified {}", e.show(), x.show())),
                ("err", Ok(v)) => Err(format!("decoded {}, specified an error", v.show())),
                _ => panic!("bad expectation"),
            }
        }
        // real encode after some bytes, then more bytes, then real decode
        "rt" => {
            let Some(t) = ty(c.at("t")) else { return Ok(false) };
            let (pre, post) = (c.at("pre").bytes(), c.at("post").bytes());
            let mut o = pre.clone();
            (t.enc)(c.at("v"), &mut o);
            if o[..pre.len()] != pre[..] { return Err("encoding changed earlier output".into()); }
            let n = o.len();
            o.extend_from_slice(&post);
            let mut at = pre.len();
            let r = (t.dec)(&o, &mut at);
            let w = (t.norm)(c.at("x"));
            match r {
                Ok(v) if v != w => Err(format!("round trip gives {}, specified {}", v.show(), w.show())),
                Ok(_) if at != n => Err(format!("decoding consumed up to {at}, {n} were written")),
                Ok(_) => Ok(true),
                Err(e) => Err(format!("round trip fails with {}, bytes {:?}", e.show(), o)),
            }
        }
        // several values through one buffer and one cursor
        "seq" => {
            let mut o: Vec<u8> = c.get("pre").map_or(vec![], |p| p.bytes());
            let mut at = o.len();
            let items = c.at("vs").a();
            if items.iter().any(|i| ty(i.at("t")).is_none()) { return Ok(false); }
            for it in items {
                let t = ty(it.at("t")).unwrap();
                let before = o.clone();
                (t.enc)(it.at("v"), &mut o);
                if o.len() < before.len() || o[..before.len()] != before[..] { return Err("encoding changed earlier output".into()); }
                if !it.at("h").b() {
                    let mut alone = vec![];
                    (t.enc)(it.at("v"), &mut alone);
                    if o[before.len()..] != alone[..] { return Err(format!("appended {:?}, alone it is {:?}", &o[before.len()..], alone)); }
                }
            }
            for it in items {
                let t = ty(it.at("t")).unwrap();
                let w = (t.norm)(it.at("x"));
                match (t.dec)(&o, &mut at) {
                    Ok(v) if v == w => {}
                    Ok(v) => return Err(format!("value read from the sequence is {}, specified {}", v.show(), w.show())),
                    Err(e) => return Err(format!("reading the sequence fails with {}", e.show())),
                }
            }
            if at != o.len() { return Err(format!("cursor ends at {at} of {}", o.len())); }
            Ok(true)
        }
        _ => panic!("unknown op {op}"),
    }
}
