//! Elements that record when they come to be and when they are freed.
use crate::jv::J;
use nanoserde::*;
use std::cell::RefCell;
use std::str::Chars;

thread_local! { static LOG: RefCell<Vec<(&'static str, u32)>> = RefCell::new(vec![]); static NEXT: RefCell<u32> = RefCell::new(0); }
fn log(t: &'static str, n: u32) { LOG.with(|l| l.borrow_mut().push((t, n))) }
fn fresh() -> u32 { NEXT.with(|n| { *n.borrow_mut() += 1; *n.borrow() }) }
const MAGIC: u64 = 0x5afe_e1e3_e27a_11fe;
pub struct P { magic: u64, id: u32, val: u8 }
impl P { fn new(val: u8) -> P { let id = fresh(); log("m", id); P { magic: MAGIC, id, val } } }
impl Drop for P {
    fn drop(&mut self) {
        if unsafe { std::ptr::read_volatile(&self.magic) } != MAGIC { log("w", 0) } else { log("d", self.id) }
    }
}
/// occupies no memory; its ids are given out in order of creation and taken back in order of freeing
pub struct Z;
thread_local! { static ZD: RefCell<u32> = RefCell::new(0); }
impl Z { fn new(_: u8) -> Z { log("m", fresh()); Z } }
impl Drop for Z { fn drop(&mut self) { let n = ZD.with(|n| { *n.borrow_mut() += 1; *n.borrow() }); log("d", n) } }
macro_rules! probe { ($t:ident) => {
    impl DeBin for $t {
        fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
            let v = u8::de_bin(o, d)?;
            let bad = |d: &[u8]| u8::de_bin(&mut d.len(), d).err().unwrap();
            if v == 250 { return Err(bad(d)); }
            let p = $t::new(v);
            if v == 255 { return Err(bad(d)); }
            Ok(p)
        }
    }
    impl DeJson for $t {
        fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<Self, DeJsonErr> {
            let v = u8::de_json(s, i)?;
            if v == 250 { return Err(s.err_parse("probe")); }
            let p = $t::new(v);
            if v == 255 { return Err(s.err_parse("probe")); }
            Ok(p)
        }
    }
    impl DeRon for $t {
        fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<Self, DeRonErr> {
            let v = u8::de_ron(s, i)?;
            if v == 250 { return Err(s.err_parse("probe")); }
            let p = $t::new(v);
            if v == 255 { return Err(s.err_parse("probe")); }
            Ok(p)
        }
    }
} }
probe!(P);
probe!(Z);
pub trait Walk { fn walk(&self, f: &mut dyn FnMut(u32, u8)); }
impl Walk for P { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { f(self.id, self.val) } }
impl Walk for Z { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { f(0, 0) } }
impl<T: Walk, const N: usize> Walk for [T; N] { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { for x in self { x.walk(f) } } }
impl<T: Walk> Walk for Vec<T> { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { for x in self { x.walk(f) } } }
impl<T: Walk> Walk for Option<T> { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { for x in self { x.walk(f) } } }
impl<A: Walk, B: Walk> Walk for (A, B) { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { self.0.walk(f); self.1.walk(f) } }
#[derive(DeBin, DeJson, DeRon)]
pub struct S { a: [P; 2], b: P, c: [P; 1] }
impl Walk for S { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { self.a.walk(f); self.b.walk(f); self.c.walk(f) } }
#[derive(DeBin, DeJson, DeRon)]
pub enum E3 { V([P; 3]) }
impl Walk for E3 { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { let E3::V(a) = self; a.walk(f) } }
#[derive(DeBin, DeJson, DeRon)]
pub enum E2 { V([P; 2]) }
impl Walk for E2 { fn walk(&self, f: &mut dyn FnMut(u32, u8)) { let E2::V(a) = self; a.walk(f) } }

fn go<T: Walk + DeBin + DeJson + DeRon>(fmt: char, s: &J) -> Option<Vec<u8>> {
    // leave recognisable garbage where the decoder's slots will be
    fn dirty() { let mut a = [0xa5u8; 8192]; std::hint::black_box(&mut a); }
    dirty();
    let r: Option<T> = match fmt {
        'b' => T::deserialize_bin(&s.bytes()).ok(),
        'j' => T::deserialize_json(&s.text()).ok(),
        _ => T::deserialize_ron(&s.text()).ok(),
    };
    log("r", r.is_some() as u32);
    let mut vals = vec![];
    let mut n = 0;
    r.as_ref().map(|v| v.walk(&mut |id, val| { n += 1; log("g", if id == 0 { n } else { id }); vals.push(val) }));
    log("x", 0);
    r.map(|v| { drop(v); vals })
}
type Go = fn(char, &J) -> Option<Vec<u8>>;
const SHAPES: [Go; 21] = [
    go::<[P; 0]>, go::<[P; 1]>, go::<[P; 2]>, go::<[P; 3]>, go::<[P; 5]>, go::<[[P; 2]; 3]>, go::<[[P; 3]; 2]>, go::<[[[P; 2]; 2]; 2]>, go::<[[P; 0]; 2]>,
    go::<([P; 2], P)>, go::<[(P, P); 2]>, go::<Vec<[P; 2]>>, go::<[Vec<P>; 2]>, go::<Option<[P; 3]>>, go::<[Option<P>; 3]>, go::<S>, go::<[S; 2]>, go::<E3>, go::<[E2; 2]>,
    go::<[Z; 3]>, go::<[[Z; 2]; 2]>,
];
pub fn run(fmt: char, c: &J, rec: &mut dyn FnMut(J)) -> Result<bool, String> {
    LOG.with(|l| l.borrow_mut().clear());
    NEXT.with(|n| *n.borrow_mut() = 0);
    ZD.with(|n| *n.borrow_mut() = 0);
    let t = (c.at("t").n() - 1) as usize;
    let r = SHAPES[t](fmt, c.at("s"));
    let ev = LOG.with(|l| l.borrow().clone());
    rec(J::O(vec![("t".into(), c.at("t").clone()), ("ev".into(), J::A(ev.iter().map(|(t, n)| J::A(vec![J::S(t.to_string()), J::N(*n as i64)])).collect()))]));
    let show = || if fmt == 'b' { format!("{:?}", c.at("s").bytes()) } else { format!("{:?}", c.at("s").text()) };
    let made = ev.iter().filter(|e| e.0 == "m").count() as i64;
    if r.is_some() != c.at("k").b() { return Err(format!("{} {}, specified the opposite", show(), if r.is_some() { "decodes" } else { "fails" })); }
    if r.is_some() && made != c.at("m").n() { return Err(format!("{}: {made} elements came to be, specified {}", show(), c.at("m").n())); }
    let count = |t: &str, id: u32| ev.iter().filter(|e| e.0 == t && e.1 == id).count();
    if ev.iter().any(|e| e.0 == "w") { return Err(format!("{}: memory that holds no element was freed; {ev:?}", show())); }
    for id in 1..=made as u32 {
        if count("d", id) != 1 { return Err(format!("{}: element {id} was freed {} times; {ev:?}", show(), count("d", id))); }
    }
    if let (Some(v), true) = (r, t < 19) {
        if v != (1..=made as u8).collect::<Vec<_>>() { return Err(format!("{}: the elements handed over are {v:?}", show())); }
    }
    Ok(true)
}
