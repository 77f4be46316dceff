// Generated by gen/schema.py.
use crate::abs::*;
use crate::ron::*;
use nanoserde::*;
use std::collections::{BTreeMap, BTreeSet, LinkedList};
#[cfg(feature = "std")]
use std::collections::{HashMap, HashSet};
#[cfg(feature = "std")]
use std::time::SystemTime;
use std::time::Duration;

pub fn dw_s() -> String { "dee".to_string() }
pub fn dw_vec() -> Vec<u8> { vec![7, 9] }
pub fn dw_opt() -> Option<u8> { Some(8) }
pub fn dw_i16() -> i16 { -300 }
pub fn dw_u8() -> u8 { 211 }
pub fn unscale(p: i32) -> u16 { if p < 7 { 0 } else { ((p - 7) / 3 % 65536) as u16 } }
pub fn unwrap_str(s: &str) -> String { let mut c: Vec<char> = s.chars().collect(); if c.len() < 2 { return String::new(); } c.pop(); c.remove(0); c.into_iter().collect() }
#[derive(Default)] pub struct RawS(pub String);
impl Abs for RawS { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawS(Abs::from_abs(v)) } }
#[derive(Default)] pub struct RawN(pub u16);
impl Abs for RawN { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawN(Abs::from_abs(v)) } }
#[derive(SerRon, DeRon)]
#[derive(Default)]
#[nserde(transparent)]
pub struct RawD(pub u16);
impl Abs for RawD { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawD(Abs::from_abs(v)) } }
impl From<&RawD> for i32 { fn from(x: &RawD) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawD { fn from(x: &i32) -> RawD { RawD(unscale(*x)) } }
pub struct RawZ(pub u16);
impl Default for RawZ { fn default() -> Self { RawZ(42) } }
pub fn dw_z() -> RawZ { RawZ(9) }
impl Abs for RawZ { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawZ(Abs::from_abs(v)) } }
impl From<&RawZ> for i32 { fn from(x: &RawZ) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawZ { fn from(x: &i32) -> RawZ { RawZ(unscale(*x)) } }
impl From<&RawN> for i32 { fn from(x: &RawN) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawN { fn from(x: &i32) -> RawN { RawN(unscale(*x)) } }

#[derive(SerRon, DeRon, Default)]
pub struct Plain {
    pub a: u8,
    pub b: String,
    pub c: i32,
}
impl Abs for Plain {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Plain { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]) } }
}

#[derive(SerRon, DeRon, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Default)]
pub struct Keyed {
    pub x: u8,
    pub y: i16,
}
impl Abs for Keyed {
 fn to_abs(&self) -> J { rec(vec![self.x.to_abs(), self.y.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Keyed { x: Abs::from_abs(&f[0]), y: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct AllPrim {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: usize,
    pub f: i8,
    pub g: i16,
    pub h: i32,
    pub i: i64,
    pub j: f32,
    pub k: f64,
    pub l: bool,
    pub m: String,
    pub n: (),
}
impl Abs for AllPrim {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs(), self.e.to_abs(), self.f.to_abs(), self.g.to_abs(), self.h.to_abs(), self.i.to_abs(), self.j.to_abs(), self.k.to_abs(), self.l.to_abs(), self.m.to_abs(), self.n.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; AllPrim { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), f: Abs::from_abs(&f[5]), g: Abs::from_abs(&f[6]), h: Abs::from_abs(&f[7]), i: Abs::from_abs(&f[8]), j: Abs::from_abs(&f[9]), k: Abs::from_abs(&f[10]), l: Abs::from_abs(&f[11]), m: Abs::from_abs(&f[12]), n: Abs::from_abs(&f[13]) } }
}

#[derive(SerRon, DeRon)]
pub struct Empty {

}
impl Abs for Empty {
 fn to_abs(&self) -> J { rec(vec![]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Empty {  } }
}

#[derive(SerRon, DeRon, Default)]
pub struct Opts {
    pub a: Option<u8>,
    pub b: Option<String>,
    pub c: u8,
    pub d: Option<Vec<u8>>,
}
impl Abs for Opts {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Opts { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
pub struct AllOpt {
    pub a: Option<u8>,
    pub b: Option<bool>,
}
impl Abs for AllOpt {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; AllOpt { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ren {
    #[nserde(rename = "b")] pub a: u8,
    #[nserde(rename = "c")] pub b: u8,
    #[nserde(rename = "fooBar")] pub c: Option<u8>,
    #[nserde(rename = "D")] pub d: String,
}
impl Abs for Ren {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ren { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
pub struct Def {
    #[nserde(default)] pub a: u8,
    #[nserde(default = "513")] pub b: u16,
    #[nserde(default = "hi there")] pub c: String,
    pub d: i32,
    #[nserde(default_with = "dw_vec")] pub e: Vec<u8>,
    #[nserde(default = "-5")] pub f: i64,
}
impl Abs for Def {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs(), self.e.to_abs(), self.f.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Def { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), f: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
pub struct DefOpt {
    #[nserde(default = "3")] pub a: Option<u8>,
    #[nserde(default)] pub b: Option<String>,
    #[nserde(default_with = "dw_opt")] pub c: Option<u8>,
    pub d: u8,
}
impl Abs for DefOpt {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; DefOpt { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct CDef {
    pub a: u8,
    pub b: String,
    pub c: Option<u8>,
    pub d: Plain,
    #[nserde(default = "77")] pub e: u16,
}
impl Abs for CDef {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; CDef { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct CDefW {
    pub a: u8,
    pub b: Vec<String>,
    #[nserde(default_with = "dw_i16")] pub c: i16,
}
impl Abs for CDefW {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; CDefW { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]) } }
}

#[derive(SerRon, DeRon)]
pub struct Skip {
    pub a: u8,
    #[nserde(skip)] pub b: u16,
    pub c: String,
    #[nserde(default = "dd")] #[nserde(skip)] pub d: String,
    #[nserde(skip)] pub e: Option<u8>,
    #[nserde(default_with = "dw_u8")] #[nserde(skip)] pub g: u8,
    pub h: Option<u8>,
}
impl Abs for Skip {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs(), self.e.to_abs(), self.g.to_abs(), self.h.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Skip { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), g: Abs::from_abs(&f[5]), h: Abs::from_abs(&f[6]) } }
}

#[derive(SerRon, DeRon)]
pub struct SkipFirst {
    #[nserde(skip)] pub a: u8,
    pub b: Option<u8>,
    pub c: u8,
}
impl Abs for SkipFirst {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; SkipFirst { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]) } }
}

#[derive(SerRon, DeRon)]
pub struct SkipAll {
    #[nserde(skip)] pub a: u8,
    #[nserde(skip)] pub b: String,
}
impl Abs for SkipAll {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; SkipAll { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct Nulls {
    #[nserde(serialize_none_as_null)] pub a: Option<u8>,
    pub b: Option<u8>,
    #[nserde(serialize_none_as_null)] pub c: Option<String>,
    pub d: u8,
}
impl Abs for Nulls {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Nulls { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct CNulls {
    pub a: Option<u8>,
    pub b: Option<String>,
    pub c: u8,
}
impl Abs for CNulls {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; CNulls { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]) } }
}

#[derive(SerRon, DeRon)]
pub struct RenSkip {
    #[nserde(rename = "x")] pub a: u8,
    #[nserde(skip)] pub x: u8,
    #[nserde(rename = "a")] pub y: Option<u8>,
    #[nserde(rename = "w")] #[nserde(default = "9")] pub z: u8,
}
impl Abs for RenSkip {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.x.to_abs(), self.y.to_abs(), self.z.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; RenSkip { a: Abs::from_abs(&f[0]), x: Abs::from_abs(&f[1]), y: Abs::from_abs(&f[2]), z: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
pub struct Nest {
    pub p: Plain,
    pub o: Option<Opts>,
    pub v: Vec<Plain>,
    pub m: BTreeMap<String, Plain>,
    pub t: (Plain, u8),
    pub r: [AllOpt; 2],
}
impl Abs for Nest {
 fn to_abs(&self) -> J { rec(vec![self.p.to_abs(), self.o.to_abs(), self.v.to_abs(), self.m.to_abs(), self.t.to_abs(), self.r.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Nest { p: Abs::from_abs(&f[0]), o: Abs::from_abs(&f[1]), v: Abs::from_abs(&f[2]), m: Abs::from_abs(&f[3]), t: Abs::from_abs(&f[4]), r: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
pub struct Colls {
    pub a: Vec<u16>,
    pub b: LinkedList<String>,
    pub c: BTreeSet<u8>,
    pub d: BTreeMap<String, i32>,
    pub e: [u8; 2],
    pub f: (bool, f64),
    pub g: Box<u8>,
}
impl Abs for Colls {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs(), self.e.to_abs(), self.f.to_abs(), self.g.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Colls { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), f: Abs::from_abs(&f[5]), g: Abs::from_abs(&f[6]) } }
}

#[cfg(feature = "std")]
#[derive(SerRon, DeRon)]
pub struct HColls {
    pub a: HashSet<u8>,
    pub b: HashMap<String, u8>,
}
#[cfg(feature = "std")]
impl Abs for HColls {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; HColls { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct Times {
    pub d: Duration,
    pub o: Option<Duration>,
    pub v: Vec<Duration>,
}
impl Abs for Times {
 fn to_abs(&self) -> J { rec(vec![self.d.to_abs(), self.o.to_abs(), self.v.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Times { d: Abs::from_abs(&f[0]), o: Abs::from_abs(&f[1]), v: Abs::from_abs(&f[2]) } }
}

#[derive(SerRon, DeRon)]
pub struct Under {
    pub _a: u8,
    pub a_b: u8,
    #[nserde(rename = "a_1")] pub a1: u8,
    #[nserde(rename = "type")] pub type_: String,
}
impl Abs for Under {
 fn to_abs(&self) -> J { rec(vec![self._a.to_abs(), self.a_b.to_abs(), self.a1.to_abs(), self.type_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Under { _a: Abs::from_abs(&f[0]), a_b: Abs::from_abs(&f[1]), a1: Abs::from_abs(&f[2]), type_: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
pub struct One {
    pub only: String,
}
impl Abs for One {
 fn to_abs(&self) -> J { rec(vec![self.only.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; One { only: Abs::from_abs(&f[0]) } }
}

#[derive(SerRon, DeRon)]
pub struct Tree {
    pub v: u8,
    pub kids: Vec<Tree>,
}
impl Abs for Tree {
 fn to_abs(&self) -> J { rec(vec![self.v.to_abs(), self.kids.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Tree { v: Abs::from_abs(&f[0]), kids: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct Chain {
    pub v: u8,
    pub next: Option<Box<Chain>>,
}
impl Abs for Chain {
 fn to_abs(&self) -> J { rec(vec![self.v.to_abs(), self.next.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Chain { v: Abs::from_abs(&f[0]), next: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct New(pub u8);
impl Abs for New {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); New(Abs::from_abs(&f[0])) }
}

#[derive(SerRon, DeRon)]
pub struct Pair(pub u8, pub String);
impl Abs for Pair {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Pair(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])) }
}

#[derive(SerRon, DeRon)]
pub struct Trip(pub Option<u8>, pub Vec<u8>, pub New);
impl Abs for Trip {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Trip(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])) }
}

#[derive(SerRon, DeRon)]
pub struct Quint(pub u8, pub u16, pub u32, pub u64, pub i8);
impl Abs for Quint {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs(), self.4.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Quint(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4])) }
}

#[derive(SerRon, DeRon)]
pub struct HoldT {
    pub a: New,
    pub b: Pair,
    pub c: Option<New>,
    pub d: Vec<Pair>,
    pub u: (New, u8),
}
impl Abs for HoldT {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.c.to_abs(), self.d.to_abs(), self.u.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; HoldT { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]), u: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Default)]
pub enum Uni {
    A,
    #[default]
    B,
    Ab,
    ABC,
    a,
}
impl Abs for Uni {
 fn to_abs(&self) -> J { match self {
Uni::A => var(0, vec![]),
Uni::B => var(1, vec![]),
Uni::Ab => var(2, vec![]),
Uni::ABC => var(3, vec![]),
Uni::a => var(4, vec![]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Uni::A,
1 => Uni::B,
2 => Uni::Ab,
3 => Uni::ABC,
4 => Uni::a,
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Mix {
    U,
    T1(u8),
    T2(u8, String),
    R { a: u8, b: String },
    V(Vec<u8>),
    U2,
    O(Option<u8>, Option<u8>),
    W { u: Option<u8> },
}
impl Abs for Mix {
 fn to_abs(&self) -> J { match self {
Mix::U => var(0, vec![]),
Mix::T1(a0) => var(1, vec![a0.to_abs()]),
Mix::T2(a0, a1) => var(2, vec![a0.to_abs(), a1.to_abs()]),
Mix::R { a, b } => var(3, vec![a.to_abs(), b.to_abs()]),
Mix::V(a0) => var(4, vec![a0.to_abs()]),
Mix::U2 => var(5, vec![]),
Mix::O(a0, a1) => var(6, vec![a0.to_abs(), a1.to_abs()]),
Mix::W { u } => var(7, vec![u.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Mix::U,
1 => Mix::T1(Abs::from_abs(&f[0])),
2 => Mix::T2(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
3 => Mix::R { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]) },
4 => Mix::V(Abs::from_abs(&f[0])),
5 => Mix::U2,
6 => Mix::O(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
7 => Mix::W { u: Abs::from_abs(&f[0]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum FieldV {
    R { a: Option<u8>, #[nserde(default = "5")] b: u8, #[nserde(skip)] c: u8, #[nserde(rename = "dee")] d: Option<String> },
    Q { #[nserde(rename = "b")] a: u8, #[nserde(rename = "a")] b: Option<u8> },
    U,
}
impl Abs for FieldV {
 fn to_abs(&self) -> J { match self {
FieldV::R { a, b, c, d } => var(0, vec![a.to_abs(), b.to_abs(), c.to_abs(), d.to_abs()]),
FieldV::Q { a, b } => var(1, vec![a.to_abs(), b.to_abs()]),
FieldV::U => var(2, vec![]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => FieldV::R { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), c: Abs::from_abs(&f[2]), d: Abs::from_abs(&f[3]) },
1 => FieldV::Q { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]) },
2 => FieldV::U,
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum AllOptV {
    R { a: Option<u8>, b: Option<u8> },
    T(Option<u8>),
}
impl Abs for AllOptV {
 fn to_abs(&self) -> J { match self {
AllOptV::R { a, b } => var(0, vec![a.to_abs(), b.to_abs()]),
AllOptV::T(a0) => var(1, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => AllOptV::R { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]) },
1 => AllOptV::T(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Disc {
    A = 5,
    B = 300,
    C,
    D = 1,
}
impl Abs for Disc {
 fn to_abs(&self) -> J { match self {
Disc::A => var(0, vec![]),
Disc::B => var(1, vec![]),
Disc::C => var(2, vec![]),
Disc::D => var(3, vec![]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Disc::A,
1 => Disc::B,
2 => Disc::C,
3 => Disc::D,
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Inner {
    P(Uni),
    Q(Mix),
    R { m: Mix, u: Uni },
    N((u8, Uni)),
    A2([Uni; 2]),
}
impl Abs for Inner {
 fn to_abs(&self) -> J { match self {
Inner::P(a0) => var(0, vec![a0.to_abs()]),
Inner::Q(a0) => var(1, vec![a0.to_abs()]),
Inner::R { m, u } => var(2, vec![m.to_abs(), u.to_abs()]),
Inner::N(a0) => var(3, vec![a0.to_abs()]),
Inner::A2(a0) => var(4, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Inner::P(Abs::from_abs(&f[0])),
1 => Inner::Q(Abs::from_abs(&f[0])),
2 => Inner::R { m: Abs::from_abs(&f[0]), u: Abs::from_abs(&f[1]) },
3 => Inner::N(Abs::from_abs(&f[0])),
4 => Inner::A2(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Deep {
    L(u8),
    N(Box<Deep>, Box<Deep>),
    S { next: Vec<Deep> },
}
impl Abs for Deep {
 fn to_abs(&self) -> J { match self {
Deep::L(a0) => var(0, vec![a0.to_abs()]),
Deep::N(a0, a1) => var(1, vec![a0.to_abs(), a1.to_abs()]),
Deep::S { next } => var(2, vec![next.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Deep::L(Abs::from_abs(&f[0])),
1 => Deep::N(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
2 => Deep::S { next: Abs::from_abs(&f[0]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Big {
    N0,
    N1,
    N2,
    N3,
    N4,
    N5,
    N6,
    N7,
    N8,
    N9,
    N10,
    N11,
    N12,
    N13,
    N14,
    N15,
    N16,
    N17,
    N18,
    N19,
    N20,
    N21,
    N22,
    N23,
    N24,
    N25,
    N26,
    N27,
    N28,
    N29,
    N30,
    N31,
    N32,
    N33,
    N34,
    N35,
    N36,
    N37,
    N38,
    N39,
    N40,
    N41,
    N42,
    N43,
    N44,
    N45,
    N46,
    N47,
    N48,
    N49,
    N50,
    N51,
    N52,
    N53,
    N54,
    N55,
    N56,
    N57,
    N58,
    N59,
    N60,
    N61,
    N62,
    N63,
    N64,
    N65,
    N66,
    N67,
    N68,
    N69,
    N70,
    N71,
    N72,
    N73,
    N74,
    N75,
    N76,
    N77,
    N78,
    N79,
    N80,
    N81,
    N82,
    N83,
    N84,
    N85,
    N86,
    N87,
    N88,
    N89,
    N90,
    N91,
    N92,
    N93,
    N94,
    N95,
    N96,
    N97,
    N98,
    N99,
    N100,
    N101,
    N102,
    N103,
    N104,
    N105,
    N106,
    N107,
    N108,
    N109,
    N110,
    N111,
    N112,
    N113,
    N114,
    N115,
    N116,
    N117,
    N118,
    N119,
    N120,
    N121,
    N122,
    N123,
    N124,
    N125,
    N126,
    N127,
    N128,
    N129,
    N130,
    N131,
    N132,
    N133,
    N134,
    N135,
    N136,
    N137,
    N138,
    N139,
    N140,
    N141,
    N142,
    N143,
    N144,
    N145,
    N146,
    N147,
    N148,
    N149,
    N150,
    N151,
    N152,
    N153,
    N154,
    N155,
    N156,
    N157,
    N158,
    N159,
    N160,
    N161,
    N162,
    N163,
    N164,
    N165,
    N166,
    N167,
    N168,
    N169,
    N170,
    N171,
    N172,
    N173,
    N174,
    N175,
    N176,
    N177,
    N178,
    N179,
    N180,
    N181,
    N182,
    N183,
    N184,
    N185,
    N186,
    N187,
    N188,
    N189,
    N190,
    N191,
    N192,
    N193,
    N194,
    N195,
    N196,
    N197,
    N198,
    N199,
    N200,
    N201,
    N202,
    N203,
    N204,
    N205,
    N206,
    N207,
    N208,
    N209,
    N210,
    N211,
    N212,
    N213,
    N214,
    N215,
    N216,
    N217,
    N218,
    N219,
    N220,
    N221,
    N222,
    N223,
    N224,
    N225,
    N226,
    N227,
    N228,
    N229,
    N230,
    N231,
    N232,
    N233,
    N234,
    N235,
    N236,
    N237,
    N238,
    N239,
    N240,
    N241,
    N242,
    N243,
    N244,
    N245,
    N246,
    N247,
    N248,
    N249,
    N250,
    N251,
    N252,
    N253,
    N254,
    N255,
    N256,
    N257,
    N258,
    N259,
    N260,
    N261,
    N262,
    N263,
    N264,
    N265,
    N266,
    N267,
    N268,
    N269,
    N270,
    N271,
    N272,
    N273,
    N274,
    N275,
    N276,
    N277,
    N278,
    N279,
    N280,
    N281,
    N282,
    N283,
    N284,
    N285,
    N286,
    N287,
    N288,
    N289,
    N290,
    N291,
    N292,
    N293,
    N294,
    N295,
    N296,
    N297,
    N298,
    N299,
    P(u8),
    P2(u8, String),
    R { a: u8 },
    Z,
}
impl Abs for Big {
 fn to_abs(&self) -> J { match self {
Big::N0 => var(0, vec![]),
Big::N1 => var(1, vec![]),
Big::N2 => var(2, vec![]),
Big::N3 => var(3, vec![]),
Big::N4 => var(4, vec![]),
Big::N5 => var(5, vec![]),
Big::N6 => var(6, vec![]),
Big::N7 => var(7, vec![]),
Big::N8 => var(8, vec![]),
Big::N9 => var(9, vec![]),
Big::N10 => var(10, vec![]),
Big::N11 => var(11, vec![]),
Big::N12 => var(12, vec![]),
Big::N13 => var(13, vec![]),
Big::N14 => var(14, vec![]),
Big::N15 => var(15, vec![]),
Big::N16 => var(16, vec![]),
Big::N17 => var(17, vec![]),
Big::N18 => var(18, vec![]),
Big::N19 => var(19, vec![]),
Big::N20 => var(20, vec![]),
Big::N21 => var(21, vec![]),
Big::N22 => var(22, vec![]),
Big::N23 => var(23, vec![]),
Big::N24 => var(24, vec![]),
Big::N25 => var(25, vec![]),
Big::N26 => var(26, vec![]),
Big::N27 => var(27, vec![]),
Big::N28 => var(28, vec![]),
Big::N29 => var(29, vec![]),
Big::N30 => var(30, vec![]),
Big::N31 => var(31, vec![]),
Big::N32 => var(32, vec![]),
Big::N33 => var(33, vec![]),
Big::N34 => var(34, vec![]),
Big::N35 => var(35, vec![]),
Big::N36 => var(36, vec![]),
Big::N37 => var(37, vec![]),
Big::N38 => var(38, vec![]),
Big::N39 => var(39, vec![]),
Big::N40 => var(40, vec![]),
Big::N41 => var(41, vec![]),
Big::N42 => var(42, vec![]),
Big::N43 => var(43, vec![]),
Big::N44 => var(44, vec![]),
Big::N45 => var(45, vec![]),
Big::N46 => var(46, vec![]),
Big::N47 => var(47, vec![]),
Big::N48 => var(48, vec![]),
Big::N49 => var(49, vec![]),
Big::N50 => var(50, vec![]),
Big::N51 => var(51, vec![]),
Big::N52 => var(52, vec![]),
Big::N53 => var(53, vec![]),
Big::N54 => var(54, vec![]),
Big::N55 => var(55, vec![]),
Big::N56 => var(56, vec![]),
Big::N57 => var(57, vec![]),
Big::N58 => var(58, vec![]),
Big::N59 => var(59, vec![]),
Big::N60 => var(60, vec![]),
Big::N61 => var(61, vec![]),
Big::N62 => var(62, vec![]),
Big::N63 => var(63, vec![]),
Big::N64 => var(64, vec![]),
Big::N65 => var(65, vec![]),
Big::N66 => var(66, vec![]),
Big::N67 => var(67, vec![]),
Big::N68 => var(68, vec![]),
Big::N69 => var(69, vec![]),
Big::N70 => var(70, vec![]),
Big::N71 => var(71, vec![]),
Big::N72 => var(72, vec![]),
Big::N73 => var(73, vec![]),
Big::N74 => var(74, vec![]),
Big::N75 => var(75, vec![]),
Big::N76 => var(76, vec![]),
Big::N77 => var(77, vec![]),
Big::N78 => var(78, vec![]),
Big::N79 => var(79, vec![]),
Big::N80 => var(80, vec![]),
Big::N81 => var(81, vec![]),
Big::N82 => var(82, vec![]),
Big::N83 => var(83, vec![]),
Big::N84 => var(84, vec![]),
Big::N85 => var(85, vec![]),
Big::N86 => var(86, vec![]),
Big::N87 => var(87, vec![]),
Big::N88 => var(88, vec![]),
Big::N89 => var(89, vec![]),
Big::N90 => var(90, vec![]),
Big::N91 => var(91, vec![]),
Big::N92 => var(92, vec![]),
Big::N93 => var(93, vec![]),
Big::N94 => var(94, vec![]),
Big::N95 => var(95, vec![]),
Big::N96 => var(96, vec![]),
Big::N97 => var(97, vec![]),
Big::N98 => var(98, vec![]),
Big::N99 => var(99, vec![]),
Big::N100 => var(100, vec![]),
Big::N101 => var(101, vec![]),
Big::N102 => var(102, vec![]),
Big::N103 => var(103, vec![]),
Big::N104 => var(104, vec![]),
Big::N105 => var(105, vec![]),
Big::N106 => var(106, vec![]),
Big::N107 => var(107, vec![]),
Big::N108 => var(108, vec![]),
Big::N109 => var(109, vec![]),
Big::N110 => var(110, vec![]),
Big::N111 => var(111, vec![]),
Big::N112 => var(112, vec![]),
Big::N113 => var(113, vec![]),
Big::N114 => var(114, vec![]),
Big::N115 => var(115, vec![]),
Big::N116 => var(116, vec![]),
Big::N117 => var(117, vec![]),
Big::N118 => var(118, vec![]),
Big::N119 => var(119, vec![]),
Big::N120 => var(120, vec![]),
Big::N121 => var(121, vec![]),
Big::N122 => var(122, vec![]),
Big::N123 => var(123, vec![]),
Big::N124 => var(124, vec![]),
Big::N125 => var(125, vec![]),
Big::N126 => var(126, vec![]),
Big::N127 => var(127, vec![]),
Big::N128 => var(128, vec![]),
Big::N129 => var(129, vec![]),
Big::N130 => var(130, vec![]),
Big::N131 => var(131, vec![]),
Big::N132 => var(132, vec![]),
Big::N133 => var(133, vec![]),
Big::N134 => var(134, vec![]),
Big::N135 => var(135, vec![]),
Big::N136 => var(136, vec![]),
Big::N137 => var(137, vec![]),
Big::N138 => var(138, vec![]),
Big::N139 => var(139, vec![]),
Big::N140 => var(140, vec![]),
Big::N141 => var(141, vec![]),
Big::N142 => var(142, vec![]),
Big::N143 => var(143, vec![]),
Big::N144 => var(144, vec![]),
Big::N145 => var(145, vec![]),
Big::N146 => var(146, vec![]),
Big::N147 => var(147, vec![]),
Big::N148 => var(148, vec![]),
Big::N149 => var(149, vec![]),
Big::N150 => var(150, vec![]),
Big::N151 => var(151, vec![]),
Big::N152 => var(152, vec![]),
Big::N153 => var(153, vec![]),
Big::N154 => var(154, vec![]),
Big::N155 => var(155, vec![]),
Big::N156 => var(156, vec![]),
Big::N157 => var(157, vec![]),
Big::N158 => var(158, vec![]),
Big::N159 => var(159, vec![]),
Big::N160 => var(160, vec![]),
Big::N161 => var(161, vec![]),
Big::N162 => var(162, vec![]),
Big::N163 => var(163, vec![]),
Big::N164 => var(164, vec![]),
Big::N165 => var(165, vec![]),
Big::N166 => var(166, vec![]),
Big::N167 => var(167, vec![]),
Big::N168 => var(168, vec![]),
Big::N169 => var(169, vec![]),
Big::N170 => var(170, vec![]),
Big::N171 => var(171, vec![]),
Big::N172 => var(172, vec![]),
Big::N173 => var(173, vec![]),
Big::N174 => var(174, vec![]),
Big::N175 => var(175, vec![]),
Big::N176 => var(176, vec![]),
Big::N177 => var(177, vec![]),
Big::N178 => var(178, vec![]),
Big::N179 => var(179, vec![]),
Big::N180 => var(180, vec![]),
Big::N181 => var(181, vec![]),
Big::N182 => var(182, vec![]),
Big::N183 => var(183, vec![]),
Big::N184 => var(184, vec![]),
Big::N185 => var(185, vec![]),
Big::N186 => var(186, vec![]),
Big::N187 => var(187, vec![]),
Big::N188 => var(188, vec![]),
Big::N189 => var(189, vec![]),
Big::N190 => var(190, vec![]),
Big::N191 => var(191, vec![]),
Big::N192 => var(192, vec![]),
Big::N193 => var(193, vec![]),
Big::N194 => var(194, vec![]),
Big::N195 => var(195, vec![]),
Big::N196 => var(196, vec![]),
Big::N197 => var(197, vec![]),
Big::N198 => var(198, vec![]),
Big::N199 => var(199, vec![]),
Big::N200 => var(200, vec![]),
Big::N201 => var(201, vec![]),
Big::N202 => var(202, vec![]),
Big::N203 => var(203, vec![]),
Big::N204 => var(204, vec![]),
Big::N205 => var(205, vec![]),
Big::N206 => var(206, vec![]),
Big::N207 => var(207, vec![]),
Big::N208 => var(208, vec![]),
Big::N209 => var(209, vec![]),
Big::N210 => var(210, vec![]),
Big::N211 => var(211, vec![]),
Big::N212 => var(212, vec![]),
Big::N213 => var(213, vec![]),
Big::N214 => var(214, vec![]),
Big::N215 => var(215, vec![]),
Big::N216 => var(216, vec![]),
Big::N217 => var(217, vec![]),
Big::N218 => var(218, vec![]),
Big::N219 => var(219, vec![]),
Big::N220 => var(220, vec![]),
Big::N221 => var(221, vec![]),
Big::N222 => var(222, vec![]),
Big::N223 => var(223, vec![]),
Big::N224 => var(224, vec![]),
Big::N225 => var(225, vec![]),
Big::N226 => var(226, vec![]),
Big::N227 => var(227, vec![]),
Big::N228 => var(228, vec![]),
Big::N229 => var(229, vec![]),
Big::N230 => var(230, vec![]),
Big::N231 => var(231, vec![]),
Big::N232 => var(232, vec![]),
Big::N233 => var(233, vec![]),
Big::N234 => var(234, vec![]),
Big::N235 => var(235, vec![]),
Big::N236 => var(236, vec![]),
Big::N237 => var(237, vec![]),
Big::N238 => var(238, vec![]),
Big::N239 => var(239, vec![]),
Big::N240 => var(240, vec![]),
Big::N241 => var(241, vec![]),
Big::N242 => var(242, vec![]),
Big::N243 => var(243, vec![]),
Big::N244 => var(244, vec![]),
Big::N245 => var(245, vec![]),
Big::N246 => var(246, vec![]),
Big::N247 => var(247, vec![]),
Big::N248 => var(248, vec![]),
Big::N249 => var(249, vec![]),
Big::N250 => var(250, vec![]),
Big::N251 => var(251, vec![]),
Big::N252 => var(252, vec![]),
Big::N253 => var(253, vec![]),
Big::N254 => var(254, vec![]),
Big::N255 => var(255, vec![]),
Big::N256 => var(256, vec![]),
Big::N257 => var(257, vec![]),
Big::N258 => var(258, vec![]),
Big::N259 => var(259, vec![]),
Big::N260 => var(260, vec![]),
Big::N261 => var(261, vec![]),
Big::N262 => var(262, vec![]),
Big::N263 => var(263, vec![]),
Big::N264 => var(264, vec![]),
Big::N265 => var(265, vec![]),
Big::N266 => var(266, vec![]),
Big::N267 => var(267, vec![]),
Big::N268 => var(268, vec![]),
Big::N269 => var(269, vec![]),
Big::N270 => var(270, vec![]),
Big::N271 => var(271, vec![]),
Big::N272 => var(272, vec![]),
Big::N273 => var(273, vec![]),
Big::N274 => var(274, vec![]),
Big::N275 => var(275, vec![]),
Big::N276 => var(276, vec![]),
Big::N277 => var(277, vec![]),
Big::N278 => var(278, vec![]),
Big::N279 => var(279, vec![]),
Big::N280 => var(280, vec![]),
Big::N281 => var(281, vec![]),
Big::N282 => var(282, vec![]),
Big::N283 => var(283, vec![]),
Big::N284 => var(284, vec![]),
Big::N285 => var(285, vec![]),
Big::N286 => var(286, vec![]),
Big::N287 => var(287, vec![]),
Big::N288 => var(288, vec![]),
Big::N289 => var(289, vec![]),
Big::N290 => var(290, vec![]),
Big::N291 => var(291, vec![]),
Big::N292 => var(292, vec![]),
Big::N293 => var(293, vec![]),
Big::N294 => var(294, vec![]),
Big::N295 => var(295, vec![]),
Big::N296 => var(296, vec![]),
Big::N297 => var(297, vec![]),
Big::N298 => var(298, vec![]),
Big::N299 => var(299, vec![]),
Big::P(a0) => var(300, vec![a0.to_abs()]),
Big::P2(a0, a1) => var(301, vec![a0.to_abs(), a1.to_abs()]),
Big::R { a } => var(302, vec![a.to_abs()]),
Big::Z => var(303, vec![]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Big::N0,
1 => Big::N1,
2 => Big::N2,
3 => Big::N3,
4 => Big::N4,
5 => Big::N5,
6 => Big::N6,
7 => Big::N7,
8 => Big::N8,
9 => Big::N9,
10 => Big::N10,
11 => Big::N11,
12 => Big::N12,
13 => Big::N13,
14 => Big::N14,
15 => Big::N15,
16 => Big::N16,
17 => Big::N17,
18 => Big::N18,
19 => Big::N19,
20 => Big::N20,
21 => Big::N21,
22 => Big::N22,
23 => Big::N23,
24 => Big::N24,
25 => Big::N25,
26 => Big::N26,
27 => Big::N27,
28 => Big::N28,
29 => Big::N29,
30 => Big::N30,
31 => Big::N31,
32 => Big::N32,
33 => Big::N33,
34 => Big::N34,
35 => Big::N35,
36 => Big::N36,
37 => Big::N37,
38 => Big::N38,
39 => Big::N39,
40 => Big::N40,
41 => Big::N41,
42 => Big::N42,
43 => Big::N43,
44 => Big::N44,
45 => Big::N45,
46 => Big::N46,
47 => Big::N47,
48 => Big::N48,
49 => Big::N49,
50 => Big::N50,
51 => Big::N51,
52 => Big::N52,
53 => Big::N53,
54 => Big::N54,
55 => Big::N55,
56 => Big::N56,
57 => Big::N57,
58 => Big::N58,
59 => Big::N59,
60 => Big::N60,
61 => Big::N61,
62 => Big::N62,
63 => Big::N63,
64 => Big::N64,
65 => Big::N65,
66 => Big::N66,
67 => Big::N67,
68 => Big::N68,
69 => Big::N69,
70 => Big::N70,
71 => Big::N71,
72 => Big::N72,
73 => Big::N73,
74 => Big::N74,
75 => Big::N75,
76 => Big::N76,
77 => Big::N77,
78 => Big::N78,
79 => Big::N79,
80 => Big::N80,
81 => Big::N81,
82 => Big::N82,
83 => Big::N83,
84 => Big::N84,
85 => Big::N85,
86 => Big::N86,
87 => Big::N87,
88 => Big::N88,
89 => Big::N89,
90 => Big::N90,
91 => Big::N91,
92 => Big::N92,
93 => Big::N93,
94 => Big::N94,
95 => Big::N95,
96 => Big::N96,
97 => Big::N97,
98 => Big::N98,
99 => Big::N99,
100 => Big::N100,
101 => Big::N101,
102 => Big::N102,
103 => Big::N103,
104 => Big::N104,
105 => Big::N105,
106 => Big::N106,
107 => Big::N107,
108 => Big::N108,
109 => Big::N109,
110 => Big::N110,
111 => Big::N111,
112 => Big::N112,
113 => Big::N113,
114 => Big::N114,
115 => Big::N115,
116 => Big::N116,
117 => Big::N117,
118 => Big::N118,
119 => Big::N119,
120 => Big::N120,
121 => Big::N121,
122 => Big::N122,
123 => Big::N123,
124 => Big::N124,
125 => Big::N125,
126 => Big::N126,
127 => Big::N127,
128 => Big::N128,
129 => Big::N129,
130 => Big::N130,
131 => Big::N131,
132 => Big::N132,
133 => Big::N133,
134 => Big::N134,
135 => Big::N135,
136 => Big::N136,
137 => Big::N137,
138 => Big::N138,
139 => Big::N139,
140 => Big::N140,
141 => Big::N141,
142 => Big::N142,
143 => Big::N143,
144 => Big::N144,
145 => Big::N145,
146 => Big::N146,
147 => Big::N147,
148 => Big::N148,
149 => Big::N149,
150 => Big::N150,
151 => Big::N151,
152 => Big::N152,
153 => Big::N153,
154 => Big::N154,
155 => Big::N155,
156 => Big::N156,
157 => Big::N157,
158 => Big::N158,
159 => Big::N159,
160 => Big::N160,
161 => Big::N161,
162 => Big::N162,
163 => Big::N163,
164 => Big::N164,
165 => Big::N165,
166 => Big::N166,
167 => Big::N167,
168 => Big::N168,
169 => Big::N169,
170 => Big::N170,
171 => Big::N171,
172 => Big::N172,
173 => Big::N173,
174 => Big::N174,
175 => Big::N175,
176 => Big::N176,
177 => Big::N177,
178 => Big::N178,
179 => Big::N179,
180 => Big::N180,
181 => Big::N181,
182 => Big::N182,
183 => Big::N183,
184 => Big::N184,
185 => Big::N185,
186 => Big::N186,
187 => Big::N187,
188 => Big::N188,
189 => Big::N189,
190 => Big::N190,
191 => Big::N191,
192 => Big::N192,
193 => Big::N193,
194 => Big::N194,
195 => Big::N195,
196 => Big::N196,
197 => Big::N197,
198 => Big::N198,
199 => Big::N199,
200 => Big::N200,
201 => Big::N201,
202 => Big::N202,
203 => Big::N203,
204 => Big::N204,
205 => Big::N205,
206 => Big::N206,
207 => Big::N207,
208 => Big::N208,
209 => Big::N209,
210 => Big::N210,
211 => Big::N211,
212 => Big::N212,
213 => Big::N213,
214 => Big::N214,
215 => Big::N215,
216 => Big::N216,
217 => Big::N217,
218 => Big::N218,
219 => Big::N219,
220 => Big::N220,
221 => Big::N221,
222 => Big::N222,
223 => Big::N223,
224 => Big::N224,
225 => Big::N225,
226 => Big::N226,
227 => Big::N227,
228 => Big::N228,
229 => Big::N229,
230 => Big::N230,
231 => Big::N231,
232 => Big::N232,
233 => Big::N233,
234 => Big::N234,
235 => Big::N235,
236 => Big::N236,
237 => Big::N237,
238 => Big::N238,
239 => Big::N239,
240 => Big::N240,
241 => Big::N241,
242 => Big::N242,
243 => Big::N243,
244 => Big::N244,
245 => Big::N245,
246 => Big::N246,
247 => Big::N247,
248 => Big::N248,
249 => Big::N249,
250 => Big::N250,
251 => Big::N251,
252 => Big::N252,
253 => Big::N253,
254 => Big::N254,
255 => Big::N255,
256 => Big::N256,
257 => Big::N257,
258 => Big::N258,
259 => Big::N259,
260 => Big::N260,
261 => Big::N261,
262 => Big::N262,
263 => Big::N263,
264 => Big::N264,
265 => Big::N265,
266 => Big::N266,
267 => Big::N267,
268 => Big::N268,
269 => Big::N269,
270 => Big::N270,
271 => Big::N271,
272 => Big::N272,
273 => Big::N273,
274 => Big::N274,
275 => Big::N275,
276 => Big::N276,
277 => Big::N277,
278 => Big::N278,
279 => Big::N279,
280 => Big::N280,
281 => Big::N281,
282 => Big::N282,
283 => Big::N283,
284 => Big::N284,
285 => Big::N285,
286 => Big::N286,
287 => Big::N287,
288 => Big::N288,
289 => Big::N289,
290 => Big::N290,
291 => Big::N291,
292 => Big::N292,
293 => Big::N293,
294 => Big::N294,
295 => Big::N295,
296 => Big::N296,
297 => Big::N297,
298 => Big::N298,
299 => Big::N299,
300 => Big::P(Abs::from_abs(&f[0])),
301 => Big::P2(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
302 => Big::R { a: Abs::from_abs(&f[0]) },
303 => Big::Z,
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Words {
    NoneYet,
    Non,
    None1(u8),
    None_ { a: Option<u8> },
    none,
    Some(u8),
    Ok(Option<u8>),
}
impl Abs for Words {
 fn to_abs(&self) -> J { match self {
Words::NoneYet => var(0, vec![]),
Words::Non => var(1, vec![]),
Words::None1(a0) => var(2, vec![a0.to_abs()]),
Words::None_ { a } => var(3, vec![a.to_abs()]),
Words::none => var(4, vec![]),
Words::Some(a0) => var(5, vec![a0.to_abs()]),
Words::Ok(a0) => var(6, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Words::NoneYet,
1 => Words::Non,
2 => Words::None1(Abs::from_abs(&f[0])),
3 => Words::None_ { a: Abs::from_abs(&f[0]) },
4 => Words::none,
5 => Words::Some(Abs::from_abs(&f[0])),
6 => Words::Ok(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Words2 {
    nul,
    nullx(u8),
    null,
    True,
    truex,
    fals,
    falsey { nulls: u8 },
    nan,
    inf,
    e5,
}
impl Abs for Words2 {
 fn to_abs(&self) -> J { match self {
Words2::nul => var(0, vec![]),
Words2::nullx(a0) => var(1, vec![a0.to_abs()]),
Words2::null => var(2, vec![]),
Words2::True => var(3, vec![]),
Words2::truex => var(4, vec![]),
Words2::fals => var(5, vec![]),
Words2::falsey { nulls } => var(6, vec![nulls.to_abs()]),
Words2::nan => var(7, vec![]),
Words2::inf => var(8, vec![]),
Words2::e5 => var(9, vec![]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Words2::nul,
1 => Words2::nullx(Abs::from_abs(&f[0])),
2 => Words2::null,
3 => Words2::True,
4 => Words2::truex,
5 => Words2::fals,
6 => Words2::falsey { nulls: Abs::from_abs(&f[0]) },
7 => Words2::nan,
8 => Words2::inf,
9 => Words2::e5,
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub struct WordsF {
    pub w: Option<Words>,
    pub None_: Option<u8>,
    pub nullx: u8,
    #[nserde(rename = "truey")] pub t: Option<u8>,
    pub fals: Option<Words2>,
    pub some: Words,
}
impl Abs for WordsF {
 fn to_abs(&self) -> J { rec(vec![self.w.to_abs(), self.None_.to_abs(), self.nullx.to_abs(), self.t.to_abs(), self.fals.to_abs(), self.some.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; WordsF { w: Abs::from_abs(&f[0]), None_: Abs::from_abs(&f[1]), nullx: Abs::from_abs(&f[2]), t: Abs::from_abs(&f[3]), fals: Abs::from_abs(&f[4]), some: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
pub struct HoldE {
    pub u: Uni,
    pub m: Mix,
    pub o: Option<Uni>,
    pub v: Vec<FieldV>,
    #[nserde(default)] pub d: Uni,
}
impl Abs for HoldE {
 fn to_abs(&self) -> J { rec(vec![self.u.to_abs(), self.m.to_abs(), self.o.to_abs(), self.v.to_abs(), self.d.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; HoldE { u: Abs::from_abs(&f[0]), m: Abs::from_abs(&f[1]), o: Abs::from_abs(&f[2]), v: Abs::from_abs(&f[3]), d: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
pub struct HoldEB {
    pub u: Uni,
    pub m: Mix,
    pub o: Option<Uni>,
    pub k: Disc,
}
impl Abs for HoldEB {
 fn to_abs(&self) -> J { rec(vec![self.u.to_abs(), self.m.to_abs(), self.o.to_abs(), self.k.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; HoldEB { u: Abs::from_abs(&f[0]), m: Abs::from_abs(&f[1]), o: Abs::from_abs(&f[2]), k: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
pub struct G1<T> {
    pub a: T,
    pub v: Vec<T>,
}
impl Abs for G1<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.v.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; G1 { a: Abs::from_abs(&f[0]), v: Abs::from_abs(&f[1]) } }
}

impl Abs for G1<String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.v.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; G1 { a: Abs::from_abs(&f[0]), v: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct G2<K, V = u8> where K: Clone, V: Clone {
    pub k: K,
    pub v: Option<V>,
}
impl Abs for G2<u16, String> {
 fn to_abs(&self) -> J { rec(vec![self.k.to_abs(), self.v.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; G2 { k: Abs::from_abs(&f[0]), v: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub struct GC<const N: usize> {
    pub a: [u8; N],
    pub n: u8,
}
impl Abs for GC<3> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.n.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; GC { a: Abs::from_abs(&f[0]), n: Abs::from_abs(&f[1]) } }
}

#[derive(SerRon, DeRon)]
pub enum GE<T, U: Clone> {
    A(T),
    B { t: T, u: U },
    C,
    D(U, T),
}
impl Abs for GE<u8, String> {
 fn to_abs(&self) -> J { match self {
GE::A(a0) => var(0, vec![a0.to_abs()]),
GE::B { t, u } => var(1, vec![t.to_abs(), u.to_abs()]),
GE::C => var(2, vec![]),
GE::D(a0, a1) => var(3, vec![a0.to_abs(), a1.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => GE::A(Abs::from_abs(&f[0])),
1 => GE::B { t: Abs::from_abs(&f[0]), u: Abs::from_abs(&f[1]) },
2 => GE::C,
3 => GE::D(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub struct GT<A, B>(pub A, pub B);
impl Abs for GT<u8, String> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); GT(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])) }
}

#[derive(SerRon, DeRon)]
pub struct WrapP {
    pub s: String,
}
impl Abs for WrapP {
 fn to_abs(&self) -> J { rec(vec![self.s.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; WrapP { s: Abs::from_abs(&f[0]) } }
}


impl From<&RawS> for WrapP { fn from(x: &RawS) -> Self { WrapP { s: format!("<{}>", x.0) } } }
impl From<&WrapP> for RawS { fn from(x: &WrapP) -> Self { RawS(unwrap_str(&x.s)) } }

#[derive(SerRon, DeRon)]
pub enum NamesV {
    V { s: u8, d: String, i: Option<u8>, o: u16, r: u8, t: Option<String>, name: u8, _s: u8 },
    T(u8, u16),
}
impl Abs for NamesV {
 fn to_abs(&self) -> J { match self {
NamesV::V { s, d, i, o, r, t, name, _s } => var(0, vec![s.to_abs(), d.to_abs(), i.to_abs(), o.to_abs(), r.to_abs(), t.to_abs(), name.to_abs(), _s.to_abs()]),
NamesV::T(a0, a1) => var(1, vec![a0.to_abs(), a1.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => NamesV::V { s: Abs::from_abs(&f[0]), d: Abs::from_abs(&f[1]), i: Abs::from_abs(&f[2]), o: Abs::from_abs(&f[3]), r: Abs::from_abs(&f[4]), t: Abs::from_abs(&f[5]), name: Abs::from_abs(&f[6]), _s: Abs::from_abs(&f[7]) },
1 => NamesV::T(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub struct Names {
    pub s: u8,
    pub d: String,
    pub i: Option<u8>,
    pub o: u16,
    pub r: u8,
    pub t: Option<String>,
    pub proxy: u8,
    pub out: u8,
}
impl Abs for Names {
 fn to_abs(&self) -> J { rec(vec![self.s.to_abs(), self.d.to_abs(), self.i.to_abs(), self.o.to_abs(), self.r.to_abs(), self.t.to_abs(), self.proxy.to_abs(), self.out.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Names { s: Abs::from_abs(&f[0]), d: Abs::from_abs(&f[1]), i: Abs::from_abs(&f[2]), o: Abs::from_abs(&f[3]), r: Abs::from_abs(&f[4]), t: Abs::from_abs(&f[5]), proxy: Abs::from_abs(&f[6]), out: Abs::from_abs(&f[7]) } }
}

#[derive(SerRon, DeRon)]
pub struct WideT(pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16);
impl Abs for WideT {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs(), self.4.to_abs(), self.5.to_abs(), self.6.to_abs(), self.7.to_abs(), self.8.to_abs(), self.9.to_abs(), self.10.to_abs(), self.11.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); WideT(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5]), Abs::from_abs(&f[6]), Abs::from_abs(&f[7]), Abs::from_abs(&f[8]), Abs::from_abs(&f[9]), Abs::from_abs(&f[10]), Abs::from_abs(&f[11])) }
}

#[derive(SerRon, DeRon)]
pub enum WideV {
    U,
    T(u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16),
    R { f0: u16, f1: u16, f2: u16, f3: u16, f4: u16, f5: u16, f6: u16, f7: u16, f8: u16, f9: u16, f10: u16, f11: u16, f12: u16 },
    O(Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>),
    S(String, u8, String, u8, String, u8, String, u8, String, u8, String, u8),
    Z(u8),
}
impl Abs for WideV {
 fn to_abs(&self) -> J { match self {
WideV::U => var(0, vec![]),
WideV::T(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) => var(1, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs(), a5.to_abs(), a6.to_abs(), a7.to_abs(), a8.to_abs(), a9.to_abs(), a10.to_abs(), a11.to_abs(), a12.to_abs()]),
WideV::R { f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12 } => var(2, vec![f0.to_abs(), f1.to_abs(), f2.to_abs(), f3.to_abs(), f4.to_abs(), f5.to_abs(), f6.to_abs(), f7.to_abs(), f8.to_abs(), f9.to_abs(), f10.to_abs(), f11.to_abs(), f12.to_abs()]),
WideV::O(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) => var(3, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs(), a5.to_abs(), a6.to_abs(), a7.to_abs(), a8.to_abs(), a9.to_abs(), a10.to_abs(), a11.to_abs()]),
WideV::S(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) => var(4, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs(), a5.to_abs(), a6.to_abs(), a7.to_abs(), a8.to_abs(), a9.to_abs(), a10.to_abs(), a11.to_abs()]),
WideV::Z(a0) => var(5, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => WideV::U,
1 => WideV::T(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5]), Abs::from_abs(&f[6]), Abs::from_abs(&f[7]), Abs::from_abs(&f[8]), Abs::from_abs(&f[9]), Abs::from_abs(&f[10]), Abs::from_abs(&f[11]), Abs::from_abs(&f[12])),
2 => WideV::R { f0: Abs::from_abs(&f[0]), f1: Abs::from_abs(&f[1]), f2: Abs::from_abs(&f[2]), f3: Abs::from_abs(&f[3]), f4: Abs::from_abs(&f[4]), f5: Abs::from_abs(&f[5]), f6: Abs::from_abs(&f[6]), f7: Abs::from_abs(&f[7]), f8: Abs::from_abs(&f[8]), f9: Abs::from_abs(&f[9]), f10: Abs::from_abs(&f[10]), f11: Abs::from_abs(&f[11]), f12: Abs::from_abs(&f[12]) },
3 => WideV::O(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5]), Abs::from_abs(&f[6]), Abs::from_abs(&f[7]), Abs::from_abs(&f[8]), Abs::from_abs(&f[9]), Abs::from_abs(&f[10]), Abs::from_abs(&f[11])),
4 => WideV::S(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5]), Abs::from_abs(&f[6]), Abs::from_abs(&f[7]), Abs::from_abs(&f[8]), Abs::from_abs(&f[9]), Abs::from_abs(&f[10]), Abs::from_abs(&f[11])),
5 => WideV::Z(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub struct WideS {
    pub f0: u8,
    pub f1: Option<u16>,
    pub f2: String,
    #[nserde(rename = "x70")] pub f3: Option<String>,
    pub f4: i16,
    #[nserde(default)] pub f5: u8,
    pub f6: Option<u16>,
    pub f7: String,
    pub f8: Option<String>,
    pub f9: i16,
    #[nserde(rename = "x63")] pub f10: u8,
    pub f11: Option<u16>,
    #[nserde(default)] pub f12: String,
    pub f13: Option<String>,
    pub f14: i16,
    pub f15: u8,
    pub f16: Option<u16>,
    #[nserde(rename = "x56")] pub f17: String,
    pub f18: Option<String>,
    #[nserde(default)] pub f19: i16,
    pub f20: u8,
    pub f21: Option<u16>,
    pub f22: String,
    pub f23: Option<String>,
    #[nserde(rename = "x49")] pub f24: i16,
    pub f25: u8,
    #[nserde(default)] pub f26: Option<u16>,
    pub f27: String,
    pub f28: Option<String>,
    pub f29: i16,
    #[nserde(skip)] pub f30: u8,
    #[nserde(rename = "x42")] pub f31: Option<u16>,
    pub f32: String,
    #[nserde(default)] pub f33: Option<String>,
    pub f34: i16,
    pub f35: u8,
    pub f36: Option<u16>,
    pub f37: String,
    #[nserde(rename = "x35")] pub f38: Option<String>,
    pub f39: i16,
    #[nserde(default)] pub f40: u8,
    pub f41: Option<u16>,
    pub f42: String,
    pub f43: Option<String>,
    pub f44: i16,
    #[nserde(rename = "x28")] pub f45: u8,
    pub f46: Option<u16>,
    #[nserde(default)] pub f47: String,
    pub f48: Option<String>,
    pub f49: i16,
    pub f50: u8,
    pub f51: Option<u16>,
    #[nserde(rename = "x21")] pub f52: String,
    pub f53: Option<String>,
    #[nserde(default)] pub f54: i16,
    pub f55: u8,
    pub f56: Option<u16>,
    pub f57: String,
    pub f58: Option<String>,
    #[nserde(rename = "x14")] pub f59: i16,
    pub f60: u8,
    #[nserde(default)] pub f61: Option<u16>,
    pub f62: String,
    pub f63: Option<String>,
    pub f64: i16,
    pub f65: u8,
    #[nserde(rename = "x7")] pub f66: Option<u16>,
    pub f67: String,
    #[nserde(default)] pub f68: Option<String>,
    pub f69: i16,
    pub f70: u8,
    pub f71: Option<u16>,
    pub f72: String,
    #[nserde(rename = "x0")] pub f73: Option<String>,
}
impl Abs for WideS {
 fn to_abs(&self) -> J { rec(vec![self.f0.to_abs(), self.f1.to_abs(), self.f2.to_abs(), self.f3.to_abs(), self.f4.to_abs(), self.f5.to_abs(), self.f6.to_abs(), self.f7.to_abs(), self.f8.to_abs(), self.f9.to_abs(), self.f10.to_abs(), self.f11.to_abs(), self.f12.to_abs(), self.f13.to_abs(), self.f14.to_abs(), self.f15.to_abs(), self.f16.to_abs(), self.f17.to_abs(), self.f18.to_abs(), self.f19.to_abs(), self.f20.to_abs(), self.f21.to_abs(), self.f22.to_abs(), self.f23.to_abs(), self.f24.to_abs(), self.f25.to_abs(), self.f26.to_abs(), self.f27.to_abs(), self.f28.to_abs(), self.f29.to_abs(), self.f30.to_abs(), self.f31.to_abs(), self.f32.to_abs(), self.f33.to_abs(), self.f34.to_abs(), self.f35.to_abs(), self.f36.to_abs(), self.f37.to_abs(), self.f38.to_abs(), self.f39.to_abs(), self.f40.to_abs(), self.f41.to_abs(), self.f42.to_abs(), self.f43.to_abs(), self.f44.to_abs(), self.f45.to_abs(), self.f46.to_abs(), self.f47.to_abs(), self.f48.to_abs(), self.f49.to_abs(), self.f50.to_abs(), self.f51.to_abs(), self.f52.to_abs(), self.f53.to_abs(), self.f54.to_abs(), self.f55.to_abs(), self.f56.to_abs(), self.f57.to_abs(), self.f58.to_abs(), self.f59.to_abs(), self.f60.to_abs(), self.f61.to_abs(), self.f62.to_abs(), self.f63.to_abs(), self.f64.to_abs(), self.f65.to_abs(), self.f66.to_abs(), self.f67.to_abs(), self.f68.to_abs(), self.f69.to_abs(), self.f70.to_abs(), self.f71.to_abs(), self.f72.to_abs(), self.f73.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; WideS { f0: Abs::from_abs(&f[0]), f1: Abs::from_abs(&f[1]), f2: Abs::from_abs(&f[2]), f3: Abs::from_abs(&f[3]), f4: Abs::from_abs(&f[4]), f5: Abs::from_abs(&f[5]), f6: Abs::from_abs(&f[6]), f7: Abs::from_abs(&f[7]), f8: Abs::from_abs(&f[8]), f9: Abs::from_abs(&f[9]), f10: Abs::from_abs(&f[10]), f11: Abs::from_abs(&f[11]), f12: Abs::from_abs(&f[12]), f13: Abs::from_abs(&f[13]), f14: Abs::from_abs(&f[14]), f15: Abs::from_abs(&f[15]), f16: Abs::from_abs(&f[16]), f17: Abs::from_abs(&f[17]), f18: Abs::from_abs(&f[18]), f19: Abs::from_abs(&f[19]), f20: Abs::from_abs(&f[20]), f21: Abs::from_abs(&f[21]), f22: Abs::from_abs(&f[22]), f23: Abs::from_abs(&f[23]), f24: Abs::from_abs(&f[24]), f25: Abs::from_abs(&f[25]), f26: Abs::from_abs(&f[26]), f27: Abs::from_abs(&f[27]), f28: Abs::from_abs(&f[28]), f29: Abs::from_abs(&f[29]), f30: Abs::from_abs(&f[30]), f31: Abs::from_abs(&f[31]), f32: Abs::from_abs(&f[32]), f33: Abs::from_abs(&f[33]), f34: Abs::from_abs(&f[34]), f35: Abs::from_abs(&f[35]), f36: Abs::from_abs(&f[36]), f37: Abs::from_abs(&f[37]), f38: Abs::from_abs(&f[38]), f39: Abs::from_abs(&f[39]), f40: Abs::from_abs(&f[40]), f41: Abs::from_abs(&f[41]), f42: Abs::from_abs(&f[42]), f43: Abs::from_abs(&f[43]), f44: Abs::from_abs(&f[44]), f45: Abs::from_abs(&f[45]), f46: Abs::from_abs(&f[46]), f47: Abs::from_abs(&f[47]), f48: Abs::from_abs(&f[48]), f49: Abs::from_abs(&f[49]), f50: Abs::from_abs(&f[50]), f51: Abs::from_abs(&f[51]), f52: Abs::from_abs(&f[52]), f53: Abs::from_abs(&f[53]), f54: Abs::from_abs(&f[54]), f55: Abs::from_abs(&f[55]), f56: Abs::from_abs(&f[56]), f57: Abs::from_abs(&f[57]), f58: Abs::from_abs(&f[58]), f59: Abs::from_abs(&f[59]), f60: Abs::from_abs(&f[60]), f61: Abs::from_abs(&f[61]), f62: Abs::from_abs(&f[62]), f63: Abs::from_abs(&f[63]), f64: Abs::from_abs(&f[64]), f65: Abs::from_abs(&f[65]), f66: Abs::from_abs(&f[66]), f67: Abs::from_abs(&f[67]), f68: Abs::from_abs(&f[68]), f69: Abs::from_abs(&f[69]), f70: Abs::from_abs(&f[70]), f71: Abs::from_abs(&f[71]), f72: Abs::from_abs(&f[72]), f73: Abs::from_abs(&f[73]) } }
}

#[derive(SerRon, DeRon)]
pub struct WideO {
    pub o0: Option<u8>,
    pub o1: Option<u8>,
    pub o2: Option<u8>,
    pub o3: Option<u8>,
    pub o4: Option<u8>,
    pub o5: Option<u8>,
    pub o6: Option<u8>,
    pub o7: Option<u8>,
    pub o8: Option<u8>,
    pub o9: Option<u8>,
    pub o10: Option<u8>,
    pub o11: Option<u8>,
    pub o12: Option<u8>,
    pub o13: Option<u8>,
    pub o14: Option<u8>,
    pub o15: Option<u8>,
    pub o16: Option<u8>,
    pub o17: Option<u8>,
    pub o18: Option<u8>,
    pub o19: Option<u8>,
    pub o20: Option<u8>,
    pub o21: Option<u8>,
    pub o22: Option<u8>,
    pub o23: Option<u8>,
    pub o24: Option<u8>,
    pub o25: Option<u8>,
    pub o26: Option<u8>,
    pub o27: Option<u8>,
    pub o28: Option<u8>,
    pub o29: Option<u8>,
    pub o30: Option<u8>,
    pub o31: Option<u8>,
    pub o32: Option<u8>,
    pub o33: Option<u8>,
    pub o34: Option<u8>,
    pub o35: Option<u8>,
    pub o36: Option<u8>,
    pub o37: Option<u8>,
    pub o38: Option<u8>,
    pub o39: Option<u8>,
    pub o40: Option<u8>,
    pub o41: Option<u8>,
    pub o42: Option<u8>,
    pub o43: Option<u8>,
    pub o44: Option<u8>,
    pub o45: Option<u8>,
    pub o46: Option<u8>,
    pub o47: Option<u8>,
    pub o48: Option<u8>,
    pub o49: Option<u8>,
    pub o50: Option<u8>,
    pub o51: Option<u8>,
    pub o52: Option<u8>,
    pub o53: Option<u8>,
    pub o54: Option<u8>,
    pub o55: Option<u8>,
    pub o56: Option<u8>,
    pub o57: Option<u8>,
    pub o58: Option<u8>,
    pub o59: Option<u8>,
    pub o60: Option<u8>,
    pub o61: Option<u8>,
    pub o62: Option<u8>,
    pub o63: Option<u8>,
    pub o64: Option<u8>,
    pub o65: Option<u8>,
    pub o66: Option<u8>,
    pub o67: Option<u8>,
    pub o68: Option<u8>,
    pub o69: Option<u8>,
}
impl Abs for WideO {
 fn to_abs(&self) -> J { rec(vec![self.o0.to_abs(), self.o1.to_abs(), self.o2.to_abs(), self.o3.to_abs(), self.o4.to_abs(), self.o5.to_abs(), self.o6.to_abs(), self.o7.to_abs(), self.o8.to_abs(), self.o9.to_abs(), self.o10.to_abs(), self.o11.to_abs(), self.o12.to_abs(), self.o13.to_abs(), self.o14.to_abs(), self.o15.to_abs(), self.o16.to_abs(), self.o17.to_abs(), self.o18.to_abs(), self.o19.to_abs(), self.o20.to_abs(), self.o21.to_abs(), self.o22.to_abs(), self.o23.to_abs(), self.o24.to_abs(), self.o25.to_abs(), self.o26.to_abs(), self.o27.to_abs(), self.o28.to_abs(), self.o29.to_abs(), self.o30.to_abs(), self.o31.to_abs(), self.o32.to_abs(), self.o33.to_abs(), self.o34.to_abs(), self.o35.to_abs(), self.o36.to_abs(), self.o37.to_abs(), self.o38.to_abs(), self.o39.to_abs(), self.o40.to_abs(), self.o41.to_abs(), self.o42.to_abs(), self.o43.to_abs(), self.o44.to_abs(), self.o45.to_abs(), self.o46.to_abs(), self.o47.to_abs(), self.o48.to_abs(), self.o49.to_abs(), self.o50.to_abs(), self.o51.to_abs(), self.o52.to_abs(), self.o53.to_abs(), self.o54.to_abs(), self.o55.to_abs(), self.o56.to_abs(), self.o57.to_abs(), self.o58.to_abs(), self.o59.to_abs(), self.o60.to_abs(), self.o61.to_abs(), self.o62.to_abs(), self.o63.to_abs(), self.o64.to_abs(), self.o65.to_abs(), self.o66.to_abs(), self.o67.to_abs(), self.o68.to_abs(), self.o69.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; WideO { o0: Abs::from_abs(&f[0]), o1: Abs::from_abs(&f[1]), o2: Abs::from_abs(&f[2]), o3: Abs::from_abs(&f[3]), o4: Abs::from_abs(&f[4]), o5: Abs::from_abs(&f[5]), o6: Abs::from_abs(&f[6]), o7: Abs::from_abs(&f[7]), o8: Abs::from_abs(&f[8]), o9: Abs::from_abs(&f[9]), o10: Abs::from_abs(&f[10]), o11: Abs::from_abs(&f[11]), o12: Abs::from_abs(&f[12]), o13: Abs::from_abs(&f[13]), o14: Abs::from_abs(&f[14]), o15: Abs::from_abs(&f[15]), o16: Abs::from_abs(&f[16]), o17: Abs::from_abs(&f[17]), o18: Abs::from_abs(&f[18]), o19: Abs::from_abs(&f[19]), o20: Abs::from_abs(&f[20]), o21: Abs::from_abs(&f[21]), o22: Abs::from_abs(&f[22]), o23: Abs::from_abs(&f[23]), o24: Abs::from_abs(&f[24]), o25: Abs::from_abs(&f[25]), o26: Abs::from_abs(&f[26]), o27: Abs::from_abs(&f[27]), o28: Abs::from_abs(&f[28]), o29: Abs::from_abs(&f[29]), o30: Abs::from_abs(&f[30]), o31: Abs::from_abs(&f[31]), o32: Abs::from_abs(&f[32]), o33: Abs::from_abs(&f[33]), o34: Abs::from_abs(&f[34]), o35: Abs::from_abs(&f[35]), o36: Abs::from_abs(&f[36]), o37: Abs::from_abs(&f[37]), o38: Abs::from_abs(&f[38]), o39: Abs::from_abs(&f[39]), o40: Abs::from_abs(&f[40]), o41: Abs::from_abs(&f[41]), o42: Abs::from_abs(&f[42]), o43: Abs::from_abs(&f[43]), o44: Abs::from_abs(&f[44]), o45: Abs::from_abs(&f[45]), o46: Abs::from_abs(&f[46]), o47: Abs::from_abs(&f[47]), o48: Abs::from_abs(&f[48]), o49: Abs::from_abs(&f[49]), o50: Abs::from_abs(&f[50]), o51: Abs::from_abs(&f[51]), o52: Abs::from_abs(&f[52]), o53: Abs::from_abs(&f[53]), o54: Abs::from_abs(&f[54]), o55: Abs::from_abs(&f[55]), o56: Abs::from_abs(&f[56]), o57: Abs::from_abs(&f[57]), o58: Abs::from_abs(&f[58]), o59: Abs::from_abs(&f[59]), o60: Abs::from_abs(&f[60]), o61: Abs::from_abs(&f[61]), o62: Abs::from_abs(&f[62]), o63: Abs::from_abs(&f[63]), o64: Abs::from_abs(&f[64]), o65: Abs::from_abs(&f[65]), o66: Abs::from_abs(&f[66]), o67: Abs::from_abs(&f[67]), o68: Abs::from_abs(&f[68]), o69: Abs::from_abs(&f[69]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks0 {
    #[nserde(default)] pub a: (u8, String),
    #[nserde(rename = "z")] #[nserde(default)] pub b: Option<Box<u8>>,
    #[nserde(rename = "w9")] #[nserde(skip)] pub cc: (u8, String),
    #[nserde(rename = "ex")] #[nserde(default = "-9000000000")] pub d_1: i64,
    pub e: u8,
}
impl Abs for Ks0 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks0 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks2<T: Clone> {
    #[nserde(rename = "fn_")] pub a: (T, String),
    pub b: (T, String),
    #[nserde(default = "true")] #[nserde(skip)] pub cc: Option<bool>,
    #[nserde(default)] pub d_1: Option<u8>,
    #[nserde(rename = "a")] #[nserde(serialize_none_as_null)] pub e: Option<Box<u8>>,
}
impl Abs for Ks2<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks2 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks3<T = u8> {
    #[nserde(serialize_none_as_null)] pub a: Option<T>,
    #[nserde(rename = "ax")] #[nserde(default)] pub b: LinkedList<String>,
    #[nserde(rename = "ex")] pub cc: Option<Plain>,
    #[nserde(skip)] pub d_1: BTreeSet<i32>,
    pub e: Option<T>,
}
impl Abs for Ks3<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks3 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks5 {
    #[nserde(rename = "fn_")] #[nserde(default)] pub a: bool,
    #[nserde(rename = "w9")] #[nserde(default)] pub b: Option<bool>,
    #[nserde(skip)] pub cc: Opts,
    #[nserde(rename = "ex")] pub d_1: BTreeMap<String, u8>,
    #[nserde(default)] pub e: Option<u8>,
}
impl Abs for Ks5 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks5 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks6<T, U> {
    #[nserde(rename = "w9")] #[nserde(default)] pub a: Plain,
    #[nserde(rename = "w9x")] pub b: Vec<T>,
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub cc: Option<Uni>,
    pub d_1: [Option<bool>; 2],
    pub e: Option<String>,
    pub u_: Vec<U>,
}
impl Abs for Ks6<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks6 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), u_: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks7 {
    #[nserde(skip)] pub a: BTreeMap<String, u8>,
    #[nserde(rename = "e")] #[nserde(skip)] pub b: Vec<Option<bool>>,
    #[nserde(serialize_none_as_null)] pub cc: Option<Plain>,
    pub d_1: New,
}
impl Abs for Ks7 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks7 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks8<T, U> {
    pub a: Vec<T>,
    pub b: u8,
    #[nserde(rename = "w9")] #[nserde(default = "a b")] pub cc: String,
    #[nserde(default)] pub d_1: Option<Uni>,
    #[nserde(rename = "e")] pub e: LinkedList<String>,
    pub u_: Vec<U>,
}
impl Abs for Ks8<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks8 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), u_: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ks10<const N: usize> {
    #[nserde(rename = "a")] #[nserde(skip)] pub a: i32,
    #[nserde(skip)] pub b: String,
    #[nserde(rename = "w9")] #[nserde(skip)] pub cc: BTreeSet<i32>,
    #[nserde(skip)] pub d_1: Box<String>,
    pub e: [u8; N],
}
impl Abs for Ks10<2> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks10 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks11<T, U> {
    #[nserde(skip)] pub a: Plain,
    #[nserde(rename = "w9")] #[nserde(default)] pub b: Vec<String>,
    #[nserde(rename = "ax")] pub cc: T,
    #[nserde(rename = "z")] #[nserde(skip)] pub d_1: Option<String>,
    #[nserde(rename = "Yy")] pub e: Option<T>,
    pub u_: Vec<U>,
}
impl Abs for Ks11<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks11 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), u_: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks12<T = u8> {
    pub a: u8,
    #[nserde(default)] pub b: BTreeSet<i32>,
    #[nserde(rename = "z")] pub cc: Plain,
    pub d_1: Option<T>,
    #[nserde(skip)] pub e: f64,
}
impl Abs for Ks12<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks12 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks13 {
    #[nserde(rename = "w9")] pub a: Vec<Option<bool>>,
    #[nserde(rename = "fn_")] #[nserde(default)] pub b: Box<String>,
    pub cc: u8,
    #[nserde(default = "a b")] #[nserde(skip)] pub d_1: String,
    pub e: u8,
}
impl Abs for Ks13 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks13 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ks14<T> where T: Clone {
    #[nserde(rename = "fn_")] pub a: (T, String),
    #[nserde(rename = "fn_x")] #[nserde(default)] pub b: (u8, String),
    #[nserde(default)] pub cc: BTreeSet<i32>,
    pub d_1: (),
    #[nserde(serialize_none_as_null)] pub e: Option<T>,
}
impl Abs for Ks14<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks14 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks15 {
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub a: Option<Box<u8>>,
    pub b: Option<Vec<u8>>,
    #[nserde(default = "-9000000000")] pub cc: i64,
    #[nserde(rename = "exx")] #[nserde(skip)] pub d_1: i32,
    pub e: u8,
}
impl Abs for Ks15 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks15 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks18 {
    #[nserde(rename = "a")] pub a: i64,
    #[nserde(skip)] pub b: bool,
    #[nserde(rename = "z")] #[nserde(default)] pub cc: Plain,
    #[nserde(default = "5")] #[nserde(skip)] pub d_1: u8,
    #[nserde(rename = "Yy")] pub e: Option<String>,
}
impl Abs for Ks18 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks18 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ks19<const N: usize> {
    pub a: [u8; N],
    #[nserde(serialize_none_as_null)] pub b: Option<String>,
    #[nserde(default = "2.5")] #[nserde(skip)] pub cc: f64,
    #[nserde(default = "-9000000000")] pub d_1: i64,
}
impl Abs for Ks19<2> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks19 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks20<T: Clone> {
    #[nserde(skip)] pub a: Option<u8>,
    #[nserde(rename = "ax")] #[nserde(default = "5")] pub b: u8,
    pub cc: Option<T>,
    pub d_1: Plain,
    pub e: BTreeMap<String, u8>,
}
impl Abs for Ks20<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks20 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks21<T> {
    #[nserde(rename = "fn_")] #[nserde(serialize_none_as_null)] pub a: Option<T>,
    #[nserde(serialize_none_as_null)] pub b: Option<bool>,
    pub cc: Option<T>,
    #[nserde(rename = "ex")] pub d_1: [u8; 2],
    #[nserde(default_with = "dw_s")] pub e: String,
}
impl Abs for Ks21<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks21 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks24<T, U> {
    #[nserde(default)] pub a: u8,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<T>,
    #[nserde(default = "-9000000000")] pub cc: i64,
    #[nserde(serialize_none_as_null)] pub d_1: Option<Box<u8>>,
    #[nserde(skip)] pub e: Option<u8>,
    pub u_: Vec<U>,
}
impl Abs for Ks24<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks24 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), u_: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ks25 {
    #[nserde(rename = "a")] pub a: Duration,
    #[nserde(rename = "fn_")] #[nserde(skip)] pub b: f64,
    pub cc: Uni,
    pub d_1: Option<(u8, bool)>,
    #[nserde(rename = "z")] #[nserde(default)] pub e: f64,
}
impl Abs for Ks25 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks25 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks26<T> {
    #[nserde(rename = "fn_")] #[nserde(default)] pub a: Vec<String>,
    #[nserde(default)] pub b: BTreeSet<i32>,
    #[nserde(rename = "e")] pub cc: Vec<T>,
    #[nserde(serialize_none_as_null)] pub d_1: Option<(u8, bool)>,
    #[nserde(rename = "z")] pub e: [u8; 2],
}
impl Abs for Ks26<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks26 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks27 {
    #[nserde(skip)] pub a: Plain,
    #[nserde(default = "true")] pub b: Option<bool>,
    #[nserde(rename = "w9")] #[nserde(default)] pub cc: Uni,
    pub d_1: Vec<u8>,
    #[nserde(default = "true")] #[nserde(skip)] pub e: Option<bool>,
}
impl Abs for Ks27 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks27 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks28 {
    pub a: Opts,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<Vec<u8>>,
    pub cc: String,
    #[nserde(skip)] pub d_1: String,
    #[nserde(default)] pub e: BTreeMap<u8, Option<String>>,
}
impl Abs for Ks28 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks28 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks29<T: Clone> {
    pub a: Option<T>,
    #[nserde(default)] pub b: String,
    #[nserde(rename = "w9")] #[nserde(skip)] pub cc: [u8; 2],
    #[nserde(default = "2.5")] pub d_1: f64,
}
impl Abs for Ks29<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks29 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks30 {
    #[nserde(default = "-9000000000")] pub a: i64,
    #[nserde(default = "true")] #[nserde(serialize_none_as_null)] pub b: Option<bool>,
    #[nserde(rename = "e")] #[nserde(skip)] pub cc: Option<bool>,
    #[nserde(rename = "ex")] #[nserde(skip)] pub d_1: Box<String>,
    #[nserde(rename = "ax")] #[nserde(default)] pub e: Option<Box<u8>>,
}
impl Abs for Ks30 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks30 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks32<T: Clone> {
    #[nserde(rename = "fn_")] #[nserde(skip)] pub a: BTreeMap<u8, Option<String>>,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<T>,
    #[nserde(rename = "ex")] pub cc: Vec<T>,
    #[nserde(rename = "z")] #[nserde(default)] pub d_1: bool,
    pub e: (T, String),
}
impl Abs for Ks32<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks32 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks34 {
    #[nserde(rename = "ex")] pub a: Option<Box<u8>>,
    #[nserde(rename = "fn_")] #[nserde(skip)] pub b: Vec<u8>,
    #[nserde(default_with = "dw_s")] pub cc: String,
    #[nserde(default)] pub d_1: Opts,
    #[nserde(skip)] pub e: Option<Box<u8>>,
}
impl Abs for Ks34 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks34 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks35<T = u8> {
    #[nserde(default)] pub a: LinkedList<String>,
    #[nserde(rename = "w9")] pub b: Vec<T>,
    #[nserde(rename = "w9x")] #[nserde(default)] pub cc: String,
    pub d_1: T,
    #[nserde(rename = "z")] #[nserde(default = "a b")] pub e: String,
}
impl Abs for Ks35<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks35 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks36<T> where T: Clone {
    #[nserde(skip)] pub a: u8,
    pub b: Option<T>,
    pub cc: Box<String>,
    #[nserde(rename = "e")] #[nserde(default)] pub d_1: Box<String>,
}
impl Abs for Ks36<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks36 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks38<T> {
    #[nserde(default = "true")] #[nserde(serialize_none_as_null)] pub a: Option<bool>,
    #[nserde(rename = "ax")] #[nserde(default)] pub b: LinkedList<String>,
    #[nserde(default)] pub cc: (u8, String),
    #[nserde(rename = "z")] pub d_1: Vec<T>,
}
impl Abs for Ks38<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks38 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks39<T, U> {
    #[nserde(default)] pub a: Vec<u8>,
    #[nserde(default = "true")] #[nserde(serialize_none_as_null)] pub b: Option<bool>,
    pub cc: Vec<T>,
    #[nserde(rename = "z")] pub d_1: Vec<T>,
    pub e: bool,
    pub u_: Vec<U>,
}
impl Abs for Ks39<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks39 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), u_: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks41<T> where T: Clone {
    #[nserde(rename = "e")] #[nserde(skip)] pub a: Option<(u8, bool)>,
    #[nserde(rename = "w9")] #[nserde(default = "true")] pub b: bool,
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub cc: Option<T>,
    pub d_1: u8,
}
impl Abs for Ks41<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks41 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ks45<T> where T: Clone {
    pub a: Duration,
    #[nserde(default)] pub b: Uni,
    #[nserde(default_with = "dw_u8")] pub cc: u8,
    pub d_1: (T, String),
    #[nserde(rename = "Yy")] #[nserde(serialize_none_as_null)] pub e: Option<Uni>,
}
impl Abs for Ks45<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks45 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks46<T = u8> {
    #[nserde(rename = "b2")] #[nserde(default)] pub a: u8,
    #[nserde(skip)] pub b: [Option<bool>; 2],
    #[nserde(skip)] pub cc: u8,
    pub d_1: T,
}
impl Abs for Ks46<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks46 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ks48<const N: usize> {
    #[nserde(skip)] pub a: Option<u8>,
    #[nserde(default = "a b")] pub b: String,
    #[nserde(default = "true")] pub cc: Option<bool>,
    #[nserde(skip)] pub d_1: Option<bool>,
    pub e: [u8; N],
}
impl Abs for Ks48<2> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks48 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks49<const N: usize> {
    pub a: i32,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<Vec<u8>>,
    pub cc: [u8; N],
    #[nserde(default_with = "dw_vec")] pub d_1: Vec<u8>,
}
impl Abs for Ks49<2> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks49 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks50 {
    #[nserde(rename = "a")] pub a: Uni,
    #[nserde(rename = "w9")] #[nserde(default)] pub b: Vec<String>,
    #[nserde(rename = "e")] #[nserde(skip)] pub cc: Option<Uni>,
    #[nserde(default = "true")] #[nserde(skip)] pub d_1: bool,
}
impl Abs for Ks50 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks50 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks51<T> where T: Clone {
    #[nserde(rename = "a")] pub a: Box<String>,
    #[nserde(serialize_none_as_null)] pub b: Option<Box<u8>>,
    pub cc: BTreeMap<u8, Option<String>>,
    #[nserde(default_with = "dw_opt")] pub d_1: Option<u8>,
    #[nserde(serialize_none_as_null)] pub e: Option<T>,
}
impl Abs for Ks51<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks51 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks52 {
    pub a: BTreeMap<u8, Option<String>>,
    #[nserde(default)] pub b: BTreeMap<u8, Option<String>>,
    #[nserde(default = "a b")] pub cc: String,
    #[nserde(serialize_none_as_null)] pub d_1: Option<Box<u8>>,
    #[nserde(rename = "e")] #[nserde(default = "5")] pub e: u8,
}
impl Abs for Ks52 {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks52 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
pub struct Ks53<T, U> {
    #[nserde(rename = "a")] #[nserde(default = "a b")] pub a: String,
    #[nserde(rename = "fn_")] #[nserde(skip)] pub b: BTreeSet<i32>,
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub cc: Option<T>,
    #[nserde(rename = "z")] pub d_1: Option<String>,
    pub e: Vec<T>,
    pub u_: Vec<U>,
}
impl Abs for Ks53<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks53 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), u_: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks55<T> {
    #[nserde(rename = "fn_")] #[nserde(skip)] pub a: BTreeMap<u8, Option<String>>,
    pub b: Option<T>,
    pub cc: u8,
    pub d_1: BTreeMap<u8, Option<String>>,
    #[nserde(rename = "z")] #[nserde(skip)] pub e: Uni,
}
impl Abs for Ks55<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks55 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks56<T> where T: Clone {
    #[nserde(default = "-9000000000")] pub a: i64,
    #[nserde(default)] pub b: Option<String>,
    #[nserde(rename = "w9")] #[nserde(default)] pub cc: (u8, String),
    #[nserde(serialize_none_as_null)] pub d_1: Option<T>,
}
impl Abs for Ks56<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks56 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks57<T, U> {
    #[nserde(default)] pub a: Opts,
    pub b: Option<T>,
    #[nserde(default = "true")] #[nserde(skip)] pub cc: Option<bool>,
    #[nserde(rename = "Yy")] #[nserde(skip)] pub d_1: Opts,
    #[nserde(rename = "Yyx")] #[nserde(skip)] pub e: Vec<String>,
    pub u_: Vec<U>,
}
impl Abs for Ks57<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks57 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]), u_: Abs::from_abs(&f[5]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks58<T> {
    #[nserde(rename = "a")] pub a: f64,
    #[nserde(default)] pub b: BTreeMap<String, u8>,
    #[nserde(rename = "e")] pub cc: Option<T>,
    pub d_1: Vec<Option<bool>>,
    #[nserde(rename = "ax")] #[nserde(default)] pub e: Option<(u8, bool)>,
}
impl Abs for Ks58<u8> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks58 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks59<T, U> {
    pub a: Option<T>,
    #[nserde(default_with = "dw_opt")] pub b: Option<u8>,
    #[nserde(rename = "fn_")] #[nserde(default)] pub cc: u8,
    #[nserde(default)] pub d_1: Option<Plain>,
    pub u_: Vec<U>,
}
impl Abs for Ks59<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks59 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), u_: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks60<T, U> {
    #[nserde(rename = "a")] #[nserde(default = "2.5")] pub a: f64,
    #[nserde(rename = "w9")] #[nserde(default = "3")] pub b: Option<u8>,
    #[nserde(serialize_none_as_null)] pub cc: Option<T>,
    pub u_: Vec<U>,
}
impl Abs for Ks60<u8, String> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.u_.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks60 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), u_: Abs::from_abs(&f[3]) } }
}

#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks61<const N: usize> {
    #[nserde(default_with = "dw_u8")] pub a: u8,
    pub b: String,
    pub cc: [u8; N],
    #[nserde(rename = "z")] pub d_1: [u8; N],
    #[nserde(rename = "Yy")] pub e: [u8; N],
}
impl Abs for Ks61<2> {
 fn to_abs(&self) -> J { rec(vec![self.a.to_abs(), self.b.to_abs(), self.cc.to_abs(), self.d_1.to_abs(), self.e.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; Ks61 { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]), cc: Abs::from_abs(&f[2]), d_1: Abs::from_abs(&f[3]), e: Abs::from_abs(&f[4]) } }
}

#[derive(SerRon, DeRon)]
pub enum Ke3<T> {
    A([u8; 2], f64, Option<(u8, bool)>, Duration, i64),
    Bb(u8, Option<u8>),
    C_ { av2: Vec<T>, #[nserde(default)] bv2: i64, #[nserde(rename = "e")] #[nserde(default)] ccv2: Vec<String>, #[nserde(rename = "b2")] d_1v2: Option<(u8, bool)> },
    D1 { #[nserde(rename = "e")] #[nserde(default)] av3: Option<Box<u8>> },
    Ee { #[nserde(rename = "fn_")] av4: (T, String), bv4: Option<Box<u8>>, #[nserde(skip)] ccv4: Vec<String>, #[nserde(default)] d_1v4: Option<Plain> },
}
impl Abs for Ke3<u8> {
 fn to_abs(&self) -> J { match self {
Ke3::A(a0, a1, a2, a3, a4) => var(0, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs()]),
Ke3::Bb(a0, a1) => var(1, vec![a0.to_abs(), a1.to_abs()]),
Ke3::C_ { av2, bv2, ccv2, d_1v2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs(), d_1v2.to_abs()]),
Ke3::D1 { av3 } => var(3, vec![av3.to_abs()]),
Ke3::Ee { av4, bv4, ccv4, d_1v4 } => var(4, vec![av4.to_abs(), bv4.to_abs(), ccv4.to_abs(), d_1v4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke3::A(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4])),
1 => Ke3::Bb(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
2 => Ke3::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]), d_1v2: Abs::from_abs(&f[3]) },
3 => Ke3::D1 { av3: Abs::from_abs(&f[0]) },
4 => Ke3::Ee { av4: Abs::from_abs(&f[0]), bv4: Abs::from_abs(&f[1]), ccv4: Abs::from_abs(&f[2]), d_1v4: Abs::from_abs(&f[3]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke4<T: Clone> {
    A,
    Bb { av1: String, #[nserde(default)] bv1: LinkedList<String>, ccv1: Option<T> },
    C_([u8; 2], (), Vec<u8>, Vec<Option<bool>>, Option<String>),
    D1,
    Ee(u8),
}
impl Abs for Ke4<u8> {
 fn to_abs(&self) -> J { match self {
Ke4::A => var(0, vec![]),
Ke4::Bb { av1, bv1, ccv1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs()]),
Ke4::C_(a0, a1, a2, a3, a4) => var(2, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs()]),
Ke4::D1 => var(3, vec![]),
Ke4::Ee(a0) => var(4, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke4::A,
1 => Ke4::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]) },
2 => Ke4::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4])),
3 => Ke4::D1,
4 => Ke4::Ee(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke5<T> where T: Clone {
    A(Vec<u8>, i64, New),
    Bb { #[nserde(rename = "fn_")] #[nserde(skip)] av1: BTreeMap<u8, Option<String>>, #[nserde(rename = "w9")] bv1: Option<bool>, #[nserde(default = "true")] ccv1: Option<bool> },
    C_(T),
    D1(Option<String>, (), String, Uni, (), Vec<Option<bool>>),
    Ee,
}
impl Abs for Ke5<u8> {
 fn to_abs(&self) -> J { match self {
Ke5::A(a0, a1, a2) => var(0, vec![a0.to_abs(), a1.to_abs(), a2.to_abs()]),
Ke5::Bb { av1, bv1, ccv1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs()]),
Ke5::C_(a0) => var(2, vec![a0.to_abs()]),
Ke5::D1(a0, a1, a2, a3, a4, a5) => var(3, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs(), a5.to_abs()]),
Ke5::Ee => var(4, vec![]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke5::A(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])),
1 => Ke5::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]) },
2 => Ke5::C_(Abs::from_abs(&f[0])),
3 => Ke5::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5])),
4 => Ke5::Ee,
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke8 {
    A { av0: Option<Plain>, bv0: Option<Vec<u8>>, #[nserde(default)] ccv0: bool, #[nserde(rename = "z")] #[nserde(default)] d_1v0: Option<Plain> },
    Bb { av1: Uni },
    C_ { av2: Option<bool>, #[nserde(default = "3")] bv2: Option<u8>, #[nserde(skip)] ccv2: BTreeSet<i32>, #[nserde(skip)] d_1v2: Option<Box<u8>> },
    D1 { #[nserde(skip)] av3: Vec<u8>, #[nserde(rename = "ax")] #[nserde(default)] bv3: LinkedList<String>, #[nserde(rename = "w9")] ccv3: String },
    Ee(String, Option<u8>, (u8, String)),
}
impl Abs for Ke8 {
 fn to_abs(&self) -> J { match self {
Ke8::A { av0, bv0, ccv0, d_1v0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs(), d_1v0.to_abs()]),
Ke8::Bb { av1 } => var(1, vec![av1.to_abs()]),
Ke8::C_ { av2, bv2, ccv2, d_1v2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs(), d_1v2.to_abs()]),
Ke8::D1 { av3, bv3, ccv3 } => var(3, vec![av3.to_abs(), bv3.to_abs(), ccv3.to_abs()]),
Ke8::Ee(a0, a1, a2) => var(4, vec![a0.to_abs(), a1.to_abs(), a2.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke8::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]), d_1v0: Abs::from_abs(&f[3]) },
1 => Ke8::Bb { av1: Abs::from_abs(&f[0]) },
2 => Ke8::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]), d_1v2: Abs::from_abs(&f[3]) },
3 => Ke8::D1 { av3: Abs::from_abs(&f[0]), bv3: Abs::from_abs(&f[1]), ccv3: Abs::from_abs(&f[2]) },
4 => Ke8::Ee(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke9 {
    A((u8, String), Vec<Option<bool>>, Option<(u8, bool)>, Option<String>),
    Bb,
    C_ { #[nserde(rename = "a")] #[nserde(default = "-7")] av2: i32, #[nserde(rename = "fn_")] bv2: Uni, #[nserde(rename = "w9")] ccv2: Duration, #[nserde(skip)] d_1v2: f64 },
    D1 { #[nserde(default)] av3: i64, #[nserde(rename = "e")] bv3: Plain, #[nserde(skip)] ccv3: Option<String>, #[nserde(rename = "ex")] d_1v3: New },
    Ee(BTreeMap<String, u8>),
}
impl Abs for Ke9 {
 fn to_abs(&self) -> J { match self {
Ke9::A(a0, a1, a2, a3) => var(0, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs()]),
Ke9::Bb => var(1, vec![]),
Ke9::C_ { av2, bv2, ccv2, d_1v2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs(), d_1v2.to_abs()]),
Ke9::D1 { av3, bv3, ccv3, d_1v3 } => var(3, vec![av3.to_abs(), bv3.to_abs(), ccv3.to_abs(), d_1v3.to_abs()]),
Ke9::Ee(a0) => var(4, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke9::A(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3])),
1 => Ke9::Bb,
2 => Ke9::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]), d_1v2: Abs::from_abs(&f[3]) },
3 => Ke9::D1 { av3: Abs::from_abs(&f[0]), bv3: Abs::from_abs(&f[1]), ccv3: Abs::from_abs(&f[2]), d_1v3: Abs::from_abs(&f[3]) },
4 => Ke9::Ee(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke10<T> {
    A { av0: BTreeMap<u8, Option<String>>, #[nserde(default)] bv0: (u8, String), #[nserde(rename = "e")] ccv0: Option<T>, #[nserde(rename = "z")] #[nserde(skip)] d_1v0: bool },
    Bb { av1: T, #[nserde(rename = "w9")] #[nserde(skip)] bv1: Vec<String>, #[nserde(default)] ccv1: u8, #[nserde(rename = "e")] #[nserde(skip)] d_1v1: i64 },
    C_(T, String),
    D1(Vec<T>, Option<u8>, Vec<T>, Uni, Option<(u8, bool)>),
}
impl Abs for Ke10<u8> {
 fn to_abs(&self) -> J { match self {
Ke10::A { av0, bv0, ccv0, d_1v0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs(), d_1v0.to_abs()]),
Ke10::Bb { av1, bv1, ccv1, d_1v1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs(), d_1v1.to_abs()]),
Ke10::C_(a0, a1) => var(2, vec![a0.to_abs(), a1.to_abs()]),
Ke10::D1(a0, a1, a2, a3, a4) => var(3, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke10::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]), d_1v0: Abs::from_abs(&f[3]) },
1 => Ke10::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]), d_1v1: Abs::from_abs(&f[3]) },
2 => Ke10::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
3 => Ke10::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke13 {
    A { #[nserde(skip)] av0: Vec<Option<bool>>, #[nserde(rename = "fn_")] #[nserde(skip)] bv0: (u8, String), #[nserde(default = "-9000000000")] ccv0: i64 },
    Bb { #[nserde(rename = "a")] #[nserde(default)] av1: [u8; 2], #[nserde(rename = "ax")] #[nserde(skip)] bv1: LinkedList<String>, #[nserde(skip)] ccv1: [u8; 2], d_1v1: BTreeSet<i32> },
    C_ { #[nserde(rename = "fn_")] #[nserde(skip)] av2: Option<bool> },
    D1,
    Ee,
}
impl Abs for Ke13 {
 fn to_abs(&self) -> J { match self {
Ke13::A { av0, bv0, ccv0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs()]),
Ke13::Bb { av1, bv1, ccv1, d_1v1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs(), d_1v1.to_abs()]),
Ke13::C_ { av2 } => var(2, vec![av2.to_abs()]),
Ke13::D1 => var(3, vec![]),
Ke13::Ee => var(4, vec![]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke13::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]) },
1 => Ke13::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]), d_1v1: Abs::from_abs(&f[3]) },
2 => Ke13::C_ { av2: Abs::from_abs(&f[0]) },
3 => Ke13::D1,
4 => Ke13::Ee,
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke14 {
    A(Option<u8>),
    Bb { #[nserde(rename = "a")] av1: BTreeSet<i32>, bv1: Vec<String> },
    C_ { av2: Option<Vec<u8>>, #[nserde(rename = "fn_")] bv2: Box<String>, #[nserde(rename = "w9")] #[nserde(skip)] ccv2: Box<String> },
    D1(Duration, i64),
    Ee { #[nserde(default)] av4: Vec<u8>, #[nserde(rename = "w9")] bv4: Vec<String>, #[nserde(default)] ccv4: Uni },
}
impl Abs for Ke14 {
 fn to_abs(&self) -> J { match self {
Ke14::A(a0) => var(0, vec![a0.to_abs()]),
Ke14::Bb { av1, bv1 } => var(1, vec![av1.to_abs(), bv1.to_abs()]),
Ke14::C_ { av2, bv2, ccv2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs()]),
Ke14::D1(a0, a1) => var(3, vec![a0.to_abs(), a1.to_abs()]),
Ke14::Ee { av4, bv4, ccv4 } => var(4, vec![av4.to_abs(), bv4.to_abs(), ccv4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke14::A(Abs::from_abs(&f[0])),
1 => Ke14::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]) },
2 => Ke14::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]) },
3 => Ke14::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
4 => Ke14::Ee { av4: Abs::from_abs(&f[0]), bv4: Abs::from_abs(&f[1]), ccv4: Abs::from_abs(&f[2]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke15 {
    A { av0: BTreeSet<i32>, bv0: BTreeMap<String, u8>, ccv0: (), d_1v0: Uni },
    Bb { #[nserde(skip)] av1: u8, bv1: New, #[nserde(rename = "e")] ccv1: Vec<String>, #[nserde(rename = "Yy")] d_1v1: Opts },
    C_(i64, Duration, u8, Duration),
    D1 { #[nserde(default = "true")] av3: bool, #[nserde(rename = "fn_")] #[nserde(skip)] bv3: i32, #[nserde(rename = "w9")] #[nserde(skip)] ccv3: i32, #[nserde(default)] d_1v3: String },
    Ee(Option<bool>),
}
impl Abs for Ke15 {
 fn to_abs(&self) -> J { match self {
Ke15::A { av0, bv0, ccv0, d_1v0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs(), d_1v0.to_abs()]),
Ke15::Bb { av1, bv1, ccv1, d_1v1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs(), d_1v1.to_abs()]),
Ke15::C_(a0, a1, a2, a3) => var(2, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs()]),
Ke15::D1 { av3, bv3, ccv3, d_1v3 } => var(3, vec![av3.to_abs(), bv3.to_abs(), ccv3.to_abs(), d_1v3.to_abs()]),
Ke15::Ee(a0) => var(4, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke15::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]), d_1v0: Abs::from_abs(&f[3]) },
1 => Ke15::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]), d_1v1: Abs::from_abs(&f[3]) },
2 => Ke15::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3])),
3 => Ke15::D1 { av3: Abs::from_abs(&f[0]), bv3: Abs::from_abs(&f[1]), ccv3: Abs::from_abs(&f[2]), d_1v3: Abs::from_abs(&f[3]) },
4 => Ke15::Ee(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke17 {
    A(Vec<u8>),
    Bb { #[nserde(rename = "a")] av1: Duration, bv1: i64, #[nserde(rename = "Yy")] #[nserde(default)] ccv1: Option<(u8, bool)> },
    C_ { #[nserde(rename = "a")] #[nserde(default = "a b")] av2: String, #[nserde(default = "-7")] #[nserde(skip)] bv2: i32, #[nserde(rename = "w9")] ccv2: f64 },
}
impl Abs for Ke17 {
 fn to_abs(&self) -> J { match self {
Ke17::A(a0) => var(0, vec![a0.to_abs()]),
Ke17::Bb { av1, bv1, ccv1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs()]),
Ke17::C_ { av2, bv2, ccv2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke17::A(Abs::from_abs(&f[0])),
1 => Ke17::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]) },
2 => Ke17::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke18<T: Clone> {
    A { av0: Option<Box<u8>>, #[nserde(skip)] bv0: i64, #[nserde(rename = "e")] #[nserde(default)] ccv0: () },
    Bb { #[nserde(rename = "Yy")] av1: T, bv1: New, ccv1: Option<T>, #[nserde(default = "2.5")] #[nserde(skip)] d_1v1: f64 },
    C_(Uni, String, u8, New, (u8, String), Vec<u8>),
    D1(Vec<T>, f64, [u8; 2], u8, BTreeMap<String, u8>),
}
impl Abs for Ke18<u8> {
 fn to_abs(&self) -> J { match self {
Ke18::A { av0, bv0, ccv0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs()]),
Ke18::Bb { av1, bv1, ccv1, d_1v1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs(), d_1v1.to_abs()]),
Ke18::C_(a0, a1, a2, a3, a4, a5) => var(2, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs(), a5.to_abs()]),
Ke18::D1(a0, a1, a2, a3, a4) => var(3, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke18::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]) },
1 => Ke18::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]), d_1v1: Abs::from_abs(&f[3]) },
2 => Ke18::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5])),
3 => Ke18::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke19<T: Clone> {
    A((), BTreeMap<String, u8>),
    Bb { #[nserde(rename = "a")] #[nserde(skip)] av1: i32, #[nserde(rename = "w9")] #[nserde(default = "true")] bv1: bool },
    C_(u8, (), bool),
    D1(Plain, Vec<u8>, i64, Option<(u8, bool)>),
    Ee { #[nserde(rename = "a")] #[nserde(default)] av4: (u8, String), bv4: Vec<T> },
}
impl Abs for Ke19<u8> {
 fn to_abs(&self) -> J { match self {
Ke19::A(a0, a1) => var(0, vec![a0.to_abs(), a1.to_abs()]),
Ke19::Bb { av1, bv1 } => var(1, vec![av1.to_abs(), bv1.to_abs()]),
Ke19::C_(a0, a1, a2) => var(2, vec![a0.to_abs(), a1.to_abs(), a2.to_abs()]),
Ke19::D1(a0, a1, a2, a3) => var(3, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs()]),
Ke19::Ee { av4, bv4 } => var(4, vec![av4.to_abs(), bv4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke19::A(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
1 => Ke19::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]) },
2 => Ke19::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])),
3 => Ke19::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3])),
4 => Ke19::Ee { av4: Abs::from_abs(&f[0]), bv4: Abs::from_abs(&f[1]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke20<T: Clone> {
    A { #[nserde(default)] av0: BTreeMap<u8, Option<String>> },
    Bb { #[nserde(rename = "w9")] #[nserde(default)] av1: Vec<Option<bool>>, #[nserde(skip)] bv1: Option<Uni>, #[nserde(rename = "e")] ccv1: Vec<T>, d_1v1: Opts },
    C_ { #[nserde(skip)] av2: Box<String>, #[nserde(rename = "fn_")] bv2: i64 },
    D1(Uni, Vec<T>),
    Ee { #[nserde(rename = "fn_")] av4: (T, String), #[nserde(skip)] bv4: Option<u8> },
}
impl Abs for Ke20<u8> {
 fn to_abs(&self) -> J { match self {
Ke20::A { av0 } => var(0, vec![av0.to_abs()]),
Ke20::Bb { av1, bv1, ccv1, d_1v1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs(), d_1v1.to_abs()]),
Ke20::C_ { av2, bv2 } => var(2, vec![av2.to_abs(), bv2.to_abs()]),
Ke20::D1(a0, a1) => var(3, vec![a0.to_abs(), a1.to_abs()]),
Ke20::Ee { av4, bv4 } => var(4, vec![av4.to_abs(), bv4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke20::A { av0: Abs::from_abs(&f[0]) },
1 => Ke20::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]), d_1v1: Abs::from_abs(&f[3]) },
2 => Ke20::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]) },
3 => Ke20::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
4 => Ke20::Ee { av4: Abs::from_abs(&f[0]), bv4: Abs::from_abs(&f[1]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke21<T: Clone> {
    A(Option<bool>, (), Option<u8>),
    Bb { av1: (T, String), #[nserde(rename = "w9")] bv1: (T, String), #[nserde(rename = "ax")] ccv1: T },
    C_([u8; 2], Option<(u8, bool)>, Vec<T>, u8, Plain, Option<String>),
    D1 { #[nserde(default = "-9000000000")] #[nserde(skip)] av3: i64, #[nserde(rename = "fn_")] #[nserde(default)] bv3: BTreeSet<i32>, #[nserde(default)] ccv3: BTreeSet<i32>, d_1v3: [u8; 2] },
}
impl Abs for Ke21<u8> {
 fn to_abs(&self) -> J { match self {
Ke21::A(a0, a1, a2) => var(0, vec![a0.to_abs(), a1.to_abs(), a2.to_abs()]),
Ke21::Bb { av1, bv1, ccv1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs()]),
Ke21::C_(a0, a1, a2, a3, a4, a5) => var(2, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs(), a5.to_abs()]),
Ke21::D1 { av3, bv3, ccv3, d_1v3 } => var(3, vec![av3.to_abs(), bv3.to_abs(), ccv3.to_abs(), d_1v3.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke21::A(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])),
1 => Ke21::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]) },
2 => Ke21::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5])),
3 => Ke21::D1 { av3: Abs::from_abs(&f[0]), bv3: Abs::from_abs(&f[1]), ccv3: Abs::from_abs(&f[2]), d_1v3: Abs::from_abs(&f[3]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke24<T: Clone> {
    A { #[nserde(rename = "a")] #[nserde(default)] av0: BTreeSet<i32>, #[nserde(rename = "fn_")] #[nserde(skip)] bv0: BTreeSet<i32>, ccv0: T, d_1v0: (u8, String) },
    Bb { #[nserde(rename = "a")] #[nserde(default)] av1: [u8; 2], #[nserde(default)] bv1: String, ccv1: Vec<T> },
    C_(Box<String>, f64),
    D1(Duration),
    Ee { #[nserde(default)] av4: f64, bv4: (T, String), #[nserde(rename = "Yy")] ccv4: Option<(u8, bool)>, d_1v4: [u8; 2] },
}
impl Abs for Ke24<u8> {
 fn to_abs(&self) -> J { match self {
Ke24::A { av0, bv0, ccv0, d_1v0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs(), d_1v0.to_abs()]),
Ke24::Bb { av1, bv1, ccv1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs()]),
Ke24::C_(a0, a1) => var(2, vec![a0.to_abs(), a1.to_abs()]),
Ke24::D1(a0) => var(3, vec![a0.to_abs()]),
Ke24::Ee { av4, bv4, ccv4, d_1v4 } => var(4, vec![av4.to_abs(), bv4.to_abs(), ccv4.to_abs(), d_1v4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke24::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]), d_1v0: Abs::from_abs(&f[3]) },
1 => Ke24::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]) },
2 => Ke24::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
3 => Ke24::D1(Abs::from_abs(&f[0])),
4 => Ke24::Ee { av4: Abs::from_abs(&f[0]), bv4: Abs::from_abs(&f[1]), ccv4: Abs::from_abs(&f[2]), d_1v4: Abs::from_abs(&f[3]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke25 {
    A { #[nserde(default)] av0: Option<(u8, bool)>, #[nserde(rename = "e")] #[nserde(skip)] bv0: Plain, #[nserde(skip)] ccv0: (u8, String) },
    Bb(Vec<u8>),
    C_ { #[nserde(rename = "fn_")] #[nserde(default)] av2: Option<Uni>, #[nserde(default = "a b")] bv2: String, #[nserde(rename = "z")] #[nserde(default)] ccv2: [Option<bool>; 2], #[nserde(rename = "zx")] d_1v2: Option<bool> },
    D1(Option<bool>, (u8, String)),
}
impl Abs for Ke25 {
 fn to_abs(&self) -> J { match self {
Ke25::A { av0, bv0, ccv0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs()]),
Ke25::Bb(a0) => var(1, vec![a0.to_abs()]),
Ke25::C_ { av2, bv2, ccv2, d_1v2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs(), d_1v2.to_abs()]),
Ke25::D1(a0, a1) => var(3, vec![a0.to_abs(), a1.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke25::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]) },
1 => Ke25::Bb(Abs::from_abs(&f[0])),
2 => Ke25::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]), d_1v2: Abs::from_abs(&f[3]) },
3 => Ke25::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke27 {
    A { av0: Plain, #[nserde(rename = "w9")] #[nserde(default)] bv0: Option<Vec<u8>>, #[nserde(default)] ccv0: Option<Box<u8>>, #[nserde(skip)] d_1v0: u8 },
    Bb { #[nserde(rename = "fn_")] av1: Option<Vec<u8>>, #[nserde(rename = "e")] bv1: Vec<Option<bool>>, #[nserde(rename = "Yy")] #[nserde(skip)] ccv1: Option<Box<u8>>, #[nserde(rename = "ex")] #[nserde(skip)] d_1v1: BTreeMap<String, u8> },
    C_ { #[nserde(default)] av2: Vec<String>, bv2: Option<Plain> },
    D1 { #[nserde(default_with = "dw_s")] av3: String, #[nserde(rename = "w9")] #[nserde(default)] bv3: BTreeMap<u8, Option<String>>, ccv3: BTreeMap<String, u8>, #[nserde(rename = "z")] d_1v3: Option<Vec<u8>> },
}
impl Abs for Ke27 {
 fn to_abs(&self) -> J { match self {
Ke27::A { av0, bv0, ccv0, d_1v0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs(), d_1v0.to_abs()]),
Ke27::Bb { av1, bv1, ccv1, d_1v1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs(), d_1v1.to_abs()]),
Ke27::C_ { av2, bv2 } => var(2, vec![av2.to_abs(), bv2.to_abs()]),
Ke27::D1 { av3, bv3, ccv3, d_1v3 } => var(3, vec![av3.to_abs(), bv3.to_abs(), ccv3.to_abs(), d_1v3.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke27::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]), d_1v0: Abs::from_abs(&f[3]) },
1 => Ke27::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]), d_1v1: Abs::from_abs(&f[3]) },
2 => Ke27::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]) },
3 => Ke27::D1 { av3: Abs::from_abs(&f[0]), bv3: Abs::from_abs(&f[1]), ccv3: Abs::from_abs(&f[2]), d_1v3: Abs::from_abs(&f[3]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke29 {
    A { #[nserde(rename = "w9")] #[nserde(skip)] av0: Plain, bv0: [Option<bool>; 2], #[nserde(rename = "w9x")] #[nserde(skip)] ccv0: Uni, #[nserde(default)] d_1v0: Vec<Option<bool>> },
    Bb,
    C_ { #[nserde(rename = "w9")] av2: Plain, #[nserde(rename = "fn_")] bv2: String, #[nserde(rename = "z")] #[nserde(skip)] ccv2: Vec<Option<bool>>, d_1v2: () },
    D1 { #[nserde(rename = "fn_")] #[nserde(skip)] av3: bool, #[nserde(rename = "fn_x")] #[nserde(skip)] bv3: [u8; 2], #[nserde(rename = "e")] #[nserde(default)] ccv3: Option<String> },
    Ee(()),
}
impl Abs for Ke29 {
 fn to_abs(&self) -> J { match self {
Ke29::A { av0, bv0, ccv0, d_1v0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs(), d_1v0.to_abs()]),
Ke29::Bb => var(1, vec![]),
Ke29::C_ { av2, bv2, ccv2, d_1v2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs(), d_1v2.to_abs()]),
Ke29::D1 { av3, bv3, ccv3 } => var(3, vec![av3.to_abs(), bv3.to_abs(), ccv3.to_abs()]),
Ke29::Ee(a0) => var(4, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke29::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]), d_1v0: Abs::from_abs(&f[3]) },
1 => Ke29::Bb,
2 => Ke29::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]), d_1v2: Abs::from_abs(&f[3]) },
3 => Ke29::D1 { av3: Abs::from_abs(&f[0]), bv3: Abs::from_abs(&f[1]), ccv3: Abs::from_abs(&f[2]) },
4 => Ke29::Ee(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke30 {
    A { #[nserde(rename = "fn_")] #[nserde(default)] av0: bool, #[nserde(skip)] bv0: Uni, #[nserde(rename = "e")] #[nserde(skip)] ccv0: Option<String> },
}
impl Abs for Ke30 {
 fn to_abs(&self) -> J { match self {
Ke30::A { av0, bv0, ccv0 } => var(0, vec![av0.to_abs(), bv0.to_abs(), ccv0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke30::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]), ccv0: Abs::from_abs(&f[2]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke31 {
    A([u8; 2]),
    Bb { #[nserde(rename = "a")] #[nserde(default = "-7")] av1: i32, bv1: Vec<String> },
    C_ { #[nserde(rename = "a")] av2: BTreeMap<String, u8> },
    D1 { #[nserde(default = "a b")] #[nserde(skip)] av3: String },
    Ee { #[nserde(rename = "w9")] #[nserde(default)] av4: Vec<Option<bool>> },
}
impl Abs for Ke31 {
 fn to_abs(&self) -> J { match self {
Ke31::A(a0) => var(0, vec![a0.to_abs()]),
Ke31::Bb { av1, bv1 } => var(1, vec![av1.to_abs(), bv1.to_abs()]),
Ke31::C_ { av2 } => var(2, vec![av2.to_abs()]),
Ke31::D1 { av3 } => var(3, vec![av3.to_abs()]),
Ke31::Ee { av4 } => var(4, vec![av4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke31::A(Abs::from_abs(&f[0])),
1 => Ke31::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]) },
2 => Ke31::C_ { av2: Abs::from_abs(&f[0]) },
3 => Ke31::D1 { av3: Abs::from_abs(&f[0]) },
4 => Ke31::Ee { av4: Abs::from_abs(&f[0]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke32 {
    A { #[nserde(rename = "fn_")] #[nserde(default)] av0: Option<u8>, #[nserde(default = "true")] #[nserde(skip)] bv0: bool },
    Bb { av1: i32 },
    C_ { #[nserde(rename = "a")] #[nserde(skip)] av2: Box<String>, #[nserde(rename = "w9")] #[nserde(default)] bv2: Option<Vec<u8>>, #[nserde(rename = "w9x")] #[nserde(default = "-9000000000")] ccv2: i64 },
    D1,
    Ee { #[nserde(skip)] av4: [Option<bool>; 2], #[nserde(rename = "e")] #[nserde(default)] bv4: Plain, #[nserde(rename = "ex")] #[nserde(default)] ccv4: Option<bool>, #[nserde(rename = "exx")] #[nserde(default)] d_1v4: i32 },
}
impl Abs for Ke32 {
 fn to_abs(&self) -> J { match self {
Ke32::A { av0, bv0 } => var(0, vec![av0.to_abs(), bv0.to_abs()]),
Ke32::Bb { av1 } => var(1, vec![av1.to_abs()]),
Ke32::C_ { av2, bv2, ccv2 } => var(2, vec![av2.to_abs(), bv2.to_abs(), ccv2.to_abs()]),
Ke32::D1 => var(3, vec![]),
Ke32::Ee { av4, bv4, ccv4, d_1v4 } => var(4, vec![av4.to_abs(), bv4.to_abs(), ccv4.to_abs(), d_1v4.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke32::A { av0: Abs::from_abs(&f[0]), bv0: Abs::from_abs(&f[1]) },
1 => Ke32::Bb { av1: Abs::from_abs(&f[0]) },
2 => Ke32::C_ { av2: Abs::from_abs(&f[0]), bv2: Abs::from_abs(&f[1]), ccv2: Abs::from_abs(&f[2]) },
3 => Ke32::D1,
4 => Ke32::Ee { av4: Abs::from_abs(&f[0]), bv4: Abs::from_abs(&f[1]), ccv4: Abs::from_abs(&f[2]), d_1v4: Abs::from_abs(&f[3]) },
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke33 {
    A((), Option<String>),
    Bb { #[nserde(rename = "fn_")] #[nserde(skip)] av1: Option<String>, bv1: Uni },
    C_,
    D1 { #[nserde(rename = "fn_")] av3: Option<String>, #[nserde(default = "-7")] bv3: i32 },
    Ee(String),
}
impl Abs for Ke33 {
 fn to_abs(&self) -> J { match self {
Ke33::A(a0, a1) => var(0, vec![a0.to_abs(), a1.to_abs()]),
Ke33::Bb { av1, bv1 } => var(1, vec![av1.to_abs(), bv1.to_abs()]),
Ke33::C_ => var(2, vec![]),
Ke33::D1 { av3, bv3 } => var(3, vec![av3.to_abs(), bv3.to_abs()]),
Ke33::Ee(a0) => var(4, vec![a0.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke33::A(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])),
1 => Ke33::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]) },
2 => Ke33::C_,
3 => Ke33::D1 { av3: Abs::from_abs(&f[0]), bv3: Abs::from_abs(&f[1]) },
4 => Ke33::Ee(Abs::from_abs(&f[0])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub enum Ke34<T> where T: Clone {
    A(Duration, Option<u8>, Option<(u8, bool)>),
    Bb { av1: Option<T>, #[nserde(rename = "w9")] #[nserde(skip)] bv1: Option<Vec<u8>>, #[nserde(rename = "e")] ccv1: (T, String), #[nserde(rename = "z")] #[nserde(skip)] d_1v1: Option<Uni> },
    C_((u8, String), bool, T, (u8, String)),
    D1(f64, BTreeMap<String, u8>, i64, Vec<Option<bool>>, BTreeMap<String, u8>, Vec<T>),
}
impl Abs for Ke34<u8> {
 fn to_abs(&self) -> J { match self {
Ke34::A(a0, a1, a2) => var(0, vec![a0.to_abs(), a1.to_abs(), a2.to_abs()]),
Ke34::Bb { av1, bv1, ccv1, d_1v1 } => var(1, vec![av1.to_abs(), bv1.to_abs(), ccv1.to_abs(), d_1v1.to_abs()]),
Ke34::C_(a0, a1, a2, a3) => var(2, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs()]),
Ke34::D1(a0, a1, a2, a3, a4, a5) => var(3, vec![a0.to_abs(), a1.to_abs(), a2.to_abs(), a3.to_abs(), a4.to_abs(), a5.to_abs()]),
 } }
 fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {
0 => Ke34::A(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])),
1 => Ke34::Bb { av1: Abs::from_abs(&f[0]), bv1: Abs::from_abs(&f[1]), ccv1: Abs::from_abs(&f[2]), d_1v1: Abs::from_abs(&f[3]) },
2 => Ke34::C_(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3])),
3 => Ke34::D1(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5])),
 _ => panic!() } }
}

#[derive(SerRon, DeRon)]
pub struct Kt0<T: Clone>(pub New, pub BTreeMap<String, u8>, pub (), pub T, pub [u8; 2], pub Box<String>, pub Option<bool>);
impl Abs for Kt0<u8> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs(), self.4.to_abs(), self.5.to_abs(), self.6.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt0(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5]), Abs::from_abs(&f[6])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt2<T>(pub Box<String>, pub Option<(u8, bool)>, pub Vec<u8>, pub Vec<Option<bool>>, pub Vec<T>, pub u8);
impl Abs for Kt2<u8> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs(), self.4.to_abs(), self.5.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt2(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt4(pub Option<u8>, pub String, pub Plain, pub bool, pub f64);
impl Abs for Kt4 {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs(), self.4.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt4(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt8(pub (), pub u8, pub BTreeMap<String, u8>, pub [u8; 2]);
impl Abs for Kt8 {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt8(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt10<T>(pub Plain, pub T, pub bool, pub String, pub Option<(u8, bool)>, pub (u8, String), pub i64);
impl Abs for Kt10<u8> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs(), self.4.to_abs(), self.5.to_abs(), self.6.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt10(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4]), Abs::from_abs(&f[5]), Abs::from_abs(&f[6])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt12(pub u8, pub (u8, String), pub BTreeMap<String, u8>);
impl Abs for Kt12 {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt12(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt16<T: Clone>(pub Option<u8>, pub T);
impl Abs for Kt16<u8> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt16(Abs::from_abs(&f[0]), Abs::from_abs(&f[1])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt19<T: Clone>(pub Vec<T>, pub Option<T>, pub Option<bool>);
impl Abs for Kt19<u8> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt19(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt22<T>(pub T, pub Vec<T>, pub T, pub Option<u8>, pub Vec<T>) where T: Clone ;
impl Abs for Kt22<u8> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs(), self.3.to_abs(), self.4.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt22(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2]), Abs::from_abs(&f[3]), Abs::from_abs(&f[4])) }
}

#[derive(SerRon, DeRon)]
pub struct Kt24<T>(pub String, pub T, pub BTreeMap<String, u8>);
impl Abs for Kt24<u8> {
 fn to_abs(&self) -> J { tup(vec![self.0.to_abs(), self.1.to_abs(), self.2.to_abs()]) }
 fn from_abs(v: &J) -> Self { let f = v.list(); Kt24(Abs::from_abs(&f[0]), Abs::from_abs(&f[1]), Abs::from_abs(&f[2])) }
}

pub fn table() -> Vec<Option<Vt>> {
    vec![
        Some(vt::<u8>()), // 1
        Some(vt::<u16>()), // 2
        Some(vt::<u32>()), // 3
        Some(vt::<u64>()), // 4
        Some(vt::<usize>()), // 5
        Some(vt::<i8>()), // 6
        Some(vt::<i16>()), // 7
        Some(vt::<i32>()), // 8
        Some(vt::<i64>()), // 9
        None, // 10
        None, // 11
        Some(vt::<f32>()), // 12
        Some(vt::<f64>()), // 13
        Some(vt::<bool>()), // 14
        Some(vt::<String>()), // 15
        Some(vt::<()>()), // 16
        Some(vt::<Duration>()), // 17
        #[cfg(feature = "std")]
        Some(vt::<SystemTime>()), // 18
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Option<u8>>()), // 19
        Some(vt::<Option<String>>()), // 20
        Some(vt::<Option<Vec<u8>>>()), // 21
        Some(vt::<Vec<Option<u8>>>()), // 22
        Some(vt::<Vec<Option<String>>>()), // 23
        Some(vt::<Option<(u8, String)>>()), // 24
        Some(vt::<Option<bool>>()), // 25
        Some(vt::<Vec<u8>>()), // 26
        Some(vt::<Vec<String>>()), // 27
        Some(vt::<Vec<i64>>()), // 28
        Some(vt::<Vec<Vec<u16>>>()), // 29
        Some(vt::<Vec<f64>>()), // 30
        Some(vt::<Vec<bool>>()), // 31
        Some(vt::<LinkedList<u16>>()), // 32
        Some(vt::<LinkedList<String>>()), // 33
        Some(vt::<LinkedList<Vec<u8>>>()), // 34
        Some(vt::<BTreeSet<i8>>()), // 35
        Some(vt::<BTreeSet<String>>()), // 36
        Some(vt::<BTreeSet<u32>>()), // 37
        #[cfg(feature = "std")]
        Some(vt::<HashSet<u8>>()), // 38
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<HashSet<String>>()), // 39
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<String, u8>>()), // 40
        Some(vt::<BTreeMap<String, String>>()), // 41
        Some(vt::<BTreeMap<u8, String>>()), // 42
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, i64>>()), // 43
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<HashMap<u16, Vec<String>>>()), // 44
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<String, Vec<Option<u16>>>>()), // 45
        Some(vt::<BTreeMap<String, BTreeMap<String, u8>>>()), // 46
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, HashSet<u8>>>()), // 47
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Vec<BTreeMap<String, bool>>>()), // 48
        Some(vt::<BTreeSet<(u8, String)>>()), // 49
        Some(vt::<BTreeMap<(i8, u8), u8>>()), // 50
        Some(vt::<BTreeMap<i16, f64>>()), // 51
        Some(vt::<Vec<()>>()), // 52
        Some(vt::<Box<u32>>()), // 53
        Some(vt::<Vec<Box<String>>>()), // 54
        Some(vt::<Option<Box<u64>>>()), // 55
        Some(vt::<[u8; 0]>()), // 56
        Some(vt::<[u8; 1]>()), // 57
        Some(vt::<[u8; 3]>()), // 58
        Some(vt::<[String; 2]>()), // 59
        Some(vt::<[[u8; 2]; 3]>()), // 60
        Some(vt::<[[u8; 0]; 2]>()), // 61
        Some(vt::<[[u16; 2]; 0]>()), // 62
        Some(vt::<[Option<u8>; 2]>()), // 63
        Some(vt::<[Vec<u8>; 2]>()), // 64
        Some(vt::<[f32; 2]>()), // 65
        Some(vt::<[(u8, String); 2]>()), // 66
        Some(vt::<[u8; 40]>()), // 67
        Some(vt::<[BTreeMap<String, u8>; 2]>()), // 68
        Some(vt::<[(); 3]>()), // 69
        Some(vt::<(u8, String)>()), // 70
        Some(vt::<(u8, u16, String)>()), // 71
        Some(vt::<(u8, u16, u32, String)>()), // 72
        Some(vt::<((u8, u8), u8)>()), // 73
        Some(vt::<(Vec<u8>, Option<String>)>()), // 74
        Some(vt::<([u8; 2], bool, f64)>()), // 75
        Some(vt::<(Option<u8>, Option<u8>)>()), // 76
        Some(vt::<(u8, (u16, (u32, u64)))>()), // 77
        Some(vt::<Vec<Duration>>()), // 78
        Some(vt::<Option<Duration>>()), // 79
        Some(vt::<BTreeMap<String, Duration>>()), // 80
        #[cfg(feature = "std")]
        Some(vt::<Option<SystemTime>>()), // 81
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<(Duration, SystemTime)>()), // 82
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Vec<(u8, Duration)>>()), // 83
        Some(vt::<[Duration; 2]>()), // 84
        None, // 85
        Some(vt::<Plain>()), // 86
        Some(vt::<BTreeMap<Keyed, u8>>()), // 87
        Some(vt::<BTreeSet<Keyed>>()), // 88
        Some(vt::<AllPrim>()), // 89
        None, // 90
        Some(vt::<Empty>()), // 91
        Some(vt::<Opts>()), // 92
        Some(vt::<AllOpt>()), // 93
        Some(vt::<Ren>()), // 94
        None, // 95
        Some(vt::<Def>()), // 96
        Some(vt::<DefOpt>()), // 97
        None, // 98
        Some(vt::<CDef>()), // 99
        Some(vt::<CDefW>()), // 100
        Some(vt::<Skip>()), // 101
        Some(vt::<SkipFirst>()), // 102
        Some(vt::<SkipAll>()), // 103
        Some(vt::<Nulls>()), // 104
        Some(vt::<CNulls>()), // 105
        Some(vt::<RenSkip>()), // 106
        Some(vt::<Nest>()), // 107
        Some(vt::<Colls>()), // 108
        #[cfg(feature = "std")]
        Some(vt::<HColls>()), // 109
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Times>()), // 110
        Some(vt::<Under>()), // 111
        Some(vt::<One>()), // 112
        Some(vt::<Tree>()), // 113
        Some(vt::<Chain>()), // 114
        Some(vt::<New>()), // 115
        None, // 116
        None, // 117
        Some(vt::<Pair>()), // 118
        Some(vt::<Trip>()), // 119
        Some(vt::<Quint>()), // 120
        Some(vt::<HoldT>()), // 121
        None, // 122
        Some(vt::<Uni>()), // 123
        Some(vt::<Mix>()), // 124
        None, // 125
        None, // 126
        Some(vt::<FieldV>()), // 127
        Some(vt::<AllOptV>()), // 128
        Some(vt::<Disc>()), // 129
        Some(vt::<Inner>()), // 130
        Some(vt::<Deep>()), // 131
        Some(vt::<Big>()), // 132
        Some(vt::<Words>()), // 133
        Some(vt::<Words2>()), // 134
        None, // 135
        Some(vt::<Option<Words>>()), // 136
        Some(vt::<Vec<Option<Words>>>()), // 137
        Some(vt::<Option<Words2>>()), // 138
        Some(vt::<Vec<Option<Words2>>>()), // 139
        None, // 140
        None, // 141
        Some(vt::<(Option<Words>, Words2)>()), // 142
        Some(vt::<WordsF>()), // 143
        None, // 144
        None, // 145
        Some(vt::<Vec<FieldV>>()), // 146
        Some(vt::<Vec<AllOptV>>()), // 147
        Some(vt::<Vec<Disc>>()), // 148
        Some(vt::<Vec<Inner>>()), // 149
        Some(vt::<Vec<Deep>>()), // 150
        Some(vt::<Vec<Big>>()), // 151
        Some(vt::<Option<Uni>>()), // 152
        Some(vt::<Vec<Uni>>()), // 153
        Some(vt::<Vec<Mix>>()), // 154
        Some(vt::<BTreeMap<String, Mix>>()), // 155
        Some(vt::<BTreeMap<Uni, u8>>()), // 156
        Some(vt::<[Mix; 2]>()), // 157
        Some(vt::<(Uni, Mix)>()), // 158
        Some(vt::<Option<Mix>>()), // 159
        Some(vt::<Box<Uni>>()), // 160
        Some(vt::<HoldE>()), // 161
        Some(vt::<HoldEB>()), // 162
        Some(vt::<G1<u8>>()), // 163
        Some(vt::<G1<String>>()), // 164
        Some(vt::<G2<u16, String>>()), // 165
        Some(vt::<GC<3>>()), // 166
        Some(vt::<GE<u8, String>>()), // 167
        Some(vt::<GT<u8, String>>()), // 168
        Some(vt::<Vec<GE<u8, String>>>()), // 169
        None, // 170
        None, // 171
        None, // 172
        None, // 173
        None, // 174
        None, // 175
        None, // 176
        None, // 177
        Some(vt::<NamesV>()), // 178
        Some(vt::<Names>()), // 179
        None, // 180
        None, // 181
        None, // 182
        None, // 183
        None, // 184
        None, // 185
        None, // 186
        None, // 187
        None, // 188
        None, // 189
        None, // 190
        None, // 191
        None, // 192
        Some(vt::<WideT>()), // 193
        Some(vt::<WideV>()), // 194
        Some(vt::<WideS>()), // 195
        Some(vt::<WideO>()), // 196
        Some(vt::<[u16; 300]>()), // 197
        Some(vt::<[String; 257]>()), // 198
        Some(vt::<[Option<u8>; 256]>()), // 199
        Some(vt::<[(u8, String); 258]>()), // 200
        Some(vt::<[bool; 513]>()), // 201
        Some(vt::<[Words; 255]>()), // 202
        Some(vt::<Vec<[u8; 256]>>()), // 203
        Some(vt::<Option<[i16; 259]>>()), // 204
        Some(vt::<Vec<WideT>>()), // 205
        Some(vt::<Option<WideV>>()), // 206
        Some(vt::<Vec<WideV>>()), // 207
        Some(vt::<Vec<Vec<Vec<Vec<Vec<u8>>>>>>()), // 208
        Some(vt::<Option<Box<Vec<Option<Box<Vec<Option<String>>>>>>>>()), // 209
        Some(vt::<((((u8, String), bool), Option<u8>), Vec<(u8, (u8, u8))>)>()), // 210
        Some(vt::<BTreeMap<String, BTreeMap<String, BTreeMap<String, Vec<u8>>>>>()), // 211
        Some(vt::<[[[[u8; 2]; 2]; 2]; 2]>()), // 212
        Some(vt::<Ks0>()), // 213
        None, // 214
        Some(vt::<Ks2<u8>>()), // 215
        Some(vt::<Ks3<u8>>()), // 216
        None, // 217
        Some(vt::<Ks5>()), // 218
        Some(vt::<Ks6<u8, String>>()), // 219
        Some(vt::<Ks7>()), // 220
        Some(vt::<Ks8<u8, String>>()), // 221
        None, // 222
        Some(vt::<Ks10<2>>()), // 223
        Some(vt::<Ks11<u8, String>>()), // 224
        Some(vt::<Ks12<u8>>()), // 225
        Some(vt::<Ks13>()), // 226
        Some(vt::<Ks14<u8>>()), // 227
        Some(vt::<Ks15>()), // 228
        None, // 229
        None, // 230
        Some(vt::<Ks18>()), // 231
        Some(vt::<Ks19<2>>()), // 232
        Some(vt::<Ks20<u8>>()), // 233
        Some(vt::<Ks21<u8>>()), // 234
        None, // 235
        None, // 236
        Some(vt::<Ks24<u8, String>>()), // 237
        Some(vt::<Ks25>()), // 238
        Some(vt::<Ks26<u8>>()), // 239
        Some(vt::<Ks27>()), // 240
        Some(vt::<Ks28>()), // 241
        Some(vt::<Ks29<u8>>()), // 242
        Some(vt::<Ks30>()), // 243
        None, // 244
        Some(vt::<Ks32<u8>>()), // 245
        None, // 246
        Some(vt::<Ks34>()), // 247
        Some(vt::<Ks35<u8>>()), // 248
        Some(vt::<Ks36<u8>>()), // 249
        None, // 250
        Some(vt::<Ks38<u8>>()), // 251
        Some(vt::<Ks39<u8, String>>()), // 252
        None, // 253
        Some(vt::<Ks41<u8>>()), // 254
        None, // 255
        None, // 256
        None, // 257
        Some(vt::<Ks45<u8>>()), // 258
        Some(vt::<Ks46<u8>>()), // 259
        None, // 260
        Some(vt::<Ks48<2>>()), // 261
        Some(vt::<Ks49<2>>()), // 262
        Some(vt::<Ks50>()), // 263
        Some(vt::<Ks51<u8>>()), // 264
        Some(vt::<Ks52>()), // 265
        Some(vt::<Ks53<u8, String>>()), // 266
        None, // 267
        Some(vt::<Ks55<u8>>()), // 268
        Some(vt::<Ks56<u8>>()), // 269
        Some(vt::<Ks57<u8, String>>()), // 270
        Some(vt::<Ks58<u8>>()), // 271
        Some(vt::<Ks59<u8, String>>()), // 272
        Some(vt::<Ks60<u8, String>>()), // 273
        Some(vt::<Ks61<2>>()), // 274
        None, // 275
        None, // 276
        None, // 277
        None, // 278
        None, // 279
        None, // 280
        None, // 281
        None, // 282
        Some(vt::<Ke3<u8>>()), // 283
        Some(vt::<Vec<Ke3<u8>>>()), // 284
        Some(vt::<Ke4<u8>>()), // 285
        Some(vt::<Vec<Ke4<u8>>>()), // 286
        Some(vt::<Ke5<u8>>()), // 287
        Some(vt::<Vec<Ke5<u8>>>()), // 288
        None, // 289
        None, // 290
        None, // 291
        None, // 292
        Some(vt::<Ke8>()), // 293
        Some(vt::<Vec<Ke8>>()), // 294
        Some(vt::<Ke9>()), // 295
        Some(vt::<Vec<Ke9>>()), // 296
        Some(vt::<Ke10<u8>>()), // 297
        Some(vt::<Vec<Ke10<u8>>>()), // 298
        None, // 299
        None, // 300
        None, // 301
        None, // 302
        Some(vt::<Ke13>()), // 303
        Some(vt::<Vec<Ke13>>()), // 304
        Some(vt::<Ke14>()), // 305
        Some(vt::<Vec<Ke14>>()), // 306
        Some(vt::<Ke15>()), // 307
        Some(vt::<Vec<Ke15>>()), // 308
        None, // 309
        None, // 310
        Some(vt::<Ke17>()), // 311
        Some(vt::<Vec<Ke17>>()), // 312
        Some(vt::<Ke18<u8>>()), // 313
        Some(vt::<Vec<Ke18<u8>>>()), // 314
        Some(vt::<Ke19<u8>>()), // 315
        Some(vt::<Vec<Ke19<u8>>>()), // 316
        Some(vt::<Ke20<u8>>()), // 317
        Some(vt::<Vec<Ke20<u8>>>()), // 318
        Some(vt::<Ke21<u8>>()), // 319
        Some(vt::<Vec<Ke21<u8>>>()), // 320
        None, // 321
        None, // 322
        None, // 323
        None, // 324
        Some(vt::<Ke24<u8>>()), // 325
        Some(vt::<Vec<Ke24<u8>>>()), // 326
        Some(vt::<Ke25>()), // 327
        Some(vt::<Vec<Ke25>>()), // 328
        None, // 329
        None, // 330
        Some(vt::<Ke27>()), // 331
        Some(vt::<Vec<Ke27>>()), // 332
        None, // 333
        None, // 334
        Some(vt::<Ke29>()), // 335
        Some(vt::<Vec<Ke29>>()), // 336
        Some(vt::<Ke30>()), // 337
        Some(vt::<Vec<Ke30>>()), // 338
        Some(vt::<Ke31>()), // 339
        Some(vt::<Vec<Ke31>>()), // 340
        Some(vt::<Ke32>()), // 341
        Some(vt::<Vec<Ke32>>()), // 342
        Some(vt::<Ke33>()), // 343
        Some(vt::<Vec<Ke33>>()), // 344
        Some(vt::<Ke34<u8>>()), // 345
        Some(vt::<Vec<Ke34<u8>>>()), // 346
        None, // 347
        None, // 348
        Some(vt::<Kt0<u8>>()), // 349
        None, // 350
        Some(vt::<Kt2<u8>>()), // 351
        None, // 352
        Some(vt::<Kt4>()), // 353
        None, // 354
        None, // 355
        None, // 356
        Some(vt::<Kt8>()), // 357
        None, // 358
        Some(vt::<Kt10<u8>>()), // 359
        None, // 360
        Some(vt::<Kt12>()), // 361
        None, // 362
        None, // 363
        None, // 364
        Some(vt::<Kt16<u8>>()), // 365
        None, // 366
        None, // 367
        Some(vt::<Kt19<u8>>()), // 368
        None, // 369
        None, // 370
        Some(vt::<Kt22<u8>>()), // 371
        None, // 372
        Some(vt::<Kt24<u8>>()), // 373
        None, // 374
        None, // 375
        None, // 376
        Some(vt::<(String, (u8, String, bool, i64))>()), // 377
        Some(vt::<Vec<[u8; 3]>>()), // 378
        Some(vt::<(u8, Box<New>, bool, String)>()), // 379
        Some(vt::<LinkedList<BTreeMap<String, bool>>>()), // 380
        #[cfg(feature = "std")]
        Some(vt::<[HashMap<String, i64>; 2]>()), // 381
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<((String, i64), u8)>()), // 382
        Some(vt::<BTreeMap<String, LinkedList<i64>>>()), // 383
        Some(vt::<BTreeMap<u16, Option<Duration>>>()), // 384
        Some(vt::<(u8, String, bool, BTreeMap<u16, bool>)>()), // 385
        Some(vt::<Option<BTreeMap<(), u8>>>()), // 386
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, (New, u8)>>()), // 387
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeSet<(u8, (), bool, String)>>()), // 388
        Some(vt::<[[f64; 2]; 3]>()), // 389
        #[cfg(feature = "std")]
        Some(vt::<HashSet<[Uni; 3]>>()), // 390
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<Vec<String>, u8>>()), // 391
        Some(vt::<[BTreeSet<()>; 3]>()), // 392
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, HashSet<i64>>>()), // 393
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<LinkedList<[Plain; 3]>>()), // 394
        Some(vt::<BTreeMap<u16, (String, String)>>()), // 395
        Some(vt::<(String, (u8, u8))>()), // 396
        Some(vt::<BTreeMap<u16, [i64; 3]>>()), // 397
        Some(vt::<Vec<(u8, String, bool, ())>>()), // 398
        Some(vt::<[(u8, String, bool, New); 2]>()), // 399
        Some(vt::<(u8, String, bool, BTreeMap<String, String>)>()), // 400
        Some(vt::<BTreeMap<u16, BTreeMap<String, f64>>>()), // 401
        Some(vt::<[LinkedList<Uni>; 2]>()), // 402
        Some(vt::<(u8, [u8; 2], bool, String)>()), // 403
        Some(vt::<[Option<Plain>; 3]>()), // 404
        Some(vt::<Option<Vec<f64>>>()), // 405
        Some(vt::<BTreeMap<String, [New; 3]>>()), // 406
        Some(vt::<BTreeMap<(String, u8), u8>>()), // 407
        Some(vt::<BTreeSet<Option<bool>>>()), // 408
        Some(vt::<(String, (String, Duration))>()), // 409
        Some(vt::<Vec<Vec<New>>>()), // 410
        Some(vt::<LinkedList<(String, Uni)>>()), // 411
        Some(vt::<LinkedList<LinkedList<()>>>()), // 412
        Some(vt::<BTreeSet<Vec<Uni>>>()), // 413
        Some(vt::<Vec<BTreeMap<String, Uni>>>()), // 414
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, (u8, String, bool, String)>>()), // 415
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Option<[New; 2]>>()), // 416
        #[cfg(feature = "std")]
        Some(vt::<(u8, HashMap<String, Option<String>>, bool, String)>()), // 417
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<(u8, (String, f64), bool, String)>()), // 418
        Some(vt::<[BTreeMap<Uni, u8>; 3]>()), // 419
        Some(vt::<(u8, BTreeMap<i64, u8>, bool, String)>()), // 420
        Some(vt::<[LinkedList<Option<String>>; 3]>()), // 421
        #[cfg(feature = "std")]
        Some(vt::<[HashSet<String>; 2]>()), // 422
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<BTreeMap<String, HashMap<String, Uni>>>()), // 423
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<[(); 2], u8>>()), // 424
        #[cfg(feature = "std")]
        Some(vt::<[HashSet<bool>; 3]>()), // 425
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, Box<Option<String>>>>()), // 426
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<BTreeMap<u16, HashSet<u8>>>()), // 427
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<LinkedList<(u8, String, bool, u8)>>()), // 428
        Some(vt::<(u8, String, bool, Option<New>)>()), // 429
        Some(vt::<Option<BTreeSet<bool>>>()), // 430
        Some(vt::<(u8, Vec<bool>, bool, String)>()), // 431
        Some(vt::<Option<(u8, String, bool, Uni)>>()), // 432
        Some(vt::<(Box<Duration>, u8)>()), // 433
        Some(vt::<(u8, String, bool, Box<Option<bool>>)>()), // 434
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, LinkedList<Option<bool>>>>()), // 435
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<(u8, BTreeMap<u16, ()>, bool, String)>()), // 436
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, Vec<u8>>>()), // 437
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<[BTreeMap<u16, i64>; 3]>()), // 438
        Some(vt::<Vec<LinkedList<Plain>>>()), // 439
        Some(vt::<(u8, String, bool, (u8, Uni, bool, String))>()), // 440
        Some(vt::<BTreeMap<String, (Duration, u8)>>()), // 441
        Some(vt::<(BTreeSet<Option<bool>>, u8)>()), // 442
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, BTreeMap<String, Duration>>>()), // 443
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<LinkedList<(Option<bool>, u8)>>()), // 444
        Some(vt::<Vec<Option<String>>>()), // 445
        Some(vt::<[(u8, Plain, bool, String); 2]>()), // 446
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, (u8, String, bool, bool)>>()), // 447
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<String, (String, Plain)>>()), // 448
        Some(vt::<[Box<bool>; 2]>()), // 449
        Some(vt::<BTreeMap<u16, BTreeMap<bool, u8>>>()), // 450
        Some(vt::<[Option<u8>; 2]>()), // 451
        Some(vt::<(Vec<Plain>, u8)>()), // 452
        #[cfg(feature = "std")]
        Some(vt::<HashSet<Box<()>>>()), // 453
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<(u8, String, bool, Option<String>), u8>>()), // 454
        Some(vt::<(String, BTreeMap<u16, Option<String>>)>()), // 455
        Some(vt::<Vec<BTreeMap<u16, Option<bool>>>>()), // 456
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, [Uni; 2]>>()), // 457
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeSet<(u8, String, bool, String)>>()), // 458
        Some(vt::<((u8, bool, bool, String), u8)>()), // 459
        Some(vt::<(BTreeMap<String, Option<String>>, u8)>()), // 460
        #[cfg(feature = "std")]
        Some(vt::<HashSet<(u8, u8, bool, String)>>()), // 461
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<(u8, (u8, String, bool, Duration), bool, String)>()), // 462
        #[cfg(feature = "std")]
        Some(vt::<LinkedList<HashSet<Option<String>>>>()), // 463
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<HashSet<[String; 2]>>()), // 464
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<(u8, String, bool, [(); 3])>()), // 465
        Some(vt::<(String, [Option<bool>; 3])>()), // 466
        Some(vt::<(String, BTreeMap<String, ()>)>()), // 467
        Some(vt::<(BTreeMap<u16, f64>, u8)>()), // 468
        Some(vt::<(u8, String, bool, Vec<i64>)>()), // 469
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, Option<f64>>>()), // 470
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Vec<(u8, Duration, bool, String)>>()), // 471
        Some(vt::<BTreeMap<String, BTreeMap<u16, u8>>>()), // 472
        #[cfg(feature = "std")]
        Some(vt::<HashSet<(String, bool)>>()), // 473
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<LinkedList<HashMap<String, Duration>>>()), // 474
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Vec<(i64, u8)>>()), // 475
        #[cfg(feature = "std")]
        Some(vt::<Vec<HashMap<String, bool>>>()), // 476
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<(u8, (Uni, u8), bool, String)>()), // 477
        Some(vt::<(String, Option<Uni>)>()), // 478
        Some(vt::<[(String, Option<String>); 2]>()), // 479
        Some(vt::<[Vec<Option<bool>>; 3]>()), // 480
        Some(vt::<(u8, String, bool, BTreeSet<Option<String>>)>()), // 481
        Some(vt::<(u8, String, bool, (f64, u8))>()), // 482
        Some(vt::<BTreeMap<String, [bool; 2]>>()), // 483
        Some(vt::<(String, LinkedList<New>)>()), // 484
        Some(vt::<Option<BTreeMap<u16, Duration>>>()), // 485
        Some(vt::<BTreeMap<(u8, Option<bool>, bool, String), u8>>()), // 486
        #[cfg(feature = "std")]
        Some(vt::<[HashMap<String, String>; 3]>()), // 487
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Option<(String, Option<bool>)>>()), // 488
        Some(vt::<BTreeMap<u16, BTreeSet<Uni>>>()), // 489
        #[cfg(feature = "std")]
        Some(vt::<HashSet<(u8, String, bool, Option<bool>)>>()), // 490
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<[Vec<Duration>; 2]>()), // 491
        #[cfg(feature = "std")]
        Some(vt::<(String, HashMap<String, f64>)>()), // 492
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<String, (u8, String, bool, f64)>>()), // 493
        Some(vt::<Option<BTreeMap<String, u8>>>()), // 494
        Some(vt::<BTreeMap<u16, (Plain, u8)>>()), // 495
        Some(vt::<(u8, String, bool, LinkedList<Duration>)>()), // 496
        Some(vt::<(String, Box<String>)>()), // 497
        Some(vt::<BTreeMap<Box<i64>, u8>>()), // 498
        Some(vt::<(u8, BTreeSet<String>, bool, String)>()), // 499
        Some(vt::<LinkedList<BTreeMap<u16, New>>>()), // 500
        #[cfg(feature = "std")]
        Some(vt::<(HashSet<Uni>, u8)>()), // 501
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<BTreeMap<u16, HashMap<String, Option<bool>>>>()), // 502
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<(u8, String, bool, BTreeMap<u8, u8>)>()), // 503
        Some(vt::<(String, [Plain; 2])>()), // 504
        Some(vt::<BTreeMap<u16, (u8, Option<String>, bool, String)>>()), // 505
        Some(vt::<Option<(String, u8)>>()), // 506
        Some(vt::<(u8, BTreeMap<u16, Vec<Uni>>, bool, String)>()), // 507
        #[cfg(feature = "std")]
        Some(vt::<[Box<HashSet<String>>; 3]>()), // 508
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<[HashMap<String, (u8, String, bool, f64)>; 2]>()), // 509
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<HashSet<(u8, String, bool, [Option<String>; 3])>>()), // 510
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<u16, Option<BTreeMap<i64, u8>>>>()), // 511
        Some(vt::<(String, Vec<BTreeMap<String, String>>)>()), // 512
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, BTreeMap<String, BTreeSet<String>>>>()), // 513
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<Option<[HashMap<String, u8>; 3]>>()), // 514
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Vec<BTreeSet<Option<Uni>>>>()), // 515
        Some(vt::<((String, ((), u8)), u8)>()), // 516
        Some(vt::<BTreeSet<(u8, Box<i64>, bool, String)>>()), // 517
        Some(vt::<BTreeMap<String, LinkedList<(String, f64)>>>()), // 518
        Some(vt::<(u8, String, bool, [BTreeMap<u16, i64>; 2])>()), // 519
        Some(vt::<LinkedList<(BTreeMap<(), u8>, u8)>>()), // 520
        Some(vt::<(u8, String, bool, BTreeMap<(u8, String, bool, String), u8>)>()), // 521
        Some(vt::<BTreeMap<[[Uni; 2]; 2], u8>>()), // 522
        Some(vt::<LinkedList<(u8, String, bool, LinkedList<String>)>>()), // 523
        #[cfg(feature = "std")]
        Some(vt::<[HashSet<(String, ())>; 2]>()), // 524
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<HashSet<Box<(u8, (), bool, String)>>>()), // 525
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<(u8, HashMap<String, (String, u8)>, bool, String)>()), // 526
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<String, Option<[New; 2]>>>()), // 527
        Some(vt::<(u8, String, bool, (String, BTreeMap<String, f64>))>()), // 528
        Some(vt::<BTreeMap<u16, BTreeMap<(u8, String, bool, ()), u8>>>()), // 529
        #[cfg(feature = "std")]
        Some(vt::<(u8, LinkedList<HashMap<String, New>>, bool, String)>()), // 530
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeSet<(String, Box<String>)>>()), // 531
        Some(vt::<(u8, Vec<(Duration, u8)>, bool, String)>()), // 532
        Some(vt::<LinkedList<Box<LinkedList<bool>>>>()), // 533
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, (u8, (u8, String, bool, Duration), bool, String)>>()), // 534
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<Option<Vec<(u8, Uni, bool, String)>>>()), // 535
        Some(vt::<[BTreeMap<u16, [Duration; 3]>; 3]>()), // 536
        Some(vt::<[(String, [Option<String>; 2]); 2]>()), // 537
        Some(vt::<BTreeMap<u16, LinkedList<BTreeMap<u16, Uni>>>>()), // 538
        Some(vt::<LinkedList<Option<BTreeMap<String, u8>>>>()), // 539
        #[cfg(feature = "std")]
        Some(vt::<[(u8, String, bool, HashMap<String, i64>); 2]>()), // 540
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<[LinkedList<BTreeSet<i64>>; 3]>()), // 541
        Some(vt::<[Box<(String, u8)>; 2]>()), // 542
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, [[bool; 3]; 3]>>()), // 543
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<u16, Box<(u8, String, bool, Option<String>)>>>()), // 544
        #[cfg(feature = "std")]
        Some(vt::<BTreeMap<String, (u8, String, bool, HashSet<()>)>>()), // 545
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<(BTreeMap<u16, BTreeMap<String, bool>>, u8)>()), // 546
        Some(vt::<Vec<Option<(String, Option<bool>)>>>()), // 547
        #[cfg(feature = "std")]
        Some(vt::<BTreeMap<String, Vec<HashSet<bool>>>>()), // 548
        #[cfg(not(feature = "std"))]
        None,
        #[cfg(feature = "std")]
        Some(vt::<HashMap<String, Vec<Vec<f64>>>>()), // 549
        #[cfg(not(feature = "std"))]
        None,
        Some(vt::<BTreeMap<String, BTreeMap<Box<Option<bool>>, u8>>>()), // 550
        Some(vt::<(u8, String, bool, (u8, [New; 3], bool, String))>()), // 551
        Some(vt::<(u8, BTreeMap<(u8, u8), u8>, bool, String)>()), // 552
        Some(vt::<BTreeMap<(String, Option<bool>), u8>>()), // 553
        Some(vt::<([[i64; 2]; 3], u8)>()), // 554
        Some(vt::<(u8, String, bool, BTreeMap<String, (u8, Option<bool>, bool, String)>)>()), // 555
        #[cfg(feature = "std")]
        Some(vt::<BTreeMap<u16, (HashMap<String, String>, u8)>>()), // 556
        #[cfg(not(feature = "std"))]
        None,
    ]
}
