// Generated by gen/schema.py.
use alloc::{boxed::Box, collections::{BTreeMap, BTreeSet, LinkedList}, format, string::{String, ToString}, vec, vec::Vec};
use core::time::Duration;
use nanoserde::*;

pub fn dw_s() -> String { "dee".to_string() }
pub fn dw_vec() -> Vec<u8> { vec![7, 9] }
pub fn dw_opt() -> Option<u8> { Some(8) }
pub fn dw_i16() -> i16 { -300 }
pub fn dw_u8() -> u8 { 211 }
pub fn unscale(p: i32) -> u16 { if p < 7 { 0 } else { ((p - 7) / 3 % 65536) as u16 } }
pub fn unwrap_str(s: &str) -> String { let mut c: Vec<char> = s.chars().collect(); if c.len() < 2 { return String::new(); } c.pop(); c.remove(0); c.into_iter().collect() }
#[derive(Default)] pub struct RawS(pub String);
#[derive(Default)] pub struct RawN(pub u16);
#[derive(SerRon, DeRon)]
#[derive(Default)]
#[nserde(transparent)]
pub struct RawD(pub u16);
impl From<&RawD> for i32 { fn from(x: &RawD) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawD { fn from(x: &i32) -> RawD { RawD(unscale(*x)) } }
pub struct RawZ(pub u16);
impl Default for RawZ { fn default() -> Self { RawZ(42) } }
pub fn dw_z() -> RawZ { RawZ(9) }
impl From<&RawZ> for i32 { fn from(x: &RawZ) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawZ { fn from(x: &i32) -> RawZ { RawZ(unscale(*x)) } }
impl From<&RawN> for i32 { fn from(x: &RawN) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawN { fn from(x: &i32) -> RawN { RawN(unscale(*x)) } }

#[derive(SerRon, DeRon, Default)]
pub struct Plain {
    pub a: u8,
    pub b: String,
    pub c: i32,
}
#[derive(SerRon, DeRon, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Default)]
pub struct Keyed {
    pub x: u8,
    pub y: i16,
}
#[derive(SerRon, DeRon)]
pub struct AllPrim {
    pub a: u8,
    pub b: u16,
    pub c: u32,
    pub d: u64,
    pub e: usize,
    pub f: i8,
    pub g: i16,
    pub h: i32,
    pub i: i64,
    pub j: f32,
    pub k: f64,
    pub l: bool,
    pub m: String,
    pub n: (),
}
#[derive(SerRon, DeRon)]
pub struct Empty {

}
#[derive(SerRon, DeRon, Default)]
pub struct Opts {
    pub a: Option<u8>,
    pub b: Option<String>,
    pub c: u8,
    pub d: Option<Vec<u8>>,
}
#[derive(SerRon, DeRon)]
pub struct AllOpt {
    pub a: Option<u8>,
    pub b: Option<bool>,
}
#[derive(SerRon, DeRon)]
pub struct Ren {
    #[nserde(rename = "b")] pub a: u8,
    #[nserde(rename = "c")] pub b: u8,
    #[nserde(rename = "fooBar")] pub c: Option<u8>,
    #[nserde(rename = "D")] pub d: String,
}
#[derive(SerRon, DeRon)]
pub struct Def {
    #[nserde(default)] pub a: u8,
    #[nserde(default = "513")] pub b: u16,
    #[nserde(default = "hi there")] pub c: String,
    pub d: i32,
    #[nserde(default_with = "dw_vec")] pub e: Vec<u8>,
    #[nserde(default = "-5")] pub f: i64,
}
#[derive(SerRon, DeRon)]
pub struct DefOpt {
    #[nserde(default = "3")] pub a: Option<u8>,
    #[nserde(default)] pub b: Option<String>,
    #[nserde(default_with = "dw_opt")] pub c: Option<u8>,
    pub d: u8,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct CDef {
    pub a: u8,
    pub b: String,
    pub c: Option<u8>,
    pub d: Plain,
    #[nserde(default = "77")] pub e: u16,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct CDefW {
    pub a: u8,
    pub b: Vec<String>,
    #[nserde(default_with = "dw_i16")] pub c: i16,
}
#[derive(SerRon, DeRon)]
pub struct Skip {
    pub a: u8,
    #[nserde(skip)] pub b: u16,
    pub c: String,
    #[nserde(default = "dd")] #[nserde(skip)] pub d: String,
    #[nserde(skip)] pub e: Option<u8>,
    #[nserde(default_with = "dw_u8")] #[nserde(skip)] pub g: u8,
    pub h: Option<u8>,
}
#[derive(SerRon, DeRon)]
pub struct SkipFirst {
    #[nserde(skip)] pub a: u8,
    pub b: Option<u8>,
    pub c: u8,
}
#[derive(SerRon, DeRon)]
pub struct SkipAll {
    #[nserde(skip)] pub a: u8,
    #[nserde(skip)] pub b: String,
}
#[derive(SerRon, DeRon)]
pub struct Nulls {
    #[nserde(serialize_none_as_null)] pub a: Option<u8>,
    pub b: Option<u8>,
    #[nserde(serialize_none_as_null)] pub c: Option<String>,
    pub d: u8,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct CNulls {
    pub a: Option<u8>,
    pub b: Option<String>,
    pub c: u8,
}
#[derive(SerRon, DeRon)]
pub struct RenSkip {
    #[nserde(rename = "x")] pub a: u8,
    #[nserde(skip)] pub x: u8,
    #[nserde(rename = "a")] pub y: Option<u8>,
    #[nserde(rename = "w")] #[nserde(default = "9")] pub z: u8,
}
#[derive(SerRon, DeRon)]
pub struct Nest {
    pub p: Plain,
    pub o: Option<Opts>,
    pub v: Vec<Plain>,
    pub m: BTreeMap<String, Plain>,
    pub t: (Plain, u8),
    pub r: [AllOpt; 2],
}
#[derive(SerRon, DeRon)]
pub struct Colls {
    pub a: Vec<u16>,
    pub b: LinkedList<String>,
    pub c: BTreeSet<u8>,
    pub d: BTreeMap<String, i32>,
    pub e: [u8; 2],
    pub f: (bool, f64),
    pub g: Box<u8>,
}
#[derive(SerRon, DeRon)]
pub struct Times {
    pub d: Duration,
    pub o: Option<Duration>,
    pub v: Vec<Duration>,
}
#[derive(SerRon, DeRon)]
pub struct Under {
    pub _a: u8,
    pub a_b: u8,
    #[nserde(rename = "a_1")] pub a1: u8,
    #[nserde(rename = "type")] pub type_: String,
}
#[derive(SerRon, DeRon)]
pub struct One {
    pub only: String,
}
#[derive(SerRon, DeRon)]
pub struct Tree {
    pub v: u8,
    pub kids: Vec<Tree>,
}
#[derive(SerRon, DeRon)]
pub struct Chain {
    pub v: u8,
    pub next: Option<Box<Chain>>,
}
#[derive(SerRon, DeRon)]
pub struct New(pub u8);
#[derive(SerRon, DeRon)]
pub struct Pair(pub u8, pub String);
#[derive(SerRon, DeRon)]
pub struct Trip(pub Option<u8>, pub Vec<u8>, pub New);
#[derive(SerRon, DeRon)]
pub struct Quint(pub u8, pub u16, pub u32, pub u64, pub i8);
#[derive(SerRon, DeRon)]
pub struct HoldT {
    pub a: New,
    pub b: Pair,
    pub c: Option<New>,
    pub d: Vec<Pair>,
    pub u: (New, u8),
}
#[derive(SerRon, DeRon, PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Default)]
pub enum Uni {
    A,
    #[default]
    B,
    Ab,
    ABC,
    a,
}
#[derive(SerRon, DeRon)]
pub enum Mix {
    U,
    T1(u8),
    T2(u8, String),
    R { a: u8, b: String },
    V(Vec<u8>),
    U2,
    O(Option<u8>, Option<u8>),
    W { u: Option<u8> },
}
#[derive(SerRon, DeRon)]
pub enum FieldV {
    R { a: Option<u8>, #[nserde(default = "5")] b: u8, #[nserde(skip)] c: u8, #[nserde(rename = "dee")] d: Option<String> },
    Q { #[nserde(rename = "b")] a: u8, #[nserde(rename = "a")] b: Option<u8> },
    U,
}
#[derive(SerRon, DeRon)]
pub enum AllOptV {
    R { a: Option<u8>, b: Option<u8> },
    T(Option<u8>),
}
#[derive(SerRon, DeRon)]
pub enum Disc {
    A = 5,
    B = 300,
    C,
    D = 1,
}
#[derive(SerRon, DeRon)]
pub enum Inner {
    P(Uni),
    Q(Mix),
    R { m: Mix, u: Uni },
    N((u8, Uni)),
    A2([Uni; 2]),
}
#[derive(SerRon, DeRon)]
pub enum Deep {
    L(u8),
    N(Box<Deep>, Box<Deep>),
    S { next: Vec<Deep> },
}
#[derive(SerRon, DeRon)]
pub enum Big {
    N0,
    N1,
    N2,
    N3,
    N4,
    N5,
    N6,
    N7,
    N8,
    N9,
    N10,
    N11,
    N12,
    N13,
    N14,
    N15,
    N16,
    N17,
    N18,
    N19,
    N20,
    N21,
    N22,
    N23,
    N24,
    N25,
    N26,
    N27,
    N28,
    N29,
    N30,
    N31,
    N32,
    N33,
    N34,
    N35,
    N36,
    N37,
    N38,
    N39,
    N40,
    N41,
    N42,
    N43,
    N44,
    N45,
    N46,
    N47,
    N48,
    N49,
    N50,
    N51,
    N52,
    N53,
    N54,
    N55,
    N56,
    N57,
    N58,
    N59,
    N60,
    N61,
    N62,
    N63,
    N64,
    N65,
    N66,
    N67,
    N68,
    N69,
    N70,
    N71,
    N72,
    N73,
    N74,
    N75,
    N76,
    N77,
    N78,
    N79,
    N80,
    N81,
    N82,
    N83,
    N84,
    N85,
    N86,
    N87,
    N88,
    N89,
    N90,
    N91,
    N92,
    N93,
    N94,
    N95,
    N96,
    N97,
    N98,
    N99,
    N100,
    N101,
    N102,
    N103,
    N104,
    N105,
    N106,
    N107,
    N108,
    N109,
    N110,
    N111,
    N112,
    N113,
    N114,
    N115,
    N116,
    N117,
    N118,
    N119,
    N120,
    N121,
    N122,
    N123,
    N124,
    N125,
    N126,
    N127,
    N128,
    N129,
    N130,
    N131,
    N132,
    N133,
    N134,
    N135,
    N136,
    N137,
    N138,
    N139,
    N140,
    N141,
    N142,
    N143,
    N144,
    N145,
    N146,
    N147,
    N148,
    N149,
    N150,
    N151,
    N152,
    N153,
    N154,
    N155,
    N156,
    N157,
    N158,
    N159,
    N160,
    N161,
    N162,
    N163,
    N164,
    N165,
    N166,
    N167,
    N168,
    N169,
    N170,
    N171,
    N172,
    N173,
    N174,
    N175,
    N176,
    N177,
    N178,
    N179,
    N180,
    N181,
    N182,
    N183,
    N184,
    N185,
    N186,
    N187,
    N188,
    N189,
    N190,
    N191,
    N192,
    N193,
    N194,
    N195,
    N196,
    N197,
    N198,
    N199,
    N200,
    N201,
    N202,
    N203,
    N204,
    N205,
    N206,
    N207,
    N208,
    N209,
    N210,
    N211,
    N212,
    N213,
    N214,
    N215,
    N216,
    N217,
    N218,
    N219,
    N220,
    N221,
    N222,
    N223,
    N224,
    N225,
    N226,
    N227,
    N228,
    N229,
    N230,
    N231,
    N232,
    N233,
    N234,
    N235,
    N236,
    N237,
    N238,
    N239,
    N240,
    N241,
    N242,
    N243,
    N244,
    N245,
    N246,
    N247,
    N248,
    N249,
    N250,
    N251,
    N252,
    N253,
    N254,
    N255,
    N256,
    N257,
    N258,
    N259,
    N260,
    N261,
    N262,
    N263,
    N264,
    N265,
    N266,
    N267,
    N268,
    N269,
    N270,
    N271,
    N272,
    N273,
    N274,
    N275,
    N276,
    N277,
    N278,
    N279,
    N280,
    N281,
    N282,
    N283,
    N284,
    N285,
    N286,
    N287,
    N288,
    N289,
    N290,
    N291,
    N292,
    N293,
    N294,
    N295,
    N296,
    N297,
    N298,
    N299,
    P(u8),
    P2(u8, String),
    R { a: u8 },
    Z,
}
#[derive(SerRon, DeRon)]
pub enum Words {
    NoneYet,
    Non,
    None1(u8),
    None_ { a: Option<u8> },
    none,
    Some(u8),
    Ok(Option<u8>),
}
#[derive(SerRon, DeRon)]
pub enum Words2 {
    nul,
    nullx(u8),
    null,
    True,
    truex,
    fals,
    falsey { nulls: u8 },
    nan,
    inf,
    e5,
}
#[derive(SerRon, DeRon)]
pub struct WordsF {
    pub w: Option<Words>,
    pub None_: Option<u8>,
    pub nullx: u8,
    #[nserde(rename = "truey")] pub t: Option<u8>,
    pub fals: Option<Words2>,
    pub some: Words,
}
#[derive(SerRon, DeRon)]
pub struct HoldE {
    pub u: Uni,
    pub m: Mix,
    pub o: Option<Uni>,
    pub v: Vec<FieldV>,
    #[nserde(default)] pub d: Uni,
}
#[derive(SerRon, DeRon)]
pub struct HoldEB {
    pub u: Uni,
    pub m: Mix,
    pub o: Option<Uni>,
    pub k: Disc,
}
#[derive(SerRon, DeRon)]
pub struct G1<T> {
    pub a: T,
    pub v: Vec<T>,
}
#[derive(SerRon, DeRon)]
pub struct G2<K, V = u8> where K: Clone, V: Clone {
    pub k: K,
    pub v: Option<V>,
}
#[derive(SerRon, DeRon)]
pub struct GC<const N: usize> {
    pub a: [u8; N],
    pub n: u8,
}
#[derive(SerRon, DeRon)]
pub enum GE<T, U: Clone> {
    A(T),
    B { t: T, u: U },
    C,
    D(U, T),
}
#[derive(SerRon, DeRon)]
pub struct GT<A, B>(pub A, pub B);
#[derive(SerRon, DeRon)]
pub struct WrapP {
    pub s: String,
}

impl From<&RawS> for WrapP { fn from(x: &RawS) -> Self { WrapP { s: format!("<{}>", x.0) } } }
impl From<&WrapP> for RawS { fn from(x: &WrapP) -> Self { RawS(unwrap_str(&x.s)) } }

#[derive(SerRon, DeRon)]
pub enum NamesV {
    V { s: u8, d: String, i: Option<u8>, o: u16, r: u8, t: Option<String>, name: u8, _s: u8 },
    T(u8, u16),
}
#[derive(SerRon, DeRon)]
pub struct Names {
    pub s: u8,
    pub d: String,
    pub i: Option<u8>,
    pub o: u16,
    pub r: u8,
    pub t: Option<String>,
    pub proxy: u8,
    pub out: u8,
}
#[derive(SerRon, DeRon)]
pub struct WideT(pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16);
#[derive(SerRon, DeRon)]
pub enum WideV {
    U,
    T(u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16),
    R { f0: u16, f1: u16, f2: u16, f3: u16, f4: u16, f5: u16, f6: u16, f7: u16, f8: u16, f9: u16, f10: u16, f11: u16, f12: u16 },
    O(Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>, Option<u8>),
    S(String, u8, String, u8, String, u8, String, u8, String, u8, String, u8),
    Z(u8),
}
#[derive(SerRon, DeRon)]
pub struct WideS {
    pub f0: u8,
    pub f1: Option<u16>,
    pub f2: String,
    #[nserde(rename = "x70")] pub f3: Option<String>,
    pub f4: i16,
    #[nserde(default)] pub f5: u8,
    pub f6: Option<u16>,
    pub f7: String,
    pub f8: Option<String>,
    pub f9: i16,
    #[nserde(rename = "x63")] pub f10: u8,
    pub f11: Option<u16>,
    #[nserde(default)] pub f12: String,
    pub f13: Option<String>,
    pub f14: i16,
    pub f15: u8,
    pub f16: Option<u16>,
    #[nserde(rename = "x56")] pub f17: String,
    pub f18: Option<String>,
    #[nserde(default)] pub f19: i16,
    pub f20: u8,
    pub f21: Option<u16>,
    pub f22: String,
    pub f23: Option<String>,
    #[nserde(rename = "x49")] pub f24: i16,
    pub f25: u8,
    #[nserde(default)] pub f26: Option<u16>,
    pub f27: String,
    pub f28: Option<String>,
    pub f29: i16,
    #[nserde(skip)] pub f30: u8,
    #[nserde(rename = "x42")] pub f31: Option<u16>,
    pub f32: String,
    #[nserde(default)] pub f33: Option<String>,
    pub f34: i16,
    pub f35: u8,
    pub f36: Option<u16>,
    pub f37: String,
    #[nserde(rename = "x35")] pub f38: Option<String>,
    pub f39: i16,
    #[nserde(default)] pub f40: u8,
    pub f41: Option<u16>,
    pub f42: String,
    pub f43: Option<String>,
    pub f44: i16,
    #[nserde(rename = "x28")] pub f45: u8,
    pub f46: Option<u16>,
    #[nserde(default)] pub f47: String,
    pub f48: Option<String>,
    pub f49: i16,
    pub f50: u8,
    pub f51: Option<u16>,
    #[nserde(rename = "x21")] pub f52: String,
    pub f53: Option<String>,
    #[nserde(default)] pub f54: i16,
    pub f55: u8,
    pub f56: Option<u16>,
    pub f57: String,
    pub f58: Option<String>,
    #[nserde(rename = "x14")] pub f59: i16,
    pub f60: u8,
    #[nserde(default)] pub f61: Option<u16>,
    pub f62: String,
    pub f63: Option<String>,
    pub f64: i16,
    pub f65: u8,
    #[nserde(rename = "x7")] pub f66: Option<u16>,
    pub f67: String,
    #[nserde(default)] pub f68: Option<String>,
    pub f69: i16,
    pub f70: u8,
    pub f71: Option<u16>,
    pub f72: String,
    #[nserde(rename = "x0")] pub f73: Option<String>,
}
#[derive(SerRon, DeRon)]
pub struct WideO {
    pub o0: Option<u8>,
    pub o1: Option<u8>,
    pub o2: Option<u8>,
    pub o3: Option<u8>,
    pub o4: Option<u8>,
    pub o5: Option<u8>,
    pub o6: Option<u8>,
    pub o7: Option<u8>,
    pub o8: Option<u8>,
    pub o9: Option<u8>,
    pub o10: Option<u8>,
    pub o11: Option<u8>,
    pub o12: Option<u8>,
    pub o13: Option<u8>,
    pub o14: Option<u8>,
    pub o15: Option<u8>,
    pub o16: Option<u8>,
    pub o17: Option<u8>,
    pub o18: Option<u8>,
    pub o19: Option<u8>,
    pub o20: Option<u8>,
    pub o21: Option<u8>,
    pub o22: Option<u8>,
    pub o23: Option<u8>,
    pub o24: Option<u8>,
    pub o25: Option<u8>,
    pub o26: Option<u8>,
    pub o27: Option<u8>,
    pub o28: Option<u8>,
    pub o29: Option<u8>,
    pub o30: Option<u8>,
    pub o31: Option<u8>,
    pub o32: Option<u8>,
    pub o33: Option<u8>,
    pub o34: Option<u8>,
    pub o35: Option<u8>,
    pub o36: Option<u8>,
    pub o37: Option<u8>,
    pub o38: Option<u8>,
    pub o39: Option<u8>,
    pub o40: Option<u8>,
    pub o41: Option<u8>,
    pub o42: Option<u8>,
    pub o43: Option<u8>,
    pub o44: Option<u8>,
    pub o45: Option<u8>,
    pub o46: Option<u8>,
    pub o47: Option<u8>,
    pub o48: Option<u8>,
    pub o49: Option<u8>,
    pub o50: Option<u8>,
    pub o51: Option<u8>,
    pub o52: Option<u8>,
    pub o53: Option<u8>,
    pub o54: Option<u8>,
    pub o55: Option<u8>,
    pub o56: Option<u8>,
    pub o57: Option<u8>,
    pub o58: Option<u8>,
    pub o59: Option<u8>,
    pub o60: Option<u8>,
    pub o61: Option<u8>,
    pub o62: Option<u8>,
    pub o63: Option<u8>,
    pub o64: Option<u8>,
    pub o65: Option<u8>,
    pub o66: Option<u8>,
    pub o67: Option<u8>,
    pub o68: Option<u8>,
    pub o69: Option<u8>,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks0 {
    #[nserde(default)] pub a: (u8, String),
    #[nserde(rename = "z")] #[nserde(default)] pub b: Option<Box<u8>>,
    #[nserde(rename = "w9")] #[nserde(skip)] pub cc: (u8, String),
    #[nserde(rename = "ex")] #[nserde(default = "-9000000000")] pub d_1: i64,
    pub e: u8,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks2<T: Clone> {
    #[nserde(rename = "fn_")] pub a: (T, String),
    pub b: (T, String),
    #[nserde(default = "true")] #[nserde(skip)] pub cc: Option<bool>,
    #[nserde(default)] pub d_1: Option<u8>,
    #[nserde(rename = "a")] #[nserde(serialize_none_as_null)] pub e: Option<Box<u8>>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks3<T = u8> {
    #[nserde(serialize_none_as_null)] pub a: Option<T>,
    #[nserde(rename = "ax")] #[nserde(default)] pub b: LinkedList<String>,
    #[nserde(rename = "ex")] pub cc: Option<Plain>,
    #[nserde(skip)] pub d_1: BTreeSet<i32>,
    pub e: Option<T>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks5 {
    #[nserde(rename = "fn_")] #[nserde(default)] pub a: bool,
    #[nserde(rename = "w9")] #[nserde(default)] pub b: Option<bool>,
    #[nserde(skip)] pub cc: Opts,
    #[nserde(rename = "ex")] pub d_1: BTreeMap<String, u8>,
    #[nserde(default)] pub e: Option<u8>,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks6<T, U> {
    #[nserde(rename = "w9")] #[nserde(default)] pub a: Plain,
    #[nserde(rename = "w9x")] pub b: Vec<T>,
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub cc: Option<Uni>,
    pub d_1: [Option<bool>; 2],
    pub e: Option<String>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks7 {
    #[nserde(skip)] pub a: BTreeMap<String, u8>,
    #[nserde(rename = "e")] #[nserde(skip)] pub b: Vec<Option<bool>>,
    #[nserde(serialize_none_as_null)] pub cc: Option<Plain>,
    pub d_1: New,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks8<T, U> {
    pub a: Vec<T>,
    pub b: u8,
    #[nserde(rename = "w9")] #[nserde(default = "a b")] pub cc: String,
    #[nserde(default)] pub d_1: Option<Uni>,
    #[nserde(rename = "e")] pub e: LinkedList<String>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
pub struct Ks10<const N: usize> {
    #[nserde(rename = "a")] #[nserde(skip)] pub a: i32,
    #[nserde(skip)] pub b: String,
    #[nserde(rename = "w9")] #[nserde(skip)] pub cc: BTreeSet<i32>,
    #[nserde(skip)] pub d_1: Box<String>,
    pub e: [u8; N],
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks11<T, U> {
    #[nserde(skip)] pub a: Plain,
    #[nserde(rename = "w9")] #[nserde(default)] pub b: Vec<String>,
    #[nserde(rename = "ax")] pub cc: T,
    #[nserde(rename = "z")] #[nserde(skip)] pub d_1: Option<String>,
    #[nserde(rename = "Yy")] pub e: Option<T>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks12<T = u8> {
    pub a: u8,
    #[nserde(default)] pub b: BTreeSet<i32>,
    #[nserde(rename = "z")] pub cc: Plain,
    pub d_1: Option<T>,
    #[nserde(skip)] pub e: f64,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks13 {
    #[nserde(rename = "w9")] pub a: Vec<Option<bool>>,
    #[nserde(rename = "fn_")] #[nserde(default)] pub b: Box<String>,
    pub cc: u8,
    #[nserde(default = "a b")] #[nserde(skip)] pub d_1: String,
    pub e: u8,
}
#[derive(SerRon, DeRon)]
pub struct Ks14<T> where T: Clone {
    #[nserde(rename = "fn_")] pub a: (T, String),
    #[nserde(rename = "fn_x")] #[nserde(default)] pub b: (u8, String),
    #[nserde(default)] pub cc: BTreeSet<i32>,
    pub d_1: (),
    #[nserde(serialize_none_as_null)] pub e: Option<T>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks15 {
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub a: Option<Box<u8>>,
    pub b: Option<Vec<u8>>,
    #[nserde(default = "-9000000000")] pub cc: i64,
    #[nserde(rename = "exx")] #[nserde(skip)] pub d_1: i32,
    pub e: u8,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks18 {
    #[nserde(rename = "a")] pub a: i64,
    #[nserde(skip)] pub b: bool,
    #[nserde(rename = "z")] #[nserde(default)] pub cc: Plain,
    #[nserde(default = "5")] #[nserde(skip)] pub d_1: u8,
    #[nserde(rename = "Yy")] pub e: Option<String>,
}
#[derive(SerRon, DeRon)]
pub struct Ks19<const N: usize> {
    pub a: [u8; N],
    #[nserde(serialize_none_as_null)] pub b: Option<String>,
    #[nserde(default = "2.5")] #[nserde(skip)] pub cc: f64,
    #[nserde(default = "-9000000000")] pub d_1: i64,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks20<T: Clone> {
    #[nserde(skip)] pub a: Option<u8>,
    #[nserde(rename = "ax")] #[nserde(default = "5")] pub b: u8,
    pub cc: Option<T>,
    pub d_1: Plain,
    pub e: BTreeMap<String, u8>,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks21<T> {
    #[nserde(rename = "fn_")] #[nserde(serialize_none_as_null)] pub a: Option<T>,
    #[nserde(serialize_none_as_null)] pub b: Option<bool>,
    pub cc: Option<T>,
    #[nserde(rename = "ex")] pub d_1: [u8; 2],
    #[nserde(default_with = "dw_s")] pub e: String,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks24<T, U> {
    #[nserde(default)] pub a: u8,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<T>,
    #[nserde(default = "-9000000000")] pub cc: i64,
    #[nserde(serialize_none_as_null)] pub d_1: Option<Box<u8>>,
    #[nserde(skip)] pub e: Option<u8>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
pub struct Ks25 {
    #[nserde(rename = "a")] pub a: Duration,
    #[nserde(rename = "fn_")] #[nserde(skip)] pub b: f64,
    pub cc: Uni,
    pub d_1: Option<(u8, bool)>,
    #[nserde(rename = "z")] #[nserde(default)] pub e: f64,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks26<T> {
    #[nserde(rename = "fn_")] #[nserde(default)] pub a: Vec<String>,
    #[nserde(default)] pub b: BTreeSet<i32>,
    #[nserde(rename = "e")] pub cc: Vec<T>,
    #[nserde(serialize_none_as_null)] pub d_1: Option<(u8, bool)>,
    #[nserde(rename = "z")] pub e: [u8; 2],
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks27 {
    #[nserde(skip)] pub a: Plain,
    #[nserde(default = "true")] pub b: Option<bool>,
    #[nserde(rename = "w9")] #[nserde(default)] pub cc: Uni,
    pub d_1: Vec<u8>,
    #[nserde(default = "true")] #[nserde(skip)] pub e: Option<bool>,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks28 {
    pub a: Opts,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<Vec<u8>>,
    pub cc: String,
    #[nserde(skip)] pub d_1: String,
    #[nserde(default)] pub e: BTreeMap<u8, Option<String>>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks29<T: Clone> {
    pub a: Option<T>,
    #[nserde(default)] pub b: String,
    #[nserde(rename = "w9")] #[nserde(skip)] pub cc: [u8; 2],
    #[nserde(default = "2.5")] pub d_1: f64,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks30 {
    #[nserde(default = "-9000000000")] pub a: i64,
    #[nserde(default = "true")] #[nserde(serialize_none_as_null)] pub b: Option<bool>,
    #[nserde(rename = "e")] #[nserde(skip)] pub cc: Option<bool>,
    #[nserde(rename = "ex")] #[nserde(skip)] pub d_1: Box<String>,
    #[nserde(rename = "ax")] #[nserde(default)] pub e: Option<Box<u8>>,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks32<T: Clone> {
    #[nserde(rename = "fn_")] #[nserde(skip)] pub a: BTreeMap<u8, Option<String>>,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<T>,
    #[nserde(rename = "ex")] pub cc: Vec<T>,
    #[nserde(rename = "z")] #[nserde(default)] pub d_1: bool,
    pub e: (T, String),
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks34 {
    #[nserde(rename = "ex")] pub a: Option<Box<u8>>,
    #[nserde(rename = "fn_")] #[nserde(skip)] pub b: Vec<u8>,
    #[nserde(default_with = "dw_s")] pub cc: String,
    #[nserde(default)] pub d_1: Opts,
    #[nserde(skip)] pub e: Option<Box<u8>>,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks35<T = u8> {
    #[nserde(default)] pub a: LinkedList<String>,
    #[nserde(rename = "w9")] pub b: Vec<T>,
    #[nserde(rename = "w9x")] #[nserde(default)] pub cc: String,
    pub d_1: T,
    #[nserde(rename = "z")] #[nserde(default = "a b")] pub e: String,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks36<T> where T: Clone {
    #[nserde(skip)] pub a: u8,
    pub b: Option<T>,
    pub cc: Box<String>,
    #[nserde(rename = "e")] #[nserde(default)] pub d_1: Box<String>,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks38<T> {
    #[nserde(default = "true")] #[nserde(serialize_none_as_null)] pub a: Option<bool>,
    #[nserde(rename = "ax")] #[nserde(default)] pub b: LinkedList<String>,
    #[nserde(default)] pub cc: (u8, String),
    #[nserde(rename = "z")] pub d_1: Vec<T>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks39<T, U> {
    #[nserde(default)] pub a: Vec<u8>,
    #[nserde(default = "true")] #[nserde(serialize_none_as_null)] pub b: Option<bool>,
    pub cc: Vec<T>,
    #[nserde(rename = "z")] pub d_1: Vec<T>,
    pub e: bool,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks41<T> where T: Clone {
    #[nserde(rename = "e")] #[nserde(skip)] pub a: Option<(u8, bool)>,
    #[nserde(rename = "w9")] #[nserde(default = "true")] pub b: bool,
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub cc: Option<T>,
    pub d_1: u8,
}
#[derive(SerRon, DeRon)]
pub struct Ks45<T> where T: Clone {
    pub a: Duration,
    #[nserde(default)] pub b: Uni,
    #[nserde(default_with = "dw_u8")] pub cc: u8,
    pub d_1: (T, String),
    #[nserde(rename = "Yy")] #[nserde(serialize_none_as_null)] pub e: Option<Uni>,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks46<T = u8> {
    #[nserde(rename = "b2")] #[nserde(default)] pub a: u8,
    #[nserde(skip)] pub b: [Option<bool>; 2],
    #[nserde(skip)] pub cc: u8,
    pub d_1: T,
}
#[derive(SerRon, DeRon)]
pub struct Ks48<const N: usize> {
    #[nserde(skip)] pub a: Option<u8>,
    #[nserde(default = "a b")] pub b: String,
    #[nserde(default = "true")] pub cc: Option<bool>,
    #[nserde(skip)] pub d_1: Option<bool>,
    pub e: [u8; N],
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks49<const N: usize> {
    pub a: i32,
    #[nserde(rename = "w9")] #[nserde(serialize_none_as_null)] pub b: Option<Vec<u8>>,
    pub cc: [u8; N],
    #[nserde(default_with = "dw_vec")] pub d_1: Vec<u8>,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks50 {
    #[nserde(rename = "a")] pub a: Uni,
    #[nserde(rename = "w9")] #[nserde(default)] pub b: Vec<String>,
    #[nserde(rename = "e")] #[nserde(skip)] pub cc: Option<Uni>,
    #[nserde(default = "true")] #[nserde(skip)] pub d_1: bool,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks51<T> where T: Clone {
    #[nserde(rename = "a")] pub a: Box<String>,
    #[nserde(serialize_none_as_null)] pub b: Option<Box<u8>>,
    pub cc: BTreeMap<u8, Option<String>>,
    #[nserde(default_with = "dw_opt")] pub d_1: Option<u8>,
    #[nserde(serialize_none_as_null)] pub e: Option<T>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks52 {
    pub a: BTreeMap<u8, Option<String>>,
    #[nserde(default)] pub b: BTreeMap<u8, Option<String>>,
    #[nserde(default = "a b")] pub cc: String,
    #[nserde(serialize_none_as_null)] pub d_1: Option<Box<u8>>,
    #[nserde(rename = "e")] #[nserde(default = "5")] pub e: u8,
}
#[derive(SerRon, DeRon)]
pub struct Ks53<T, U> {
    #[nserde(rename = "a")] #[nserde(default = "a b")] pub a: String,
    #[nserde(rename = "fn_")] #[nserde(skip)] pub b: BTreeSet<i32>,
    #[nserde(rename = "ex")] #[nserde(serialize_none_as_null)] pub cc: Option<T>,
    #[nserde(rename = "z")] pub d_1: Option<String>,
    pub e: Vec<T>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks55<T> {
    #[nserde(rename = "fn_")] #[nserde(skip)] pub a: BTreeMap<u8, Option<String>>,
    pub b: Option<T>,
    pub cc: u8,
    pub d_1: BTreeMap<u8, Option<String>>,
    #[nserde(rename = "z")] #[nserde(skip)] pub e: Uni,
}
#[derive(SerRon, DeRon)]
#[nserde(default_with = "Default::default")]
pub struct Ks56<T> where T: Clone {
    #[nserde(default = "-9000000000")] pub a: i64,
    #[nserde(default)] pub b: Option<String>,
    #[nserde(rename = "w9")] #[nserde(default)] pub cc: (u8, String),
    #[nserde(serialize_none_as_null)] pub d_1: Option<T>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
#[nserde(serialize_none_as_null)]
pub struct Ks57<T, U> {
    #[nserde(default)] pub a: Opts,
    pub b: Option<T>,
    #[nserde(default = "true")] #[nserde(skip)] pub cc: Option<bool>,
    #[nserde(rename = "Yy")] #[nserde(skip)] pub d_1: Opts,
    #[nserde(rename = "Yyx")] #[nserde(skip)] pub e: Vec<String>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks58<T> {
    #[nserde(rename = "a")] pub a: f64,
    #[nserde(default)] pub b: BTreeMap<String, u8>,
    #[nserde(rename = "e")] pub cc: Option<T>,
    pub d_1: Vec<Option<bool>>,
    #[nserde(rename = "ax")] #[nserde(default)] pub e: Option<(u8, bool)>,
}
#[derive(SerRon, DeRon)]
#[nserde(default)]
pub struct Ks59<T, U> {
    pub a: Option<T>,
    #[nserde(default_with = "dw_opt")] pub b: Option<u8>,
    #[nserde(rename = "fn_")] #[nserde(default)] pub cc: u8,
    #[nserde(default)] pub d_1: Option<Plain>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks60<T, U> {
    #[nserde(rename = "a")] #[nserde(default = "2.5")] pub a: f64,
    #[nserde(rename = "w9")] #[nserde(default = "3")] pub b: Option<u8>,
    #[nserde(serialize_none_as_null)] pub cc: Option<T>,
    pub u_: Vec<U>,
}
#[derive(SerRon, DeRon)]
#[nserde(serialize_none_as_null)]
pub struct Ks61<const N: usize> {
    #[nserde(default_with = "dw_u8")] pub a: u8,
    pub b: String,
    pub cc: [u8; N],
    #[nserde(rename = "z")] pub d_1: [u8; N],
    #[nserde(rename = "Yy")] pub e: [u8; N],
}
#[derive(SerRon, DeRon)]
pub enum Ke3<T> {
    A([u8; 2], f64, Option<(u8, bool)>, Duration, i64),
    Bb(u8, Option<u8>),
    C_ { av2: Vec<T>, #[nserde(default)] bv2: i64, #[nserde(rename = "e")] #[nserde(default)] ccv2: Vec<String>, #[nserde(rename = "b2")] d_1v2: Option<(u8, bool)> },
    D1 { #[nserde(rename = "e")] #[nserde(default)] av3: Option<Box<u8>> },
    Ee { #[nserde(rename = "fn_")] av4: (T, String), bv4: Option<Box<u8>>, #[nserde(skip)] ccv4: Vec<String>, #[nserde(default)] d_1v4: Option<Plain> },
}
#[derive(SerRon, DeRon)]
pub enum Ke4<T: Clone> {
    A,
    Bb { av1: String, #[nserde(default)] bv1: LinkedList<String>, ccv1: Option<T> },
    C_([u8; 2], (), Vec<u8>, Vec<Option<bool>>, Option<String>),
    D1,
    Ee(u8),
}
#[derive(SerRon, DeRon)]
pub enum Ke5<T> where T: Clone {
    A(Vec<u8>, i64, New),
    Bb { #[nserde(rename = "fn_")] #[nserde(skip)] av1: BTreeMap<u8, Option<String>>, #[nserde(rename = "w9")] bv1: Option<bool>, #[nserde(default = "true")] ccv1: Option<bool> },
    C_(T),
    D1(Option<String>, (), String, Uni, (), Vec<Option<bool>>),
    Ee,
}
#[derive(SerRon, DeRon)]
pub enum Ke8 {
    A { av0: Option<Plain>, bv0: Option<Vec<u8>>, #[nserde(default)] ccv0: bool, #[nserde(rename = "z")] #[nserde(default)] d_1v0: Option<Plain> },
    Bb { av1: Uni },
    C_ { av2: Option<bool>, #[nserde(default = "3")] bv2: Option<u8>, #[nserde(skip)] ccv2: BTreeSet<i32>, #[nserde(skip)] d_1v2: Option<Box<u8>> },
    D1 { #[nserde(skip)] av3: Vec<u8>, #[nserde(rename = "ax")] #[nserde(default)] bv3: LinkedList<String>, #[nserde(rename = "w9")] ccv3: String },
    Ee(String, Option<u8>, (u8, String)),
}
#[derive(SerRon, DeRon)]
pub enum Ke9 {
    A((u8, String), Vec<Option<bool>>, Option<(u8, bool)>, Option<String>),
    Bb,
    C_ { #[nserde(rename = "a")] #[nserde(default = "-7")] av2: i32, #[nserde(rename = "fn_")] bv2: Uni, #[nserde(rename = "w9")] ccv2: Duration, #[nserde(skip)] d_1v2: f64 },
    D1 { #[nserde(default)] av3: i64, #[nserde(rename = "e")] bv3: Plain, #[nserde(skip)] ccv3: Option<String>, #[nserde(rename = "ex")] d_1v3: New },
    Ee(BTreeMap<String, u8>),
}
#[derive(SerRon, DeRon)]
pub enum Ke10<T> {
    A { av0: BTreeMap<u8, Option<String>>, #[nserde(default)] bv0: (u8, String), #[nserde(rename = "e")] ccv0: Option<T>, #[nserde(rename = "z")] #[nserde(skip)] d_1v0: bool },
    Bb { av1: T, #[nserde(rename = "w9")] #[nserde(skip)] bv1: Vec<String>, #[nserde(default)] ccv1: u8, #[nserde(rename = "e")] #[nserde(skip)] d_1v1: i64 },
    C_(T, String),
    D1(Vec<T>, Option<u8>, Vec<T>, Uni, Option<(u8, bool)>),
}
#[derive(SerRon, DeRon)]
pub enum Ke13 {
    A { #[nserde(skip)] av0: Vec<Option<bool>>, #[nserde(rename = "fn_")] #[nserde(skip)] bv0: (u8, String), #[nserde(default = "-9000000000")] ccv0: i64 },
    Bb { #[nserde(rename = "a")] #[nserde(default)] av1: [u8; 2], #[nserde(rename = "ax")] #[nserde(skip)] bv1: LinkedList<String>, #[nserde(skip)] ccv1: [u8; 2], d_1v1: BTreeSet<i32> },
    C_ { #[nserde(rename = "fn_")] #[nserde(skip)] av2: Option<bool> },
    D1,
    Ee,
}
#[derive(SerRon, DeRon)]
pub enum Ke14 {
    A(Option<u8>),
    Bb { #[nserde(rename = "a")] av1: BTreeSet<i32>, bv1: Vec<String> },
    C_ { av2: Option<Vec<u8>>, #[nserde(rename = "fn_")] bv2: Box<String>, #[nserde(rename = "w9")] #[nserde(skip)] ccv2: Box<String> },
    D1(Duration, i64),
    Ee { #[nserde(default)] av4: Vec<u8>, #[nserde(rename = "w9")] bv4: Vec<String>, #[nserde(default)] ccv4: Uni },
}
#[derive(SerRon, DeRon)]
pub enum Ke15 {
    A { av0: BTreeSet<i32>, bv0: BTreeMap<String, u8>, ccv0: (), d_1v0: Uni },
    Bb { #[nserde(skip)] av1: u8, bv1: New, #[nserde(rename = "e")] ccv1: Vec<String>, #[nserde(rename = "Yy")] d_1v1: Opts },
    C_(i64, Duration, u8, Duration),
    D1 { #[nserde(default = "true")] av3: bool, #[nserde(rename = "fn_")] #[nserde(skip)] bv3: i32, #[nserde(rename = "w9")] #[nserde(skip)] ccv3: i32, #[nserde(default)] d_1v3: String },
    Ee(Option<bool>),
}
#[derive(SerRon, DeRon)]
pub enum Ke17 {
    A(Vec<u8>),
    Bb { #[nserde(rename = "a")] av1: Duration, bv1: i64, #[nserde(rename = "Yy")] #[nserde(default)] ccv1: Option<(u8, bool)> },
    C_ { #[nserde(rename = "a")] #[nserde(default = "a b")] av2: String, #[nserde(default = "-7")] #[nserde(skip)] bv2: i32, #[nserde(rename = "w9")] ccv2: f64 },
}
#[derive(SerRon, DeRon)]
pub enum Ke18<T: Clone> {
    A { av0: Option<Box<u8>>, #[nserde(skip)] bv0: i64, #[nserde(rename = "e")] #[nserde(default)] ccv0: () },
    Bb { #[nserde(rename = "Yy")] av1: T, bv1: New, ccv1: Option<T>, #[nserde(default = "2.5")] #[nserde(skip)] d_1v1: f64 },
    C_(Uni, String, u8, New, (u8, String), Vec<u8>),
    D1(Vec<T>, f64, [u8; 2], u8, BTreeMap<String, u8>),
}
#[derive(SerRon, DeRon)]
pub enum Ke19<T: Clone> {
    A((), BTreeMap<String, u8>),
    Bb { #[nserde(rename = "a")] #[nserde(skip)] av1: i32, #[nserde(rename = "w9")] #[nserde(default = "true")] bv1: bool },
    C_(u8, (), bool),
    D1(Plain, Vec<u8>, i64, Option<(u8, bool)>),
    Ee { #[nserde(rename = "a")] #[nserde(default)] av4: (u8, String), bv4: Vec<T> },
}
#[derive(SerRon, DeRon)]
pub enum Ke20<T: Clone> {
    A { #[nserde(default)] av0: BTreeMap<u8, Option<String>> },
    Bb { #[nserde(rename = "w9")] #[nserde(default)] av1: Vec<Option<bool>>, #[nserde(skip)] bv1: Option<Uni>, #[nserde(rename = "e")] ccv1: Vec<T>, d_1v1: Opts },
    C_ { #[nserde(skip)] av2: Box<String>, #[nserde(rename = "fn_")] bv2: i64 },
    D1(Uni, Vec<T>),
    Ee { #[nserde(rename = "fn_")] av4: (T, String), #[nserde(skip)] bv4: Option<u8> },
}
#[derive(SerRon, DeRon)]
pub enum Ke21<T: Clone> {
    A(Option<bool>, (), Option<u8>),
    Bb { av1: (T, String), #[nserde(rename = "w9")] bv1: (T, String), #[nserde(rename = "ax")] ccv1: T },
    C_([u8; 2], Option<(u8, bool)>, Vec<T>, u8, Plain, Option<String>),
    D1 { #[nserde(default = "-9000000000")] #[nserde(skip)] av3: i64, #[nserde(rename = "fn_")] #[nserde(default)] bv3: BTreeSet<i32>, #[nserde(default)] ccv3: BTreeSet<i32>, d_1v3: [u8; 2] },
}
#[derive(SerRon, DeRon)]
pub enum Ke24<T: Clone> {
    A { #[nserde(rename = "a")] #[nserde(default)] av0: BTreeSet<i32>, #[nserde(rename = "fn_")] #[nserde(skip)] bv0: BTreeSet<i32>, ccv0: T, d_1v0: (u8, String) },
    Bb { #[nserde(rename = "a")] #[nserde(default)] av1: [u8; 2], #[nserde(default)] bv1: String, ccv1: Vec<T> },
    C_(Box<String>, f64),
    D1(Duration),
    Ee { #[nserde(default)] av4: f64, bv4: (T, String), #[nserde(rename = "Yy")] ccv4: Option<(u8, bool)>, d_1v4: [u8; 2] },
}
#[derive(SerRon, DeRon)]
pub enum Ke25 {
    A { #[nserde(default)] av0: Option<(u8, bool)>, #[nserde(rename = "e")] #[nserde(skip)] bv0: Plain, #[nserde(skip)] ccv0: (u8, String) },
    Bb(Vec<u8>),
    C_ { #[nserde(rename = "fn_")] #[nserde(default)] av2: Option<Uni>, #[nserde(default = "a b")] bv2: String, #[nserde(rename = "z")] #[nserde(default)] ccv2: [Option<bool>; 2], #[nserde(rename = "zx")] d_1v2: Option<bool> },
    D1(Option<bool>, (u8, String)),
}
#[derive(SerRon, DeRon)]
pub enum Ke27 {
    A { av0: Plain, #[nserde(rename = "w9")] #[nserde(default)] bv0: Option<Vec<u8>>, #[nserde(default)] ccv0: Option<Box<u8>>, #[nserde(skip)] d_1v0: u8 },
    Bb { #[nserde(rename = "fn_")] av1: Option<Vec<u8>>, #[nserde(rename = "e")] bv1: Vec<Option<bool>>, #[nserde(rename = "Yy")] #[nserde(skip)] ccv1: Option<Box<u8>>, #[nserde(rename = "ex")] #[nserde(skip)] d_1v1: BTreeMap<String, u8> },
    C_ { #[nserde(default)] av2: Vec<String>, bv2: Option<Plain> },
    D1 { #[nserde(default_with = "dw_s")] av3: String, #[nserde(rename = "w9")] #[nserde(default)] bv3: BTreeMap<u8, Option<String>>, ccv3: BTreeMap<String, u8>, #[nserde(rename = "z")] d_1v3: Option<Vec<u8>> },
}
#[derive(SerRon, DeRon)]
pub enum Ke29 {
    A { #[nserde(rename = "w9")] #[nserde(skip)] av0: Plain, bv0: [Option<bool>; 2], #[nserde(rename = "w9x")] #[nserde(skip)] ccv0: Uni, #[nserde(default)] d_1v0: Vec<Option<bool>> },
    Bb,
    C_ { #[nserde(rename = "w9")] av2: Plain, #[nserde(rename = "fn_")] bv2: String, #[nserde(rename = "z")] #[nserde(skip)] ccv2: Vec<Option<bool>>, d_1v2: () },
    D1 { #[nserde(rename = "fn_")] #[nserde(skip)] av3: bool, #[nserde(rename = "fn_x")] #[nserde(skip)] bv3: [u8; 2], #[nserde(rename = "e")] #[nserde(default)] ccv3: Option<String> },
    Ee(()),
}
#[derive(SerRon, DeRon)]
pub enum Ke30 {
    A { #[nserde(rename = "fn_")] #[nserde(default)] av0: bool, #[nserde(skip)] bv0: Uni, #[nserde(rename = "e")] #[nserde(skip)] ccv0: Option<String> },
}
#[derive(SerRon, DeRon)]
pub enum Ke31 {
    A([u8; 2]),
    Bb { #[nserde(rename = "a")] #[nserde(default = "-7")] av1: i32, bv1: Vec<String> },
    C_ { #[nserde(rename = "a")] av2: BTreeMap<String, u8> },
    D1 { #[nserde(default = "a b")] #[nserde(skip)] av3: String },
    Ee { #[nserde(rename = "w9")] #[nserde(default)] av4: Vec<Option<bool>> },
}
#[derive(SerRon, DeRon)]
pub enum Ke32 {
    A { #[nserde(rename = "fn_")] #[nserde(default)] av0: Option<u8>, #[nserde(default = "true")] #[nserde(skip)] bv0: bool },
    Bb { av1: i32 },
    C_ { #[nserde(rename = "a")] #[nserde(skip)] av2: Box<String>, #[nserde(rename = "w9")] #[nserde(default)] bv2: Option<Vec<u8>>, #[nserde(rename = "w9x")] #[nserde(default = "-9000000000")] ccv2: i64 },
    D1,
    Ee { #[nserde(skip)] av4: [Option<bool>; 2], #[nserde(rename = "e")] #[nserde(default)] bv4: Plain, #[nserde(rename = "ex")] #[nserde(default)] ccv4: Option<bool>, #[nserde(rename = "exx")] #[nserde(default)] d_1v4: i32 },
}
#[derive(SerRon, DeRon)]
pub enum Ke33 {
    A((), Option<String>),
    Bb { #[nserde(rename = "fn_")] #[nserde(skip)] av1: Option<String>, bv1: Uni },
    C_,
    D1 { #[nserde(rename = "fn_")] av3: Option<String>, #[nserde(default = "-7")] bv3: i32 },
    Ee(String),
}
#[derive(SerRon, DeRon)]
pub enum Ke34<T> where T: Clone {
    A(Duration, Option<u8>, Option<(u8, bool)>),
    Bb { av1: Option<T>, #[nserde(rename = "w9")] #[nserde(skip)] bv1: Option<Vec<u8>>, #[nserde(rename = "e")] ccv1: (T, String), #[nserde(rename = "z")] #[nserde(skip)] d_1v1: Option<Uni> },
    C_((u8, String), bool, T, (u8, String)),
    D1(f64, BTreeMap<String, u8>, i64, Vec<Option<bool>>, BTreeMap<String, u8>, Vec<T>),
}
#[derive(SerRon, DeRon)]
pub struct Kt0<T: Clone>(pub New, pub BTreeMap<String, u8>, pub (), pub T, pub [u8; 2], pub Box<String>, pub Option<bool>);
#[derive(SerRon, DeRon)]
pub struct Kt2<T>(pub Box<String>, pub Option<(u8, bool)>, pub Vec<u8>, pub Vec<Option<bool>>, pub Vec<T>, pub u8);
#[derive(SerRon, DeRon)]
pub struct Kt4(pub Option<u8>, pub String, pub Plain, pub bool, pub f64);
#[derive(SerRon, DeRon)]
pub struct Kt8(pub (), pub u8, pub BTreeMap<String, u8>, pub [u8; 2]);
#[derive(SerRon, DeRon)]
pub struct Kt10<T>(pub Plain, pub T, pub bool, pub String, pub Option<(u8, bool)>, pub (u8, String), pub i64);
#[derive(SerRon, DeRon)]
pub struct Kt12(pub u8, pub (u8, String), pub BTreeMap<String, u8>);
#[derive(SerRon, DeRon)]
pub struct Kt16<T: Clone>(pub Option<u8>, pub T);
#[derive(SerRon, DeRon)]
pub struct Kt19<T: Clone>(pub Vec<T>, pub Option<T>, pub Option<bool>);
#[derive(SerRon, DeRon)]
pub struct Kt22<T>(pub T, pub Vec<T>, pub T, pub Option<u8>, pub Vec<T>) where T: Clone ;
#[derive(SerRon, DeRon)]
pub struct Kt24<T>(pub String, pub T, pub BTreeMap<String, u8>);
