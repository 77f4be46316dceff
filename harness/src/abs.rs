//! Abstraction between Rust values and the values of the specification.
pub use crate::jv::{cps, J};
use std::collections::{BTreeMap, BTreeSet, LinkedList};
use std::time::Duration;

pub trait Abs: Sized {
    fn to_abs(&self) -> J;
    fn from_abs(v: &J) -> Self;
}
pub fn t1(tag: &str, x: J) -> J { J::A(vec![J::S(tag.into()), x]) }
pub fn rec(v: Vec<J>) -> J { t1("rec", J::A(v)) }
pub fn tup(v: Vec<J>) -> J { t1("tup", J::A(v)) }
pub fn seq(v: Vec<J>) -> J { t1("seq", J::A(v)) }
pub fn var(i: i64, v: Vec<J>) -> J { J::A(vec![J::S("var".into()), J::N(i), J::A(v)]) }
impl J {
    pub fn list(&self) -> &Vec<J> { self.a()[1].a() }
    pub fn variant(&self) -> (i64, &Vec<J>) { (self.a()[1].n(), self.a()[2].a()) }
    pub fn lex(&self) -> String { self.a()[1].text() }
}
macro_rules! ints { ($($t:ty)*) => { $(impl Abs for $t {
    fn to_abs(&self) -> J { t1("int", cps(&self.to_string())) }
    fn from_abs(v: &J) -> Self { v.lex().parse().unwrap() }
})* } }
ints!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 i128);
macro_rules! flts { ($($t:ty)*) => { $(impl Abs for $t {
    fn to_abs(&self) -> J { t1("fltb", J::A(self.to_le_bytes().iter().map(|b| J::N(*b as i64)).collect())) }
    fn from_abs(v: &J) -> Self {
        if v.tag() == "fltb" { let b = v.a()[1].bytes(); <$t>::from_le_bytes(b.try_into().unwrap()) } else { v.lex().parse::<$t>().unwrap() }
    }
})* } }
flts!(f32 f64);
impl Abs for bool {
    fn to_abs(&self) -> J { t1("bool", J::N(*self as i64)) }
    fn from_abs(v: &J) -> Self { v.a()[1].n() == 1 }
}
impl Abs for String {
    fn to_abs(&self) -> J { t1("str", cps(self)) }
    fn from_abs(v: &J) -> Self { v.lex() }
}
impl Abs for () {
    fn to_abs(&self) -> J { J::A(vec![J::S("unit".into())]) }
    fn from_abs(_: &J) -> Self {}
}
impl<T: Abs> Abs for Option<T> {
    fn to_abs(&self) -> J { match self { Some(x) => t1("some", x.to_abs()), None => J::A(vec![J::S("none".into())]) } }
    fn from_abs(v: &J) -> Self { if v.tag() == "none" { None } else { Some(T::from_abs(&v.a()[1])) } }
}
impl<T: Abs> Abs for Box<T> {
    fn to_abs(&self) -> J { (**self).to_abs() }
    fn from_abs(v: &J) -> Self { Box::new(T::from_abs(v)) }
}
impl<T: Abs> Abs for Vec<T> {
    fn to_abs(&self) -> J { seq(self.iter().map(|x| x.to_abs()).collect()) }
    fn from_abs(v: &J) -> Self { v.list().iter().map(T::from_abs).collect() }
}
impl<T: Abs> Abs for LinkedList<T> {
    fn to_abs(&self) -> J { seq(self.iter().map(|x| x.to_abs()).collect()) }
    fn from_abs(v: &J) -> Self { v.list().iter().map(T::from_abs).collect() }
}
impl<T: Abs + Ord> Abs for BTreeSet<T> {
    fn to_abs(&self) -> J { seq(self.iter().map(|x| x.to_abs()).collect()) }
    fn from_abs(v: &J) -> Self { v.list().iter().map(T::from_abs).collect() }
}
impl<K: Abs + Ord, V: Abs> Abs for BTreeMap<K, V> {
    fn to_abs(&self) -> J { t1("map", J::A(self.iter().map(|(k, v)| J::A(vec![k.to_abs(), v.to_abs()])).collect())) }
    fn from_abs(v: &J) -> Self { v.list().iter().map(|p| (K::from_abs(&p.a()[0]), V::from_abs(&p.a()[1]))).collect() }
}
#[cfg(feature = "std")]
impl<T: Abs + Eq + std::hash::Hash> Abs for std::collections::HashSet<T> {
    fn to_abs(&self) -> J { let mut v: Vec<J> = self.iter().map(|x| x.to_abs()).collect(); v.sort_by_cached_key(|x| x.show()); seq(v) }
    fn from_abs(v: &J) -> Self { v.list().iter().map(T::from_abs).collect() }
}
#[cfg(feature = "std")]
impl<K: Abs + Eq + std::hash::Hash, V: Abs> Abs for std::collections::HashMap<K, V> {
    fn to_abs(&self) -> J { let mut v: Vec<J> = self.iter().map(|(k, v)| J::A(vec![k.to_abs(), v.to_abs()])).collect(); v.sort_by_cached_key(|x| x.show()); t1("map", J::A(v)) }
    fn from_abs(v: &J) -> Self { v.list().iter().map(|p| (K::from_abs(&p.a()[0]), V::from_abs(&p.a()[1]))).collect() }
}
impl<T: Abs, const N: usize> Abs for [T; N] {
    fn to_abs(&self) -> J { seq(self.iter().map(|x| x.to_abs()).collect()) }
    fn from_abs(v: &J) -> Self { let l = v.list(); assert_eq!(l.len(), N); std::array::from_fn(|i| T::from_abs(&l[i])) }
}
macro_rules! tups { ($($n:ident $i:tt),*) => { impl<$($n: Abs),*> Abs for ($($n,)*) {
    fn to_abs(&self) -> J { tup(vec![$(self.$i.to_abs()),*]) }
    fn from_abs(v: &J) -> Self { let l = v.list(); ($($n::from_abs(&l[$i]),)*) }
} } }
tups!(A 0, B 1);
tups!(A 0, B 1, C 2);
tups!(A 0, B 1, C 2, D 3);
impl Abs for Duration {
    fn to_abs(&self) -> J { J::A(vec![J::S("dur".into()), cps(&self.as_secs().to_string()), cps(&self.subsec_nanos().to_string())]) }
    fn from_abs(v: &J) -> Self { Duration::new(v.a()[1].text().parse().unwrap(), v.a()[2].text().parse().unwrap()) }
}
#[cfg(feature = "std")]
impl Abs for std::time::SystemTime {
    fn to_abs(&self) -> J {
        let d = match self.duration_since(std::time::SystemTime::UNIX_EPOCH) { Ok(d) => d, Err(_) => return J::S("before".into()) };
        J::A(vec![J::S("sys".into()), cps(&d.as_secs().to_string()), cps(&d.subsec_nanos().to_string())])
    }
    fn from_abs(v: &J) -> Self { std::time::SystemTime::UNIX_EPOCH + Duration::new(v.a()[1].text().parse().unwrap(), v.a()[2].text().parse().unwrap()) }
}
