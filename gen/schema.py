"""The corpus of types; writes spec/Schemas.tla and harness/src/types_*.rs."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dsl import *

u8, u16, u32, u64, usize = T["u8"], T["u16"], T["u32"], T["u64"], T["usize"]
i8, i16, i32, i64, u128, i128 = T["i8"], T["i16"], T["i32"], T["i64"], T["u128"], T["i128"]
f32, f64, bl, S, unit, dur, sys_ = T["f32"], T["f64"], T["bool"], T["String"], T["()"], T["Duration"], T["SystemTime"]

ROOTS = []          # (type, tags)
def root(t, *tags): ROOTS.append((t, set(tags))); return t

for t in (u8, u16, u32, u64, usize, i8, i16, i32, i64, u128, i128): root(t, "prim", "int")
root(f32, "prim", "flt"); root(f64, "prim", "flt"); root(bl, "prim"); root(S, "prim", "str"); root(unit, "prim")
root(dur, "time"); root(sys_, "time")

# ---- containers ----
for t in (Opt(u8), Opt(S), Opt(Vec(u8)), Vec(Opt(u8)), Vec(Opt(S)), Opt(Tup(u8, S)), Opt(bl)): root(t, "opt", "coll")
for t in (Vec(u8), Vec(S), Vec(i64), Vec(Vec(u16)), Vec(f64), Vec(bl), LL(u16), LL(S), LL(Vec(u8)), BSet(i8), BSet(S), BSet(u32), HSet(u8), HSet(S),
          BMap(S, u8), BMap(S, S), BMap(u8, S), HMap(S, i64), HMap(u16, Vec(S)), BMap(S, Vec(Opt(u16))), BMap(S, BMap(S, u8)),
          HMap(S, HSet(u8)), Vec(BMap(S, bl)), BSet(Tup(u8, S)), BMap(Tup(i8, u8), u8), BMap(i16, f64)): root(t, "coll")
root(Vec(unit), "zst")
root(Box(u32), "prim"); root(Vec(Box(S)), "coll"); root(Opt(Box(u64)), "opt")
for t in (Arr(u8, 0), Arr(u8, 1), Arr(u8, 3), Arr(S, 2), Arr(Arr(u8, 2), 3), Arr(Arr(u8, 0), 2), Arr(Arr(u16, 2), 0), Arr(Opt(u8), 2), Arr(Vec(u8), 2),
          Arr(f32, 2), Arr(Tup(u8, S), 2), Arr(u8, 40), Arr(BMap(S, u8), 2), Arr(unit, 3)): root(t, "arity")
for t in (Tup(u8, S), Tup(u8, u16, S), Tup(u8, u16, u32, S), Tup(Tup(u8, u8), u8), Tup(Vec(u8), Opt(S)), Tup(Arr(u8, 2), bl, f64),
          Tup(Opt(u8), Opt(u8)), Tup(u8, Tup(u16, Tup(u32, u64)))): root(t, "arity")
for t in (Vec(dur), Opt(dur), BMap(S, dur), Opt(sys_), Tup(dur, sys_), Vec(Tup(u8, dur)), Arr(dur, 2)): root(t, "time")

# ---- structs ----
Unit1 = root(UStruct("Unit1"), "arity", "struct")
Plain = root(Struct("Plain", [F("a", u8), F("b", S), F("c", i32)], dflt=True), "struct", "field")
Keyed = Struct("Keyed", [F("x", u8), F("y", i16)], key=True, dflt=True)
root(BMap(Keyed, u8), "coll"); root(BSet(Keyed), "coll")
AllPrim = root(Struct("AllPrim", [F("a", u8), F("b", u16), F("c", u32), F("d", u64), F("e", usize), F("f", i8), F("g", i16), F("h", i32), F("i", i64),
                             F("j", f32), F("k", f64), F("l", bl), F("m", S), F("n", unit)]), "struct")
Wide = root(Struct("Wide", [F("big", u128), F("neg", i128), F("t", Tup(u128, u8))]), "struct")
Empty = root(Struct("Empty", []), "struct", "field")
Opts = root(Struct("Opts", [F("a", Opt(u8)), F("b", Opt(S)), F("c", u8), F("d", Opt(Vec(u8)))], dflt=True), "struct", "field", "opt")
AllOpt = root(Struct("AllOpt", [F("a", Opt(u8)), F("b", Opt(bl))]), "struct", "field", "opt")
Ren = root(Struct("Ren", [F("a", u8, rename="b"), F("b", u8, rename="c"), F("c", Opt(u8), rename="fooBar"), F("d", S, rename="D")]), "struct", "field")
RenEsc = root(Struct("RenEsc", [F("a", u8, rename="a b"), F("b", u8, rename="q\"q"), F("c", u8, rename="\\"), F("d", Opt(u8), rename="é€")], fmts="j"), "struct", "field")
Def = root(Struct("Def", [F("a", u8, default=True), F("b", u16, default=("513", vint(513))), F("c", S, default=("hi there", vstr("hi there"))), F("d", i32),
                      F("e", Vec(u8), default_with=("dw_vec", vseq(vint(7), vint(9)))), F("f", i64, default=("-5", vint(-5)))]), "struct", "field")
DefOpt = root(Struct("DefOpt", [F("a", Opt(u8), default=("3", vsome(vint(3))[1])), F("b", Opt(S), default=True), F("c", Opt(u8), default_with=("dw_opt", vsome(vint(8)))), F("d", u8)]), "struct", "field", "lossopt")
DefOptS = root(Struct("DefOptS", [F("a", Opt(S), default=("str", vstr("str"))), F("d", u8)], fmts="j"), "struct", "field", "lossopt")
CDef = root(Struct("CDef", [F("a", u8), F("b", S), F("c", Opt(u8)), F("d", Plain), F("e", u16, default=("77", vint(77)))], default=True), "struct", "field")
CDefW = root(Struct("CDefW", [F("a", u8), F("b", Vec(S)), F("c", i16, default_with=("dw_i16", vint(-300)))], default_with="Default::default"), "struct", "field")
Skip = root(Struct("Skip", [F("a", u8), F("b", u16, skip=True), F("c", S), F("d", S, skip=True, default=("dd", vstr("dd"))), F("e", Opt(u8), skip=True),
                        F("g", u8, skip=True, default_with=("dw_u8", vint(211))), F("h", Opt(u8))]), "struct", "field")
SkipFirst = root(Struct("SkipFirst", [F("a", u8, skip=True), F("b", Opt(u8)), F("c", u8)]), "struct", "field")
SkipAll = root(Struct("SkipAll", [F("a", u8, skip=True), F("b", S, skip=True)]), "struct", "field")
Nulls = root(Struct("Nulls", [F("a", Opt(u8), null=True), F("b", Opt(u8)), F("c", Opt(S), null=True), F("d", u8)]), "struct", "field", "opt")
CNulls = root(Struct("CNulls", [F("a", Opt(u8)), F("b", Opt(S)), F("c", u8)], null=True), "struct", "field", "opt")
RenSkip = root(Struct("RenSkip", [F("a", u8, rename="x"), F("x", u8, skip=True), F("y", Opt(u8), rename="a"), F("z", u8, rename="w", default=("9", vint(9)))]), "struct", "field")
Nest = root(Struct("Nest", [F("p", Plain), F("o", Opt(Opts)), F("v", Vec(Plain)), F("m", BMap(S, Plain)), F("t", Tup(Plain, u8)), F("r", Arr(AllOpt, 2))]), "struct")
Colls = root(Struct("Colls", [F("a", Vec(u16)), F("b", LL(S)), F("c", BSet(u8)), F("d", BMap(S, i32)), F("e", Arr(u8, 2)), F("f", Tup(bl, f64)), F("g", Box(u8))]), "struct", "coll")
HColls = root(Struct("HColls", [F("a", HSet(u8)), F("b", HMap(S, u8))]), "struct", "coll")
Times = root(Struct("Times", [F("d", dur), F("o", Opt(dur)), F("v", Vec(dur))]), "time")
Under = root(Struct("Under", [F("_a", u8), F("a_b", u8), F("a1", u8, rename="a_1"), F("type_", S, rename="type")]), "struct", "field")
One = root(Struct("One", [F("only", S)]), "struct", "field")
Tree = root(Struct("Tree", [F("v", u8), F("kids", Vec(Ref("Tree", "Tree")))], recursive=True), "struct", "rec")
Chain = root(Struct("Chain", [F("v", u8), F("next", Opt(Box(Ref("Chain", "Chain"))))], recursive=True), "struct", "rec")

# ---- tuple structs ----
New = root(TStruct("New", [u8]), "arity", "struct")
NewT = root(TStruct("NewT", [S], transparent=True, fmts="j"), "arity", "struct")
NewTV = root(TStruct("NewTV", [Vec(Opt(u8))], transparent=True, fmts="j"), "arity", "struct")
Pair = root(TStruct("Pair", [u8, S]), "arity", "struct")
Trip = root(TStruct("Trip", [Opt(u8), Vec(u8), New]), "arity", "struct")
Quint = root(TStruct("Quint", [u8, u16, u32, u64, i8]), "arity", "struct")
HoldT = root(Struct("HoldT", [F("a", New), F("b", Pair), F("c", Opt(New)), F("d", Vec(Pair)), F("u", Tup(New, u8))]), "arity", "struct")
HoldN = root(Struct("HoldN", [F("a", NewT), F("b", Unit1), F("c", Opt(NewT))], fmts="j"), "arity", "struct")

# ---- enums ----
Uni = root(Enum("Uni", [V("A"), V("B"), V("Ab"), V("ABC"), V("a")], key=True, dflt=1), "enum")
Mix = root(Enum("Mix", [V("U"), V("T1", [u8]), V("T2", [u8, S]), V("R", [F("a", u8), F("b", S)]), V("V", [Vec(u8)]), V("U2"), V("O", [Opt(u8), Opt(u8)]), V("W", [F("u", Opt(u8))])]), "enum")
RenV = root(Enum("RenV", [V("A", rename="B"), V("B", rename="A"), V("C", [u8], rename="see me"), V("D", [F("x", u8, rename="y"), F("y", u8, rename="x")], rename="D2"), V("E")]), "enum")
RenVE = root(Enum("RenVE", [V("A", rename="q\"\\"), V("B", [u8], rename="é\n"), V("C", [F("a", u8)], rename="")], fmts="j"), "enum")
FieldV = root(Enum("FieldV", [V("R", [F("a", Opt(u8)), F("b", u8, default=("5", vint(5))), F("c", u8, skip=True), F("d", Opt(S), rename="dee")]), V("Q", [F("a", u8, rename="b"), F("b", Opt(u8), rename="a")]), V("U")]), "enum", "field")
AllOptV = root(Enum("AllOptV", [V("R", [F("a", Opt(u8)), F("b", Opt(u8))]), V("T", [Opt(u8)])]), "enum", "field", "opt")
Disc = root(Enum("Disc", [V("A", disc="5"), V("B", disc="300"), V("C"), V("D", disc="1")]), "enum")
Inner = root(Enum("Inner", [V("P", [Uni]), V("Q", [Mix]), V("R", [F("m", Mix), F("u", Uni)]), V("N", [Tup(u8, Uni)]), V("A2", [Arr(Uni, 2)])]), "enum")
Deep = root(Enum("Deep", [V("L", [u8]), V("N", [Box(Ref("Deep", "Deep")), Box(Ref("Deep", "Deep"))]), V("S", [F("next", Vec(Ref("Deep", "Deep")))])], recursive=True), "enum", "rec")
Big = root(Enum("Big", [V("N%d" % i) for i in range(300)] + [V("P", [u8]), V("P2", [u8, S]), V("R", [F("a", u8)]), V("Z")]), "enum", "big")
# names close to the words the formats know
Words = root(Enum("Words", [V("NoneYet"), V("Non"), V("None1", [u8]), V("None_", [F("a", Opt(u8))]), V("none"), V("Some", [u8]), V("Ok", [Opt(u8)])]), "enum", "words")
Words2 = root(Enum("Words2", [V("nul"), V("nullx", [u8]), V("null"), V("True"), V("truex"), V("fals"), V("falsey", [F("nulls", u8)]), V("nan"), V("inf"), V("e5")]), "enum", "words")
WordsJ = root(Enum("WordsJ", [V("A", rename="null"), V("B", rename="true"), V("C", [u8], rename="false"), V("D", rename="None"), V("E", [Opt(u8)], rename="nul"), V("F", rename="1"), V("G", rename="[]")], fmts="j"), "enum", "words")
for t in (Opt(Words), Vec(Opt(Words)), Opt(Words2), Vec(Opt(Words2)), Opt(WordsJ), Vec(Opt(WordsJ)), Tup(Opt(Words), Words2)): root(t, "words", "enum")
WordsF = root(Struct("WordsF", [F("w", Opt(Words)), F("None_", Opt(u8)), F("nullx", u8), F("t", Opt(u8), rename="truey"), F("fals", Opt(Words2)), F("some", Words)]), "struct", "field", "words")
for t in (Vec(RenV), Vec(RenVE), Vec(FieldV), Vec(AllOptV), Vec(Disc), Vec(Inner), Vec(Deep), Vec(Big)): root(t, "inlist")
for t in (Opt(Uni), Vec(Uni), Vec(Mix), BMap(S, Mix), BMap(Uni, u8), Arr(Mix, 2), Tup(Uni, Mix), Opt(Mix), Box(Uni)): root(t, "enum", "coll")
HoldE = root(Struct("HoldE", [F("u", Uni), F("m", Mix), F("o", Opt(Uni)), F("v", Vec(FieldV)), F("d", Uni, default=True)], fmts="jr"), "enum")
HoldEB = root(Struct("HoldEB", [F("u", Uni), F("m", Mix), F("o", Opt(Uni)), F("k", Disc)]), "enum")

# ---- generics and declaration forms ----
G1 = root(Struct("G1__u8", [F("a", u8), F("v", Vec(u8))], rust="G1<u8>", generics="<T>", fieldrust={"a": "T", "v": "Vec<T>"}), "gen", "struct")
G1s = Struct("G1__S", [F("a", S), F("v", Vec(S))], rust="G1<String>", generics="<T>", fieldrust={"a": "T", "v": "Vec<T>"}); root(G1s, "gen", "struct")
G2 = root(Struct("G2__a", [F("k", u16), F("v", Opt(S))], rust="G2<u16, String>", generics="<K, V = u8>", where="where K: Clone, V: Clone ", fieldrust={"k": "K", "v": "Option<V>"}), "gen", "struct")
GC = root(Struct("GC__3", [F("a", Arr(u8, 3)), F("n", u8)], rust="GC<3>", generics="<const N: usize>", fieldrust={"a": "[u8; N]"}), "gen", "struct")
GE = root(Enum("GE__a", [V("A", [u8]), V("B", [F("t", u8), F("u", S)]), V("C"), V("D", [S, u8])], rust="GE<u8, String>", generics="<T, U: Clone>", fieldrust={"A": ["T"], "t": "T", "u": "U", "D": ["U", "T"]}), "gen", "enum")
GT = root(TStruct("GT__a", [u8, S], rust="GT<u8, String>", generics="<A, B>", fieldrust=["A", "B"]), "gen", "struct")

root(Vec(GE), "inlist")
# ---- proxies ----
PROXY = []
def proxied(name, conv, inner, proxy, item, fields, to, frm, **kw):
    """item: struct/enum text; to/frm: Rust bodies of From<&Outer> for Proxy and From<&Proxy> for Outer."""
    body = "@DERIVE@#[nserde(proxy = \"%s\")]\n%s\n" % (proxy.rust, item)
    if not proxy.rust[0].isupper() or "<" in proxy.rust or proxy.rust in ("String",) or proxy.rust.startswith("("):
        pass
    body += "impl From<&%s> for %s { fn from(x: &%s) -> Self { %s } }\nimpl From<&%s> for %s { fn from(x: &%s) -> Self { %s } }\n" % (
        name, proxy.rust, name, to, proxy.rust, name, proxy.rust, frm)
    body += fields
    return Proxied(name, conv, inner, proxy, body, **kw)
WrapP = Struct("WrapP", [F("s", S)])
Wrapped = root(proxied("Wrapped", "wrap", S, WrapP, "pub struct Wrapped(pub String);",
    "impl Abs for Wrapped { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { Wrapped(Abs::from_abs(v)) } }\n",
    'WrapP { s: format!("<{}>", x.0) }', 'Wrapped(unwrap_str(&x.s))'), "proxy")
# an int container whose proxy is i32: p = 3n+7
Scaled = root(proxied("Scaled", "scale", u16, i32, "#[derive(PartialEq, Eq, PartialOrd, Ord, Clone)]\npub struct Scaled(pub u16);",
    "impl Abs for Scaled { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { Scaled(Abs::from_abs(v)) } }\n",
    'x.0 as i32 * 3 + 7', 'Scaled(unscale(*x))'), "proxy")
Flip = root(proxied("Flip", "swap", Tup(u8, S), Tup(S, u8), "pub struct Flip { pub a: u8, pub b: String }",
    "impl Abs for Flip { fn to_abs(&self) -> J { tup(vec![self.a.to_abs(), self.b.to_abs()]) } fn from_abs(v: &J) -> Self { let f = v.list(); Flip { a: Abs::from_abs(&f[0]), b: Abs::from_abs(&f[1]) } } }\n",
    '(x.b.clone(), x.a)', 'Flip { a: x.1, b: x.0.clone() }'), "proxy")
EnumPx = root(proxied("EnumPx", "scale", u16, i32, "pub enum EnumPx { Lo(u8), Hi { n: u16 } }",
    "impl EnumPx { fn n(&self) -> u16 { match self { EnumPx::Lo(a) => *a as u16, EnumPx::Hi { n } => *n } } fn of(n: u16) -> Self { if n < 256 { EnumPx::Lo(n as u8) } else { EnumPx::Hi { n } } } }\n"
    "impl Abs for EnumPx { fn to_abs(&self) -> J { self.n().to_abs() } fn from_abs(v: &J) -> Self { EnumPx::of(Abs::from_abs(v)) } }\n",
    'x.n() as i32 * 3 + 7', 'EnumPx::of(unscale(*x))'), "proxy")
OptPx = root(proxied("OptPx", "unopt", Opt(u8), Vec(u8), "pub struct OptPx { pub v: Option<u8> }",
    "impl Abs for OptPx { fn to_abs(&self) -> J { self.v.to_abs() } fn from_abs(v: &J) -> Self { OptPx { v: Abs::from_abs(v) } } }\n",
    'x.v.iter().copied().collect()', 'OptPx { v: x.first().copied() }'), "proxy")
# field proxies: the field type itself is not derived
Raw = Ty("RawS", "T_String", "bj", None); RawN = Ty("RawN", "T_u16", "bj", None)
FieldPx = root(Struct("FieldPx", [F("a", u8), F("w", Raw, proxy=("wrap", WrapP)), F("n", RawN, proxy=("scale", i32), rename="en"), F("z", S)], fmts="bj"), "proxy", "field")
OptFieldPx = root(Struct("OptFieldPx", [F("a", Opt(RawN), proxy=("scale", i32)), F("b", u8), F("c", Opt(Raw), proxy=("wrap", WrapP), rename="cc"), F("d", Opt(u8))], fmts="j"), "proxy", "field")
PxV = root(Enum("PxV", [V("A", [F("n", RawN, proxy=("scale", i32)), F("s", u8), F("d", Raw, proxy=("wrap", WrapP), rename="dd")]), V("B", [F("i", Opt(RawN), proxy=("scale", i32)), F("first_field_was_serialized", u8)]), V("U")], fmts="j"), "proxy", "enum", "field")
NamesV = root(Enum("NamesV", [V("V", [F("s", u8), F("d", S), F("i", Opt(u8)), F("o", u16), F("r", u8), F("t", Opt(S)), F("name", u8), F("_s", u8)]), V("T", [u8, u16])]), "enum", "field")
Names = root(Struct("Names", [F("s", u8), F("d", S), F("i", Opt(u8)), F("o", u16), F("r", u8), F("t", Opt(S)), F("proxy", u8), F("out", u8)]), "struct", "field")
RawOpt = Ty("Option<RawN>", "[k |-> \"opt\", t |-> T_u16]", "b", NONE, opt=True)
TupPx = root(TStruct("TupPx", [RawN, u8, Raw], proxies={0: ("scale", i32), 2: ("wrap", WrapP)}, fmts="b"), "proxy")
RawD = Ty("RawD", "T_u16", "bj", None)      # serializable itself, too
for t in (Vec(Scaled), Opt(Scaled), BMap(S, Wrapped), Arr(Scaled, 2), Tup(Wrapped, Flip)): root(t, "proxy")
HoldPx = root(Struct("HoldPx", [F("a", Wrapped), F("b", Vec(Scaled)), F("c", Opt(EnumPx))]), "proxy")
PxD = root(Struct("PxD", [F("n", RawD, proxy=("scale", i32)), F("s", S), F("m", RawD)]), "proxy")
# proxied fields with a default: a missing member takes the default of the field, which no proxy value gives
RawZ = Ty("RawZ", "T_u16", "bj", vint(42))
PxDef = root(Struct("PxDef", [F("n", RawZ, proxy=("scale", i32)), F("s", S), F("m", Opt(RawZ), proxy=("scale", i32))], default=True, fmts="j"), "proxy", "field")
PxDefF = root(Struct("PxDefF", [F("n", RawZ, proxy=("scale", i32), default=True), F("s", S), F("k", RawZ, proxy=("scale", i32), default_with=("dw_z", vint(9))),
                                F("o", Opt(RawZ), proxy=("scale", i32), default=True), F("p", Opt(RawZ), proxy=("scale", i32), default=("RawZ(5)", vsome(vint(5))[1]))], fmts="j"), "proxy", "field")
PxSkip = root(Struct("PxSkip", [F("a", u8), F("n", RawZ, proxy=("scale", i32), skip=True), F("b", S), F("k", RawZ, proxy=("scale", i32), skip=True, default_with=("dw_z", vint(9))), F("c", RawZ, proxy=("scale", i32))], fmts="bj"), "proxy", "field")
PxDefV = root(Enum("PxDefV", [V("A", [F("n", RawZ, proxy=("scale", i32), default=True), F("s", u8), F("m", Opt(RawZ), proxy=("scale", i32))]), V("U")], fmts="j"), "proxy", "enum", "field")
PxEnum = root(Enum("PxEnum", [V("A", [Scaled]), V("B", [F("w", Wrapped)])]), "proxy", "enum")

# ---- long fixed shapes: run apart ("wide") ----
WideT = root(TStruct("WideT", [u16] * 12), "wide")
WideV = root(Enum("WideV", [V("U"), V("T", [u16] * 13), V("R", [F("f%d" % i, u16) for i in range(13)]), V("O", [Opt(u8)] * 12), V("S", [S, u8] * 6), V("Z", [u8])]), "wide")
WideS = root(Struct("WideS", [F("f%d" % i, [u8, Opt(u16), S, Opt(S), i16][i % 5], **({"rename": "x%d" % (73 - i)} if i % 7 == 3 else {"default": True} if i % 7 == 5 else {"skip": True} if i % 31 == 30 else {})) for i in range(74)]), "wide")
WideO = root(Struct("WideO", [F("o%d" % i, Opt(u8)) for i in range(70)]), "wide")
for t in (Arr(u16, 300), Arr(S, 257), Arr(Opt(u8), 256), Arr(Tup(u8, S), 258), Arr(bl, 513), Arr(Words, 255), Vec(Arr(u8, 256)), Opt(Arr(i16, 259)), Vec(WideT), Opt(WideV), Vec(WideV),
          Vec(Vec(Vec(Vec(Vec(u8))))), Opt(Box(Vec(Opt(Box(Vec(Opt(S))))))), Tup(Tup(Tup(Tup(u8, S), bl), Opt(u8)), Vec(Tup(u8, Tup(u8, u8)))), BMap(S, BMap(S, BMap(S, Vec(u8)))), Arr(Arr(Arr(Arr(u8, 2), 2), 2), 2)): root(t, "wide")
import combos
combos.build(root, globals())

HELPERS = '''
pub fn dw_s() -> String { "dee".to_string() }
pub fn dw_vec() -> Vec<u8> { vec![7, 9] }
pub fn dw_opt() -> Option<u8> { Some(8) }
pub fn dw_i16() -> i16 { -300 }
pub fn dw_u8() -> u8 { 211 }
pub fn unscale(p: i32) -> u16 { if p < 7 { 0 } else { ((p - 7) / 3 % 65536) as u16 } }
pub fn unwrap_str(s: &str) -> String { let mut c: Vec<char> = s.chars().collect(); if c.len() < 2 { return String::new(); } c.pop(); c.remove(0); c.into_iter().collect() }
#[derive(Default)] pub struct RawS(pub String);
impl Abs for RawS { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawS(Abs::from_abs(v)) } }
#[derive(Default)] pub struct RawN(pub u16);
impl Abs for RawN { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawN(Abs::from_abs(v)) } }
@DERIVE@#[derive(Default)]
#[nserde(transparent)]
pub struct RawD(pub u16);
impl Abs for RawD { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawD(Abs::from_abs(v)) } }
impl From<&RawD> for i32 { fn from(x: &RawD) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawD { fn from(x: &i32) -> RawD { RawD(unscale(*x)) } }
pub struct RawZ(pub u16);
impl Default for RawZ { fn default() -> Self { RawZ(42) } }
pub fn dw_z() -> RawZ { RawZ(9) }
impl Abs for RawZ { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawZ(Abs::from_abs(v)) } }
impl From<&RawZ> for i32 { fn from(x: &RawZ) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawZ { fn from(x: &i32) -> RawZ { RawZ(unscale(*x)) } }
impl From<&RawN> for i32 { fn from(x: &RawN) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawN { fn from(x: &i32) -> RawN { RawN(unscale(*x)) } }
'''
HELPERS_WRAP = '''
impl From<&RawS> for WrapP { fn from(x: &RawS) -> Self { WrapP { s: format!("<{}>", x.0) } } }
impl From<&WrapP> for RawS { fn from(x: &WrapP) -> Self { RawS(unwrap_str(&x.s)) } }
'''

def write(path, text):
    old = open(path).read() if os.path.exists(path) else None
    if old != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write(text)

NOSTD = """use alloc::{boxed::Box, collections::{BTreeMap, BTreeSet, LinkedList}, format, string::{String, ToString}, vec, vec::Vec};
use core::time::Duration;
use nanoserde::*;
"""
def plain(text): return "\n".join(l for l in text.split("\n") if not l.startswith("impl Abs for"))

def emit(specdir, srcdir, nostd):
    o = ["------------------------------ MODULE Schemas ------------------------------",
         "(* Generated by gen/schema.py: the types the conformance runs range over.     *)",
         "EXTENDS Util", ""]
    o += PRIM_LINES + [""]
    for n, d in DECLS.items():
        o.append("T_%s == %s" % (n, d.tdef))
    o.append("")
    o.append("RefT(n) == CASE " + " [] ".join('n = "%s" -> T_%s' % (n, n) for n, d in DECLS.items() if d.recursive))
    o.append("")
    o.append("\\* n: Rust name, t: type, f: formats, g: tags")
    o.append("Roots == <<")
    o.append(",\n".join('  [n |-> "%s", t |-> %s, f |-> {%s}, g |-> {%s}]' % (
        t.rust, t.tl, ", ".join('"%s"' % f for f in sorted(t.fmts)), ", ".join('"%s"' % g for g in sorted(tags | ({"std"} if t.std else set())))) for t, tags in ROOTS))
    o.append(">>")
    rn = [t.rust for t, _ in ROOTS]
    o.append("\\* the list type of a type, or 0")
    o.append("VecOf == <<%s>>" % ", ".join(str(rn.index("Vec<%s>" % n) + 1 if "Vec<%s>" % n in rn else 0) for n in rn))
    o.append("=============================================================================")
    write(os.path.join(specdir, "Schemas.tla"), "\n".join(o) + "\n")
    for fmt, nm in (("b", "bin"), ("j", "json"), ("r", "ron")):
        r = ["// Generated by gen/schema.py.", "use crate::abs::*;", "use crate::%s::*;" % nm, "use nanoserde::*;",
             "use std::collections::{BTreeMap, BTreeSet, LinkedList};", "#[cfg(feature = \"std\")]", "use std::collections::{HashMap, HashSet};",
             "#[cfg(feature = \"std\")]", "use std::time::SystemTime;", "use std::time::Duration;", HELPERS.replace("@DERIVE@", derive_line(fmt, False))]
        seen = set(); bare = ["// Generated by gen/schema.py.", NOSTD + plain(HELPERS.replace("@DERIVE@", derive_line(fmt, False)))]
        for n, d in DECLS.items():
            if fmt not in d.fmts: continue
            g = '#[cfg(feature = "std")]\n' if d.std else ""
            text = d.decl(fmt)
            key = n.split("__")[0]
            if key not in seen:
                seen.add(key)
                if not d.std: bare.append(plain(text).rstrip("\n"))
                r.append(g + text.rstrip("\n") if not d.std else "\n".join(g + x for x in [text.rstrip("\n")]))
            r.append(g + d.absimpl)
            if n == "WrapP": r.append(HELPERS_WRAP); bare.append(HELPERS_WRAP)
        r.append("pub fn table() -> Vec<Option<Vt>> {\n    vec![")
        for i, (t, tags) in enumerate(ROOTS):
            if fmt in t.fmts:
                if t.std:
                    r.append('        #[cfg(feature = "std")]\n        Some(vt::<%s>()), // %d\n        #[cfg(not(feature = "std"))]\n        None,' % (t.rust, i + 1))
                else: r.append("        Some(vt::<%s>()), // %d" % (t.rust, i + 1))
            else: r.append("        None, // %d" % (i + 1))
        r.append("    ]\n}")
        write(os.path.join(srcdir, "types_%s.rs" % nm), "\n".join(r) + "\n")
        write(os.path.join(nostd, "types_%s.rs" % nm), "\n".join(bare) + "\n")

if __name__ == "__main__":
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    emit(os.path.join(base, "spec"), os.path.join(base, "harness/src"), os.path.join(base, "nostd/src"))
    print(len(ROOTS), "roots", {f: sum(f in t.fmts for t, _ in ROOTS) for f in "bjr"})
