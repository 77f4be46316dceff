"""Declaration forms (C24): the bodies MC_Forms dresses, and the dressed declarations as Rust.
usage: forms.py --bodies                     writes spec/FormBodies.tla
       forms.py CASEFILE SPECDIR HARNESSDIR  writes Schemas.tla and the types_*.rs of the dressed declarations"""
import os, sys, json, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dsl
from dsl import *

BODIES = []
class Body:
    """generics: [(name, bounds, default, actual)] with bounds None for a const; citems: items of the declaration itself;
    subst: type text -> generic type text, applied to the field types."""
    def __init__(self, decl, kind, fields=None, tys=None, variants=None, generics=(), citems=(), extra_derive=(), place=True, after="", frust=None, mark=None):
        self.decl, self.kind, self.fields, self.tys, self.variants = decl, kind, fields, tys, variants
        self.generics, self.citems, self.extra, self.place, self.after = generics, list(citems), list(extra_derive), place, after
        self.frust, self.mark = frust or {}, mark or {}
        BODIES.append(self)
    @property
    def name(self): return self.decl.name.split("__")[0]
    @property
    def unit(self): return self.kind == "enum" and all(v.fields is None for v in self.variants)
    def slots(self):
        """(kind, nserde items, object)"""
        o = [("item", self.citems, None)]
        if self.kind == "struct": o += [("field", items(f), f) for f in self.fields]
        if self.kind == "tuple": o += [("field", self.mark.get(i, []), t) for i, t in enumerate(self.tys)]
        if self.kind == "enum":
            for v in self.variants:
                o.append(("variant", ['rename = "%s"' % v.rename] if v.rename is not None else [], v))
                for f in v.fields or []:
                    o.append(("field", items(f), f) if isinstance(f, F) else ("part", [], f))
        return o

def items(f):
    return re.findall(r"#\[nserde\((.*?)\)\] ", field_attrs(f))

def generic_args(b): return "<%s>" % ", ".join(str(g[3]) for g in b.generics) if b.generics else ""

u8, u16, i32, S = T["u8"], T["u16"], T["i32"], T["String"]
bl = T["bool"]
# what the bodies use; declared plainly, in the module `help`
Leaf = Struct("Leaf", [F("x", u8), F("y", Opt(S))])
Uni = Enum("Uni", [V("A"), V("B"), V("Cc")])
WrapP = Struct("WrapP", [F("s", S)])
HELP = [Leaf, Uni, WrapP]
Raw = Ty("RawS", "T_String", "bj", None); RawN = Ty("RawN", "T_u16", "bj", None)

fs = [F("a", u8, rename="x", default=("7", vint(7))), F("b", Opt(u8)), F("c", S, default=("hi there", vstr("hi there")), rename="see"), F("d", u16, skip=True, default=("513", vint(513))),
      F("e", Opt(S), null=True, rename="E2"), F("f", Vec(u8), default_with=("dw_vec", vseq(vint(7), vint(9)))), F("g", Arr(u8, 3)), F("h", Tup(u8, S)), F("i", u16, skip=True, rename="q"), F("j", Leaf)]
Body(Struct("SF", fs), "struct", fields=fs)
fs = [F("a", Opt(u8)), F("b", S, rename="bee"), F("c", Opt(S)), F("d", u16, default=("77", vint(77)), rename="dee"), F("e", Uni, skip=True)]
fs[4] = F("e", Vec(u8), skip=True)
Body(Struct("SC", fs, default=True, null=True), "struct", fields=fs, citems=["default", "serialize_none_as_null"], extra_derive=["Default"])
fs = [F("a", u16, rename="first"), F("v", Vec(u16)), F("o", Opt(S), rename="b"), F("b", Opt(u16), rename="o"), F("m", BMap(S, u16)), F("z", Tup(u16, S), default=True)]
Body(Struct("SG", fs, rust="SG<u16, String>"), "struct", fields=fs, generics=[("T", ["Clone", "Default"], "u8", "u16"), ("U", ["Clone", "Default", "Ord"], "String", "String")],
     frust={"a": "T", "v": "Vec<T>", "o": "Option<U>", "b": "Option<T>", "m": "BTreeMap<U, T>", "z": "(T, U)"})
fs = [F("a", Arr(u8, 3)), F("n", u8, rename="count"), F("s", Vec(Arr(S, 3))), F("k", Arr(u8, 2))]
Body(Struct("SN", fs, rust="SN<u8, 3, 2>"), "struct", fields=fs, generics=[("T", ["Clone"], None, "u8"), ("N", None, "3", "3"), ("M", None, "2", "2")],
     frust={"a": "[T; N]", "n": "T", "s": "Vec<[String; N]>", "k": "[u8; M]"})
fs = [F("w", Raw, proxy=("wrap", WrapP), rename="w w"), F("n", RawN, proxy=("scale", i32)), F("z", S, rename="n2")]
Body(Struct("SP", fs, fmts="bj"), "struct", fields=fs)
Body(TStruct("TS", [u8, S, Vec(Opt(u8))]), "tuple", tys=[u8, S, Vec(Opt(u8))])
Body(TStruct("TG", [u8, Vec(S), Tup(S, u8)], rust="TG<u8, String>"), "tuple", tys=[u8, Vec(S), Tup(S, u8)], generics=[("A", ["Clone"], None, "u8"), ("B", ["PartialEq", "Clone"], "String", "String")],
     frust={0: "A", 1: "Vec<B>", 2: "(B, A)"})
Body(TStruct("TT", [Vec(u8)], transparent=True, fmts="j", rust="TT<u8>"), "tuple", tys=[Vec(u8)], generics=[("T", ["Clone"], "u8", "u8")], frust={0: "Vec<T>"}, citems=["transparent"])
Body(TStruct("TP", [RawN, u8, Raw], proxies={0: ("scale", i32), 2: ("wrap", WrapP)}, fmts="b"), "tuple", tys=[RawN, u8, Raw], mark={0: ['proxy = "i32"'], 2: ['proxy = "WrapP"']})
vs = [V("A", rename="B"), V("B", rename="A"), V("Cee"), V("D", rename="d d"), V("E")]
Body(Enum("EU", vs, fmts="bj"), "enum", variants=vs)
vs = [V("A"), V("B"), V("Cee"), V("D")]
Body(Enum("EV", vs), "enum", variants=vs)
vs = [V("U"), V("T1", [u8]), V("T2", [u8, S]), V("R", [F("a", u8, default=("5", vint(5)), rename="y"), F("b", Opt(S)), F("y", Opt(u8), rename="a")]), V("Q", [Arr(u8, 3), Uni]), V("L", [F("l", Leaf)]), V("U2")]
Body(Enum("ED", vs), "enum", variants=vs)
vs = [V("P", [u8, u16], rename="pair"), V("R", [F("first", Vec(S), rename="f"), F("s", u8, skip=True), F("o", Opt(u8))], rename="rec"), V("N")]
Body(Enum("ER", vs, fmts="j"), "enum", variants=vs)
vs = [V("A", [u8]), V("B", [F("t", u8), F("u", Opt(S))]), V("C"), V("D", [Vec(S), u8])]
Body(Enum("EG", vs, rust="EG<u8, String>"), "enum", variants=vs, generics=[("T", ["Clone"], None, "u8"), ("U", ["Clone", "PartialEq"], "String", "String")],
     frust={(0, 0): "T", "t": "T", "u": "Option<U>", (3, 0): "Vec<U>", (3, 1): "T"})
fs = [F("m", BMap(u16, Vec(Opt(Tup(S, u8))))), F("c", Arr(u8, 2)), F("d", Box(S), rename="m2"), F("e", Opt(Vec(Tup(u8, Opt(u16))))), F("w", u8)]
Body(Struct("SB", fs, rust="SB<u16, String, u8>"), "struct", fields=fs, generics=[("K", ["Ord", "Clone", "'static"], None, "u16"), ("V", ["PartialEq<V>", "Clone"], None, "String"),
     ("W", ["std::ops::Add<Output = W>", "Clone", "Copy"], "u8", "u8")],
     frust={"m": "BTreeMap<K, Vec<Option<(V, W)>>>", "c": "[W; 2]", "d": "Box<V>", "e": "Option<Vec<(W, Option<K>)>>", "w": "W"})
fs = [F("a", Arr(Arr(u8, 2), 3)), F("b", BMap(S, BMap(u8, Vec(Opt(S))))), F("c", Tup(Tup(u8, S), Vec(Tup(u8, u8)))), F("o", Opt(Box(S)), rename="optional"), F("f", bl, default=("true", vbool(1)))]
Body(Struct("SX", fs), "struct", fields=fs)
Body(TStruct("TB", [Arr(u16, 3), S, Box(Tup(u16, S))], rust="TB<u16, String, 3>"), "tuple", tys=[Arr(u16, 3), S, Box(Tup(u16, S))],
     generics=[("K", ["Clone", "'static"], None, "u16"), ("V", ["Into<V>", "Clone", "PartialEq"], None, "String"), ("N", None, "3", "3")], frust={0: "[K; N]", 1: "V", 2: "Box<(K, V)>"})
vs = [V("X", [F("b", BMap(u16, Vec(Opt(Tup(S, u8))))), F("k", Opt(u16))]), V("Y", [Arr(S, 2), Box(u16)]), V("Z"), V("W", [Tup(S, u16)])]
Body(Enum("EB", vs, rust="EB<u16, String, 2>"), "enum", variants=vs, generics=[("K", ["Ord", "Clone"], None, "u16"), ("V", ["PartialEq<V>", "Clone", "'static"], "String", "String"), ("N", None, "2", "2")],
     frust={"b": "BTreeMap<K, Vec<Option<(V, u8)>>>", "k": "Option<K>", (1, 0): "[V; N]", (1, 1): "Box<K>", (3, 0): "(V, K)"})
Body(Proxied("PX", "wrap", S, WrapP, "", fmts="bj"), "tuple", tys=[S], citems=['proxy = "WrapP"'], after='''
impl Abs for @ { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { @(Abs::from_abs(v)) } }
impl From<&@> for WrapP { fn from(x: &@) -> Self { WrapP { s: format!("<{}>", x.0) } } }
impl From<&WrapP> for @ { fn from(x: &WrapP) -> Self { @(unwrap_str(&x.s)) } }
''')

def bodies_tla():
    q = lambda s: '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    o = ["----------------------------- MODULE FormBodies -----------------------------", "(* Generated by gen/forms.py: the declarations MC_Forms dresses. *)", "Bodies == <<"]
    o.append(",\n".join('  [n |-> "%s", k |-> "%s", gen |-> %s, unit |-> %s, place |-> %s, slots |-> <<%s>>]' % (
        b.name, b.kind, tla(bool(b.generics)), tla(b.unit), tla(b.place),
        ", ".join('[k |-> "%s", items |-> <<%s>>]' % (k, ", ".join(q(x) for x in it)) for k, it, _ in b.slots())) for b in BODIES))
    o += [">>", "VecOf == [i \\in 1..Len(Roots) |-> 0]", "============================================================================="]
    return "\n".join(o) + "\n"

# ---- rendering ----
MAC = {0: set(), 1: {"tt"}, 2: {"name", "vis", "ty0"}, 3: {"meta"}, 4: {"ty", "fvis", "fname"}, 5: {"lit", "expr"}, 6: {"inner", "name", "lit"}}
KIND = {"name": "ident", "vis": "vis", "ty0": "ty", "meta": "meta", "ty": "ty", "fvis": "vis", "fname": "ident", "lit": "literal", "expr": "expr", "inner": "ty"}
VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(in crate)"]
DOC = [[], ["/// rename = \"zzz\", skip"], ["/** #[nserde(skip)] */"], ["#[doc = \"default, x\"]"], ["/// one", "/// two", "#[doc(alias = \"crate\")]"]]
FFOREIGN = [[], ["#[allow(dead_code)]"], ["#[cfg(all())]"], ["#[doc(alias = \"skip\")]", "#[allow(clippy::all, unused)]"]]
PATHS = [{}, {"Option": "std::option::Option", "Vec": "std::vec::Vec", "String": "std::string::String", "BTreeMap": "std::collections::BTreeMap"},
         {"Option": "::core::option::Option", "Vec": "::std::vec::Vec", "String": "::std::string::String", "BTreeMap": "::std::collections::BTreeMap"}]

class Render:
    def __init__(self, b, case, fmt, n):
        self.b, self.form, self.slots, self.fmt = b, case["form"], case["slots"], fmt
        self.on = MAC[self.form["mac"]]; self.args = []; self.tname = "%s_%d" % (b.name, n); self.n = n
        self.at = 0
    def frag(self, kind, text):
        if kind not in self.on or not text: return text
        self.args.append((KIND[kind], text))
        return "$f%d" % (len(self.args) - 1)
    def item(self, x):
        m = re.match(r'^(.*?= )(".*")$', x)
        return m.group(1) + self.frag("lit", m.group(2)) if m else x
    def attrs(self, docs, foreign, slot, pos):
        g = ["#[nserde(%s%s)]" % (", ".join(self.item(x) for x in grp), "," if slot["tc"] else "") for grp in slot["groups"]]
        if pos == 0: return docs + foreign + g
        if pos == 1: return g + foreign + docs
        return docs + g[:1] + foreign + g[1:]
    def ty(self, t, first=False):
        p = PATHS[self.form["tyq"]]
        t = re.sub(r"\b(Option|Vec|String|BTreeMap)\b", lambda m: p.get(m.group(1), m.group(1)), t)
        if self.form["comma"] and t.startswith("("): t = t[:-1] + ",)"
        t = re.sub(r"; (\d+)\]", lambda m: "; " + [m.group(1), "%s_usize" % m.group(1), "1 + %d" % (int(m.group(1)) - 1), "LEN%s" % m.group(1)][self.form["len"]] + "]", t)
        if "inner" in self.on and len(t) > 6: return re.sub(r"\bu8\b|\bu16\b", lambda m: self.frag("inner", m.group(0)), t)
        if first and "ty0" in self.on: return self.frag("ty0", t)
        return self.frag("ty", t)
    def lead(self, i):
        s = self.slots[i]
        return self.attrs(DOC[s["doc"]], FFOREIGN[s["foreign"]], s, s["pos"])
    def metas(self, ls):
        if "meta" not in self.on: return ls
        return [("#[%s]" % self.frag("meta", l[2:-1])) if l.startswith("#[") else l for l in ls]
    def fvis(self, i):
        v = self.frag("fvis", VIS[self.slots[i]["vis"] % 4])
        return v + " " if v else ""
    def fields(self, objs, names, vis, key=None):
        """lines of members; slots are taken in order"""
        out = []
        for k, (o, nm) in enumerate(zip(objs, names)):
            i = self.at; self.at += 1
            t = self.b.frust.get(key(k, o) if key else None) or (o.ty.rust if isinstance(o, F) else o.rust)
            first = i == 1
            lead = " ".join(l + "\n" if l.startswith("///") else l for l in self.metas(self.lead(i)))
            out.append("    " + lead + " " + (self.fvis(i) if vis else "") + ((self.frag("fname", nm) + ": ") if nm else "") + self.ty(t, first))
        if self.form["ghost"] and objs:
            out.insert(len(out) // 2, "    #[cfg(any())] " + ("ghost: " if names[0] else "") + "NoSuchType")
        return ",\n".join(out) + ("," if self.form["comma"] and out else "")
    def generics(self):
        b = self.b
        if not b.generics: return "", ""
        g, w = [], []
        for name, bounds, dflt, actual in b.generics:
            if bounds is None:
                g.append("const %s: usize%s" % (name, " = " + dflt if dflt and self.form["gdef"] else "")); continue
            mode = self.form["gen"]
            inl, wh = {0: (bounds, []), 1: ([], bounds), 2: (bounds[:1], bounds[1:]), 3: (["core::clone::Clone"] + [x for x in bounds if x != "Clone"], [])}[mode]
            g.append(name + (": " + " + ".join(inl) if inl else "") + (" = " + dflt if dflt and self.form["gdef"] else ""))
            if wh: w.append("%s: %s" % (name, " + ".join(wh)))
        # defaults only on trailing parameters
        seen = False
        for k, x in enumerate(g):
            if " = " in x: seen = True
            elif seen: g = [re.sub(r" = \w+$", "", y) if j < k else y for j, y in enumerate(g)]
        tail = "," if self.form["gcomma"] else ""
        return "<%s%s>" % (", ".join(g), tail), (" where %s%s" % (", ".join(w), tail) if w else "")
    def disc(self, k):
        d = self.form["disc"]
        if not d: return ""
        if not self.b.unit: e = ["", "%d" % (k + 3), ["0x2%d" % k, "b'%s'" % "abcdefghij"[k], "1 + %d" % (40 + k), "K + %d" % (60 + k)][k % 4]][d]
        else: e = ["", "%d" % (10 - k), ["-5", "1 + 1", "1 << 6", "(3)", "b'x' as isize"][k % 5], ["K_ISIZE", "0x10", "isize::MAX - %d" % k, "300_isize", "7"][k % 5]][d]
        return " = " + self.frag("expr", e)
    def decl(self):
        b, f = self.b, self.form
        self.at = 1
        tname = self.frag("name", self.tname)
        gen, wh = self.generics()
        comma = "," if f["comma"] else ""
        if b.kind == "struct":
            body = "struct %s%s%s {\n%s\n}" % (tname, gen, wh, self.fields(b.fields, [x.name for x in b.fields], True, lambda k, o: o.name))
        elif b.kind == "tuple":
            body = "struct %s%s(\n%s\n)%s;" % (tname, gen, self.fields(b.tys, [None] * len(b.tys), True, lambda k, o: k), wh)
        else:
            vs = []
            for k, v in enumerate(b.variants):
                i = self.at; self.at += 1
                lead = "\n".join(self.metas(self.lead(i)))
                if v.fields is None: payload = ""
                elif isinstance(v.fields[0], F): payload = " {\n%s\n}" % self.fields(v.fields, [x.name for x in v.fields], False, lambda j, o: o.name)
                else:
                    g, self.form = self.form, dict(self.form, ghost=0)
                    payload = "(\n%s\n)" % self.fields(v.fields, [None] * len(v.fields), False, lambda j, o: (k, j)); self.form = g
                vs.append("    %s\n    %s%s%s" % (lead, v.name, payload, self.disc(k)))
            if f["ghost"]: vs.insert(1, "    #[cfg(any())] Ghost(NoSuchType)")
            body = "enum %s%s%s {\n%s%s\n}" % (tname, gen, wh, ",\n".join(vs), comma)
        # the attributes of the item
        s0 = self.slots[0]
        ser, de = DER[self.fmt]
        pre = ["", "nanoserde::", "::nanoserde::"][f["path"]]
        ser, de = pre + ser, pre + de
        split = f["split"]
        derives = {0: [[ser, de]], 1: [[de, ser]], 2: [[de], [ser]], 3: [[ser], [de]]}[split]
        if b.extra: derives = derives + [b.extra] if s0["vis"] % 2 else [derives[0] + b.extra] + derives[1:]
        D = ["#[derive(%s%s)]" % (", ".join(d), comma) for d in derives]
        G = ["#[nserde(%s%s)]" % (", ".join(self.item(x) for x in grp), "," if s0["tc"] else "") for grp in s0["groups"]]
        repr_ = "#[repr(u8)]" if b.kind == "enum" and not b.unit and f["disc"] else "#[non_exhaustive]" if b.kind == "enum" else "#[repr(C)]"
        foreign = [[], ["#[allow(dead_code)]"], ["#[rustfmt::skip]", "#[allow(clippy::all, unused)]"], ["#[cfg_attr(all(), allow(dead_code))]"],
                   ["#[must_use = \"a, b = \\\"c\\\" #[nserde(skip)]\"]"], ["#[doc(hidden)]", repr_]][f["foreign"]]
        if repr_ == "#[repr(u8)]" and repr_ not in foreign: foreign = foreign + [repr_]
        docs = DOC[f["doc"]]
        head = [D[0]] + (G[:1] + D[1:] + G[1:] if split == 3 else D[1:] + G)
        p = s0["pos"]
        head = docs + foreign + head if p == 0 else head + foreign + docs if p == 1 else docs[:1] + head + foreign + docs[1:]
        head = self.metas(head)
        v = VIS[f["vis"]]
        if f["place"] and not v: v = "pub"
        vis = self.frag("vis", v)
        text = "\n".join(head) + "\n" + (vis + " " if vis else "") + body + "\n"
        if "tt" in self.on: text = "macro_rules! m%d { ($($t:tt)*) => { $($t)* } }\nm%d! {\n%s}\n" % (self.n, self.n, text)
        elif self.args:
            text = "macro_rules! m%d { (%s) => {\n%s} }\nm%d!(%s);\n" % (self.n, ", ".join("$f%d:%s" % (i, k) for i, (k, _) in enumerate(self.args)), text, self.n,
                                                                       ", ".join(t for _, t in self.args))
        ab = b.after.replace("@", self.tname) if b.after else re.sub(r"\b%s\b" % b.name, self.tname, b.decl.absimpl)
        path = self.tname
        if f["place"]:
            imp = "use super::help::*; use crate::abs::*; use std::collections::*; "
            if not pre: imp += "use ::nanoserde::{%s}; " % ", ".join(DER[self.fmt])
            if f["crate"] >= 2: imp += "#[allow(dead_code)] mod nanoserde {} "
            text = "pub mod p%d { %s\n%s%s}\n" % (self.n, imp, text, ab); path = "p%d::%s" % (self.n, self.tname)
        else: text += ab
        return text, path + generic_args(b)

HELPERS = '''
pub const LEN2: usize = 2; pub const LEN3: usize = 3; pub const K: u8 = 1; pub const K_ISIZE: isize = -77;
pub fn dw_vec() -> Vec<u8> { vec![7, 9] }
pub fn unscale(p: i32) -> u16 { if p < 7 { 0 } else { ((p - 7) / 3 % 65536) as u16 } }
pub fn unwrap_str(s: &str) -> String { let mut c: Vec<char> = s.chars().collect(); if c.len() < 2 { return String::new(); } c.pop(); c.remove(0); c.into_iter().collect() }
#[derive(Default)] pub struct RawS(pub String);
impl Abs for RawS { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawS(Abs::from_abs(v)) } }
#[derive(Default)] pub struct RawN(pub u16);
impl Abs for RawN { fn to_abs(&self) -> J { self.0.to_abs() } fn from_abs(v: &J) -> Self { RawN(Abs::from_abs(v)) } }
impl From<&RawN> for i32 { fn from(x: &RawN) -> i32 { x.0 as i32 * 3 + 7 } }
impl From<&i32> for RawN { fn from(x: &i32) -> RawN { RawN(unscale(*x)) } }
impl From<&RawS> for WrapP { fn from(x: &RawS) -> Self { WrapP { s: format!("<{}>", x.0) } } }
impl From<&WrapP> for RawS { fn from(x: &WrapP) -> Self { RawS(unwrap_str(&x.s)) } }
'''

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True); open(path, "w").write(text)

def generate(casefile, specdir, harness):
    cases = []
    for line in open(casefile, encoding="utf-8"):
        if line.startswith('"CASE '): cases += json.loads(json.loads(line)[5:])
    by = {b.name: b for b in BODIES}
    order = {b.name: k for k, b in enumerate(BODIES)}
    cases.sort(key=lambda c: (order[c["body"]], c["no"]))
    o = ["------------------------------ MODULE Schemas ------------------------------", "EXTENDS Util", ""] + PRIM_LINES + [""]
    o += ["T_%s == %s" % (n, d.tdef) for n, d in dsl.DECLS.items()]
    o += ["RefT(n) == T_unit", "Roots == <<"]
    o.append(",\n".join('  [n |-> "%s %d", t |-> T_%s, f |-> {%s}, g |-> {"form", "%s"}]' % (c["body"], c["no"], by[c["body"]].decl.name,
             ", ".join('"%s"' % f for f in sorted(by[c["body"]].decl.fmts)), by[c["body"]].kind) for c in cases))
    o += [">>", "VecOf == [i \\in 1..Len(Roots) |-> 0]", "============================================================================="]
    write(os.path.join(specdir, "Schemas.tla"), "\n".join(o) + "\n")
    for fmt, nm in (("b", "bin"), ("j", "json"), ("r", "ron")):
        r = ["use crate::abs::*;", "use crate::%s::*;" % nm, "use nanoserde::*;", "use std::collections::BTreeMap;", "use help::*;",
             "pub mod help {", "use crate::abs::*;", "use nanoserde::*;", HELPERS]
        for d in HELP: r.append(d.decl(fmt)); r.append(d.absimpl)
        r.append("}")
        tab = []
        for k, c in enumerate(cases):
            b = by[c["body"]]
            if fmt not in b.decl.fmts: tab.append("        None,"); continue
            text, path = Render(b, c, fmt, k + 1).decl()
            r.append("// %s %d" % (c["body"], c["no"])); r.append(text); tab.append("        Some(vt::<%s>())," % path)
        r += ["pub fn table() -> Vec<Option<Vt>> {\n    vec!["] + tab + ["    ]\n}"]
        write(os.path.join(harness, "src", "types_%s.rs" % nm), "\n".join(r) + "\n")
    m = open(os.path.join(harness, "src/main.rs")).read()
    if "pub mod re " not in m:
        write(os.path.join(harness, "src/main.rs"), m.replace("mod abs;", "pub mod re { pub use ::nanoserde as ns; pub mod deep { pub use ::nanoserde as again; } }\nmod abs;", 1))
    return cases

if __name__ == "__main__":
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if sys.argv[1] == "--bodies": write(os.path.join(base, "spec/FormBodies.tla"), bodies_tla())
    else: generate(*sys.argv[1:4])
