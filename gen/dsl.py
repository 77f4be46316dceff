"""Type descriptions: one source for the TLA+ type records and the Rust declarations."""

def cps(s): return [ord(c) for c in s]

# ---- abstract values (the shapes TLC and the harness exchange) ----
def vint(n): return ["int", cps(str(n))]
def vstr(s): return ["str", cps(s)]
def vflt(s): return ["flt", cps(s)]
def vbool(b): return ["bool", 1 if b else 0]
UNIT = ["unit"]; NONE = ["none"]
def vsome(v): return ["some", v]
def vseq(*v): return ["seq", list(v)]
def vtup(*v): return ["tup", list(v)]
def vrec(*v): return ["rec", list(v)]
def vvar(i, *v): return ["var", i, list(v)]

def tla(x):
    """A Python value as a TLA+ expression."""
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return '"%s"' % x
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, Tla): return x.s
    raise TypeError(x)

class Tla:
    def __init__(self, s): self.s = s

def C(s):
    """String as TLA+ sequence of code points; printable ASCII through C("..") for readability."""
    if s and all(32 <= ord(c) < 127 and c not in '"\\' for c in s): return Tla('C("%s")' % s)
    return Tla(tla(cps(s)))

def tv(v):
    """Abstract value as TLA+ (readable)."""
    if v[0] in ("int", "str", "flt"): return Tla('<<"%s", %s>>' % (v[0], C("".join(map(chr, v[1]))).s))
    if v[0] in ("seq", "tup", "rec"): return Tla('<<"%s", <<%s>>>>' % (v[0], ", ".join(tv(x).s for x in v[1])))
    if v[0] == "some": return Tla('<<"some", %s>>' % tv(v[1]).s)
    if v[0] == "var": return Tla('<<"var", %d, <<%s>>>>' % (v[1], ", ".join(tv(x).s for x in v[2])))
    if v[0] == "map": return Tla('<<"map", <<%s>>>>' % ", ".join("<<%s, %s>>" % (tv(a).s, tv(b).s) for a, b in v[1]))
    return Tla(tla(v))

ALL = frozenset("bjr")

class Ty:
    def __init__(self, rust, tl, fmts=ALL, default=None, key=False, opt=False, std=False, name=None, recursive=False):
        self.rust, self.tl, self.fmts, self.default = rust, tl, frozenset(fmts), default
        self.key, self.opt, self.std, self.name, self.recursive = key, opt, std, name, recursive

def join_fmts(*ts):
    f = ALL
    for t in ts: f = f & t.fmts
    return f

def _int(rust, signed, nbytes, fmts=ALL):
    bits = nbytes * 8
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    s = {0, 1, 9, 10, 127, 128, 255, 256, hi, hi - 1, 42, 65535, 65536, 0x01020304, 2**31 - 1, 2**31, 2**32 - 1,
         2**53, 2**53 + 1, 2**63 - 1, 2**63, 0x0102030405060708}
    if signed: s |= {lo, lo + 1, -1, -128, -129, -32769, -2**31, -2**31 - 1, -2**53 - 1}
    s = {n for n in s if lo <= n <= hi}
    first = [n for n in (42, hi, lo, 255, -1, 256) if lo <= n <= hi]
    s = list(dict.fromkeys(first + sorted(s, key=lambda n: (abs(n), n < 0))))
    tl = '[k |-> "int", sg |-> %s, b |-> %d, lo |-> %s, hi |-> %s, smp |-> <<%s>>]' % (
        tla(signed), nbytes, C(str(lo)).s, C(str(hi)).s, ", ".join(C(str(n)).s for n in s))
    return Ty(rust, "T_" + rust, fmts, vint(0), key=True), tl

PRIMS = {}
for r, sg, b in [("u8", 0, 1), ("u16", 0, 2), ("u32", 0, 4), ("u64", 0, 8), ("usize", 0, 8),
                 ("i8", 1, 1), ("i16", 1, 2), ("i32", 1, 4), ("i64", 1, 8), ("u128", 0, 16), ("i128", 1, 16)]:
    PRIMS[r] = _int(r, bool(sg), b, "b" if b == 16 else ALL)

F64 = ["1.5", "-0.0", "1.7976931348623157e308", "0.1", "0.0", "1.0", "-1.0", "100000.0", "1e16", "1e21", "5e-324",
       "2.2250738585072014e-308", "1e-7", "123456789.125", "9007199254740993.0", "-3.141592653589793", "0.30000000000000004",
       "18446744073709551616.0", "1e-5"]
F32 = ["1.5", "-0.0", "3.4028235e38", "7.038531e-26", "0.1", "0.0", "1.0", "-1.0", "100000.0", "1e16", "1e-45", "1.1754944e-38", "16777216.0",
       "0.3", "1e-7", "-2.7182817"]
STRS = ["hello", "", "a\"b\\c/d", "\U0001f600é", "a", "null", " ", "\"", "\\", "/", "\n\r\t\x08\x0c", "\x00\x01\x1f\x7f", "\x80\x9f\u00e9",
        "\u20ac\u07ff\u0800\uffff\ufeff\u2028\ud7ff\ue000", "\U0001f600\U00010000\U0010ffff", "\\u0041", "true", "None", "{}[](),:", "//x", "/*y*/", "'", "0", "\\n",
        "x" * 130, "tab\there", "é" * 5]

def build_prims():
    lines = []
    T = {}
    for r, (t, tl) in PRIMS.items():
        T[r] = t; lines.append("T_%s == %s" % (r, tl))
    for r, b, s in (("f32", 4, F32), ("f64", 8, F64)):
        lines.append('T_%s == [k |-> "flt", b |-> %d, smp |-> <<%s>>]' % (r, b, ", ".join(C(x).s for x in s)))
        T[r] = Ty(r, "T_" + r, ALL, vflt("0.0"))
    lines.append("T_bool == [k |-> \"bool\"]"); T["bool"] = Ty("bool", "T_bool", ALL, vbool(0), key=True)
    lines.append('T_String == [k |-> "str", smp |-> <<%s>>]' % ", ".join(C(x).s for x in STRS))
    T["String"] = Ty("String", "T_String", ALL, vstr(""), key=True)
    lines.append('T_unit == [k |-> "unit"]'); T["()"] = Ty("()", "T_unit", ALL, UNIT, key=True)
    lines.append('T_dur == [k |-> "dur"]'); T["Duration"] = Ty("Duration", "T_dur", ALL, None, key=False)
    lines.append('T_sys == [k |-> "sys"]'); T["SystemTime"] = Ty("SystemTime", "T_sys", ALL, None, std=True)
    return T, lines

T, PRIM_LINES = build_prims()

def comb(rust, tl, parts, default, key=False, opt=False, std=False):
    return Ty(rust, tl, join_fmts(*parts), default, key and all(p.key for p in parts), opt,
              std or any(p.std for p in parts), recursive=any(p.recursive for p in parts))

def Opt(t): return comb("Option<%s>" % t.rust, '[k |-> "opt", t |-> %s]' % t.tl, [t], NONE, key=True, opt=True)
def Box(t): r = comb("Box<%s>" % t.rust, t.tl, [t], t.default, key=True); return r
def Vec(t): return comb("Vec<%s>" % t.rust, '[k |-> "seq", t |-> %s]' % t.tl, [t], vseq(), key=True)
def LL(t): return comb("LinkedList<%s>" % t.rust, '[k |-> "seq", t |-> %s]' % t.tl, [t], vseq())
def BSet(t): return comb("BTreeSet<%s>" % t.rust, '[k |-> "set", h |-> FALSE, t |-> %s]' % t.tl, [t], vseq())
def HSet(t): return comb("HashSet<%s>" % t.rust, '[k |-> "set", h |-> TRUE, t |-> %s]' % t.tl, [t], vseq(), std=True)
def Arr(t, n):
    d = ["seq", [t.default] * n] if n == 0 or t.default else None
    return comb("[%s; %d]" % (t.rust, n), '[k |-> "arr", n |-> %d, t |-> %s]' % (n, t.tl), [t], d, key=True)
def Tup(*ts):
    d = ["tup", [t.default for t in ts]] if all(t.default for t in ts) else None
    return comb("(%s)" % ", ".join(t.rust for t in ts), '[k |-> "tup", ts |-> <<%s>>]' % ", ".join(t.tl for t in ts), ts, d, key=True)
def BMap(k, v): return comb("BTreeMap<%s, %s>" % (k.rust, v.rust), '[k |-> "map", h |-> FALSE, kt |-> %s, vt |-> %s]' % (k.tl, v.tl), [k, v], ["map", []])
def HMap(k, v): return comb("HashMap<%s, %s>" % (k.rust, v.rust), '[k |-> "map", h |-> TRUE, kt |-> %s, vt |-> %s]' % (k.tl, v.tl), [k, v], ["map", []], std=True)

class F:
    """A field. default: None | True | (attr text, abstract value); default_with: (fn name, abstract value)."""
    def __init__(self, name, ty, rename=None, default=None, default_with=None, skip=False, null=False, proxy=None):
        self.name, self.ty, self.rename, self.default, self.default_with = name, ty, rename, default, default_with
        self.skip, self.null, self.proxy = skip, null, proxy

DECLS = {}      # name -> object with .defs(fmt) and .tla_def

def _miss(v): return Tla('<<"req">>') if v is None else Tla('<<"def", %s>>' % tv(v).s)

def field_tla(f, cdef, cdef_ron, cnull, raw=False):
    """raw: enum variant field (binary ignores skip there)."""
    ty = f.ty
    dv = None
    if f.default is True: dv = NONE if ty.opt else ty.default
    elif f.default: dv = vsome(f.default[1]) if ty.opt else f.default[1]
    elif f.default_with: dv = f.default_with[1]
    jm = dv if dv is not None else (ty.default if (ty.opt or cdef or f.skip) else None)
    rm = dv if dv is not None else (ty.default if (ty.opt or cdef_ron or f.skip) else None)
    sv = dv if dv is not None else ty.default
    # TLA: pt is the type on the wire, px the conversion (or "")
    if f.proxy:
        conv, pty = f.proxy
        pt = pty.tl
    else:
        conv, pt = "", ty.tl
    eff = f.rename if f.rename is not None else f.name
    # an optional proxied field converts the contents of the option
    nn = (f.null or cnull) and ty.opt and not f.proxy
    return Tla("[f |-> %s, j |-> %s, t |-> %s, w |-> %s, px |-> %s, o |-> %s, jm |-> %s, rm |-> %s, s |-> %s, sv |-> %s, bv |-> %s, nn |-> %s]" % (
        C(f.name).s, C(eff).s, ty.tl, pt, tla(conv), tla(ty.opt), _miss(jm).s, _miss(rm).s, tla(f.skip),
        tv(sv).s if f.skip else "<<>>", tv(ty.default).s if f.skip else "<<>>", tla(nn)))

def field_attrs(f):
    a = []
    if f.rename is not None: a.append('rename = "%s"' % f.rename.replace("\\", "\\\\").replace('"', '\\"'))
    if f.default is True: a.append("default")
    elif f.default: a.append('default = "%s"' % f.default[0])
    if f.default_with: a.append('default_with = "%s"' % f.default_with[0])
    if f.skip: a.append("skip")
    if f.null: a.append("serialize_none_as_null")
    if f.proxy: a.append('proxy = "%s"' % f.proxy[1].rust)
    return "".join("#[nserde(%s)] " % x for x in a)

DER = {"b": ["SerBin", "DeBin"], "j": ["SerJson", "DeJson"], "r": ["SerRon", "DeRon"]}

class Decl(Ty):
    """A derived struct or enum; decl is a function fmt -> Rust item text, absimpl the Abs impl."""
    def __init__(self, name, rust, tdef, fmts, default, decl, absimpl, key=False, std=False, deps=(), recursive=False, extra=""):
        super().__init__(rust, "T_" + name, fmts, default, key=key, std=std, name=name, recursive=recursive)
        self.tdef, self.decl, self.absimpl, self.extra = tdef, decl, absimpl, extra
        DECLS[name] = self

def derive_line(fmt, key, dflt=False):
    d = list(DER[fmt])
    if key: d += ["PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "Clone"]
    if dflt: d.append("Default")
    return "#[derive(%s)]\n" % ", ".join(d)

def _used(fields): return [f.ty for f in fields if not (f.skip and False)]

def Struct(name, fields, fmts=None, default=False, default_with=False, null=False, key=False, dflt=False,
           rust=None, item=None, where="", generics="", recursive=False, fieldrust=None):
    """Named struct.  rust: type expression of the instance; generics/where/fieldrust: declaration form."""
    rust = rust or name
    cdef = default or default_with
    fm = join_fmts(*[f.ty for f in fields]) if fields else ALL
    if any(f.proxy for f in fields): fm = fm & frozenset("bj")
    if any(f.proxy and f.ty.opt for f in fields): fm = fm & frozenset("j")
    if fmts is not None: fm = fm & frozenset(fmts)
    if recursive: fm = fm
    tdef = '[k |-> "struct", fs |-> <<%s>>]' % ",\n      ".join(field_tla(f, cdef, default, null).s for f in fields)
    def decl(fmt):
        if item: return derive_line(fmt, key, dflt) + item
        a = ""
        if default: a += "#[nserde(default)]\n"
        if default_with: a += '#[nserde(default_with = "%s")]\n' % default_with
        if null: a += "#[nserde(serialize_none_as_null)]\n"
        fr = fieldrust or {}
        b = "\n".join("    %spub %s: %s," % (field_attrs(f), f.name, fr.get(f.name, f.ty.rust)) for f in fields)
        return derive_line(fmt, key, dflt) + a + "pub struct %s%s %s{\n%s\n}\n" % (name.split("__")[0], generics, where, b)
    base = rust.split("<")[0]
    ab = "impl Abs for %s {\n fn to_abs(&self) -> J { rec(vec![%s]) }\n fn from_abs(v: &J) -> Self { let f = v.list(); let _ = &f; %s { %s } }\n}\n" % (
        rust, ", ".join("self.%s.to_abs()" % f.name for f in fields), base,
        ", ".join("%s: Abs::from_abs(&f[%d])" % (f.name, i) for i, f in enumerate(fields)))
    dv = ["rec", [f.ty.default for f in fields]] if dflt and all(f.ty.default for f in fields) else None
    return Decl(name, rust, tdef, fm, dv, decl, ab, key=key, std=any(f.ty.std for f in fields), recursive=recursive or any(f.ty.recursive for f in fields))

def TStruct(name, tys, fmts=None, transparent=False, key=False, rust=None, generics="", where="", fieldrust=None, item=None, dflt=False, proxies=None):
    rust = rust or name
    proxies = proxies or {}
    fm = join_fmts(*tys)
    if proxies: fm = fm & frozenset("b")
    if fmts is not None: fm = fm & frozenset(fmts)
    ws = [proxies[i][1].tl if i in proxies else t.tl for i, t in enumerate(tys)]
    tdef = '[k |-> "tstruct", tr |-> %s, ts |-> <<%s>>, ws |-> <<%s>>, px |-> <<%s>>]' % (
        tla(transparent), ", ".join(t.tl for t in tys), ", ".join(ws), ", ".join(tla(proxies[i][0] if i in proxies else "") for i in range(len(tys))))
    def decl(fmt):
        if item: return derive_line(fmt, key, dflt) + item
        a = "#[nserde(transparent)]\n" if transparent else ""
        fr = fieldrust or [t.rust for t in tys]
        pa = lambda i: '#[nserde(proxy = "%s")] ' % proxies[i][1].rust if i in proxies else ""
        return derive_line(fmt, key, dflt) + a + "pub struct %s%s(%s)%s;\n" % (name.split("__")[0], generics, ", ".join(pa(i) + "pub " + x for i, x in enumerate(fr)), where)
    base = rust.split("<")[0]
    ab = "impl Abs for %s {\n fn to_abs(&self) -> J { tup(vec![%s]) }\n fn from_abs(v: &J) -> Self { let f = v.list(); %s(%s) }\n}\n" % (
        rust, ", ".join("self.%d.to_abs()" % i for i in range(len(tys))), base, ", ".join("Abs::from_abs(&f[%d])" % i for i in range(len(tys))))
    dv = ["tup", [t.default for t in tys]] if dflt else None
    return Decl(name, rust, tdef, fm, dv, decl, ab, key=key, std=any(t.std for t in tys), recursive=any(t.recursive for t in tys))

def UStruct(name):
    def decl(fmt): return derive_line(fmt, False, True) + "pub struct %s;\n" % name
    ab = "impl Abs for %s {\n fn to_abs(&self) -> J { tup(vec![]) }\n fn from_abs(_: &J) -> Self { %s }\n}\n" % (name, name)
    return Decl(name, name, '[k |-> "tstruct", tr |-> FALSE, ts |-> <<>>, ws |-> <<>>, px |-> <<>>]', "bj", ["tup", []], decl, ab)

class V:
    """Enum variant. fields: None (unit) | list of Ty (tuple) | list of F (struct)."""
    def __init__(self, name, fields=None, rename=None, disc=None): self.name, self.fields, self.rename, self.disc = name, fields, rename, disc

def Enum(name, variants, fmts=None, key=False, rust=None, generics="", where="", fieldrust=None, item=None, std=False, dflt=None, recursive=False):
    """dflt: index of the #[default] unit variant."""
    rust = rust or name
    tys, vt, arms_to, arms_from, items = [], [], [], [], []
    base = rust.split("<")[0]
    fr = fieldrust or {}
    fm = ALL
    for i, v in enumerate(variants):
        kind = "unit" if v.fields is None else ("rec" if v.fields and isinstance(v.fields[0], F) else "tup")
        eff = v.rename if v.rename is not None else v.name
        at = ('    #[nserde(rename = "%s")]\n' % v.rename.replace("\\", "\\\\").replace('"', '\\"')) if v.rename is not None else ""
        if dflt == i: at += "    #[default]\n"
        disc = " = %s" % v.disc if v.disc is not None else ""
        if v.rename is not None: fm = fm & frozenset("bj")
        if kind == "unit":
            vt.append('[n |-> %s, j |-> %s, k |-> "unit", fs |-> <<>>]' % (C(v.name).s, C(eff).s))
            arms_to.append("%s::%s => var(%d, vec![])," % (base, v.name, i))
            arms_from.append("%d => %s::%s," % (i, base, v.name))
            items.append("%s    %s%s," % (at, v.name, disc))
        elif kind == "tup":
            tys += v.fields
            vt.append('[n |-> %s, j |-> %s, k |-> "tup", fs |-> <<%s>>]' % (C(v.name).s, C(eff).s, ", ".join(t.tl for t in v.fields)))
            bs = ["a%d" % k for k in range(len(v.fields))]
            arms_to.append("%s::%s(%s) => var(%d, vec![%s])," % (base, v.name, ", ".join(bs), i, ", ".join(b + ".to_abs()" for b in bs)))
            arms_from.append("%d => %s::%s(%s)," % (i, base, v.name, ", ".join("Abs::from_abs(&f[%d])" % k for k in range(len(bs)))))
            rs = fr.get(v.name, [t.rust for t in v.fields])
            items.append("%s    %s(%s)%s," % (at, v.name, ", ".join(rs), disc))
        else:
            tys += [f.ty for f in v.fields]
            if any(f.skip for f in v.fields): fm = fm & frozenset("jr")
            vt.append('[n |-> %s, j |-> %s, k |-> "rec", fs |-> <<%s>>]' % (C(v.name).s, C(eff).s, ", ".join(field_tla(f, False, False, False).s for f in v.fields)))
            arms_to.append("%s::%s { %s } => var(%d, vec![%s])," % (base, v.name, ", ".join(f.name for f in v.fields), i, ", ".join(f.name + ".to_abs()" for f in v.fields)))
            arms_from.append("%d => %s::%s { %s }," % (i, base, v.name, ", ".join("%s: Abs::from_abs(&f[%d])" % (f.name, k) for k, f in enumerate(v.fields))))
            items.append("%s    %s { %s }%s," % (at, v.name, ", ".join("%s%s: %s" % (field_attrs(f), f.name, fr.get(f.name, f.ty.rust)) for f in v.fields), disc))
    fm = fm & (join_fmts(*tys) if tys else ALL)
    if fmts is not None: fm = fm & frozenset(fmts)
    tdef = '[k |-> "enum", vs |-> <<%s>>]' % ",\n      ".join(vt)
    if len(variants) > 40 and all(v.fields is None and v.rename is None for v in variants[:-4]):
        pre = variants[0].name.rstrip("0123456789")
        tdef = '[k |-> "enum", vs |-> [i \\in 1..%d |-> LET nm == C("%s") \\o Dec(i - 1) IN [n |-> nm, j |-> nm, k |-> "unit", fs |-> <<>>]] \\o <<%s>>]' % (
            len(variants) - 4, pre, ", ".join(vt[-4:]))
    def decl(fmt):
        if item: return derive_line(fmt, key) + item
        d = derive_line(fmt, key, dflt is not None)
        return d + "pub enum %s%s %s{\n%s\n}\n" % (name.split("__")[0], generics, where, "\n".join(items))
    ab = "impl Abs for %s {\n fn to_abs(&self) -> J { match self {\n%s\n } }\n fn from_abs(v: &J) -> Self { let (i, f) = v.variant(); let _ = f; match i {\n%s\n _ => panic!() } }\n}\n" % (
        rust, "\n".join(arms_to), "\n".join(arms_from))
    return Decl(name, rust, tdef, fm, vvar(dflt) if dflt is not None else None, decl, ab, key=key, std=std or any(t.std for t in tys), recursive=recursive)

def Proxied(name, conv, inner, proxy, body, fmts="bj", key=False):
    """A container with #[nserde(proxy)]; body is hand-written Rust (item, From impls); abstract value = that of `inner`."""
    tdef = '[k |-> "proxy", c |-> "%s", t |-> %s, p |-> %s]' % (conv, inner.tl, proxy.tl)
    def decl(fmt): return body.replace("@DERIVE@", derive_line(fmt, key))
    return Decl(name, name, tdef, join_fmts(inner, proxy) & frozenset(fmts), None, decl, "", key=key, std=inner.std or proxy.std)

def Ref(name, rust):
    """A recursive occurrence."""
    return Ty(rust, '[k |-> "ref", n |-> "%s"]' % name, ALL, None, recursive=True)
