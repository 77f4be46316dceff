"""Declarations nobody would write by hand: a deterministic cover of the combinations of field type,
field attribute, position, declaration level attribute, generics, variant shape and container nesting."""
import random
from dsl import *

def cover(gen, facets, n, tries=120, seed=1):
    """n candidates of gen, each covering as many not yet covered facets as possible."""
    rng = random.Random(seed); seen = set(); out = []
    for _ in range(n):
        best, gain = None, -1
        for _ in range(tries):
            c = gen(rng)
            g = len(facets(c) - seen)
            if g > gain: best, gain = c, g
        seen |= facets(best); out.append(best)
    return out

def build(root, env):
    """env: names from schema.py (types and helpers)."""
    u8, u16, i32, i64, f64, bl, S, unit, dur = (env[k] for k in ("u8", "u16", "i32", "i64", "f64", "bl", "S", "unit", "dur"))
    Plain, Uni, New, Opts, WrapP = (env[k] for k in ("Plain", "Uni", "New", "Opts", "WrapP"))
    RawS, RawN, RawD = env["Raw"], env["RawN"], env["RawD"]
    # name -> (type, class, literal default, default_with)
    FT = {
        "u8": (u8, "num", ("5", vint(5)), ("dw_u8", vint(211))), "i32": (i32, "num", ("-7", vint(-7)), None), "i64": (i64, "num", ("-9000000000", vint(-9000000000)), None),
        "f64": (f64, "num", ("2.5", vflt("2.5")), None), "bool": (bl, "num", ("true", vbool(1)), None),
        "str": (S, "str", ("a b", vstr("a b")), ("dw_s", vstr("dee"))), "unit": (unit, "num", None, None),
        "optu": (Opt(u8), "opt", ("3", vint(3)), ("dw_opt", vsome(vint(8)))), "opts": (Opt(S), "opt", None, None), "optb": (Opt(bl), "opt", ("true", vbool(1)), None),
        "optv": (Opt(Vec(u8)), "opt", None, None), "optp": (Opt(Plain), "opt", None, None), "opte": (Opt(Uni), "opt", None, None), "optbox": (Opt(Box(u8)), "opt", None, None),
        "opttup": (Opt(Tup(u8, bl)), "opt", None, None),
        "vec": (Vec(u8), "coll", None, ("dw_vec", vseq(vint(7), vint(9)))), "vecob": (Vec(Opt(bl)), "coll", None, None), "vecs": (Vec(S), "coll", None, None),
        "map": (BMap(S, u8), "coll", None, None), "mapo": (BMap(u8, Opt(S)), "coll", None, None), "set": (BSet(i32), "coll", None, None), "ll": (LL(S), "coll", None, None),
        "tup": (Tup(u8, S), "nest", None, None), "arr": (Arr(u8, 2), "nest", None, None), "arrob": (Arr(Opt(bl), 2), "nest", None, None), "box": (Box(S), "nest", None, None),
        "plain": (Plain, "nest", None, None), "uni": (Uni, "nest", None, None), "opts_": (Opts, "nest", None, None), "new": (New, "nest", None, None), "dur": (dur, "nest", None, None),
    }
    names = list(FT)
    ATTRS = ["none", "none", "rename", "default", "value", "with", "skip", "null", "rename+default", "rename+null", "rename+value", "skip+value", "null+value", "rename+skip"]
    FN = ["a", "b", "cc", "d_1", "e", "f_", "g"]
    RN = ["z", "Yy", "b2", "a", "fn_", "w9", "e"]
    def ok(t, a):
        ty, cl, val, wi = FT[t]
        for x in a.split("+"):
            if x == "null" and cl != "opt": return False
            if x == "value" and val is None: return False
            if x == "with" and wi is None: return False
            if x in ("default", "skip") and ty.default is None: return False
        return True
    LEVELS = ["none", "none", "null", "default", "with", "null+default"]
    # generics: declaration, where, per type parameter the instance
    GEN = ["", "", "T", "T:", "Tw", "TU", "N", "T="]
    def gen_field(rng, i, generic, variant):
        k = rng.random()
        if generic and k < 0.35:
            t = rng.choice(["arrN"] if generic == "N" else ["T", "optT", "vecT", "tupT"])
            a = rng.choice(["none", "rename", "null", "rename+null"] if t == "optT" and not variant else ["none", "rename"])
            return (t, a)
        if k > 0.9 and not variant: return (rng.choice(["pxS", "pxN", "pxD"]), rng.choice(["none", "rename"]))
        while True:
            t, a = rng.choice(names), rng.choice(ATTRS)
            if variant and "null" in a: continue
            if ok(t, a): return (t, a)
    def gen_struct(rng):
        g = rng.choice(GEN); n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        fs = [gen_field(rng, i, g, False) for i in range(n)]
        lv = rng.choice(LEVELS)
        if "default" in lv or "with" in lv:
            fs = [f if not (f[0] in FT and FT[f[0]][0].default is None) and f[0] not in ("T", "tupT", "arrN", "pxS", "pxN", "pxD") else ("u8", "none") for f in fs]
        if g and not any(f[0] in ("T", "optT", "vecT", "tupT", "arrN") for f in fs):
            if g == "N" or ("default" in lv or "with" in lv): fs[rng.randrange(n)] = ("arrN" if g == "N" else "optT", "none")
            else: fs[rng.randrange(n)] = ("T", "none")
        if g == "N" and ("default" in lv or "with" in lv): lv = "none"
        return (lv, g, tuple(fs))
    def cls(t): return FT[t][1] if t in FT else t
    def pos(i, n): return "only" if n == 1 else "first" if i == 0 else "last" if i == n - 1 else "mid"
    def facets(c):
        lv, g, fs = c; n = len(fs); o = {("lg", lv, bool(g)), ("gn", g, n)}
        for i, (t, a) in enumerate(fs):
            p = pos(i, n)
            o |= {("lta", lv, cls(t), a), ("gta", bool(g), cls(t), a), ("pta", p, cls(t), a), ("lpa", lv, p, a), ("ta", t, a), ("gla", bool(g), lv, a), ("gp", g, t, p), ("glpc", bool(g), lv, p, cls(t))}
            if i + 1 < n: o |= {("adj", a, fs[i + 1][1]), ("adt", cls(t), cls(fs[i + 1][0])), ("ada", cls(t), fs[i + 1][1])}
        return o
    def mk(i, t, a, used):
        nm = FN[i]; kw = {}
        px = {"pxS": (RawS, ("wrap", WrapP)), "pxN": (RawN, ("scale", i32)), "pxD": (RawD, ("scale", i32))}
        ft = None
        if t in px: ty = px[t][0]; kw["proxy"] = px[t][1]
        elif t == "T": ty, ft = u8, "T"
        elif t == "optT": ty, ft = Opt(u8), "Option<T>"
        elif t == "vecT": ty, ft = Vec(u8), "Vec<T>"
        elif t == "tupT": ty, ft = Tup(u8, S), "(T, String)"
        elif t == "arrN": ty, ft = Arr(u8, 2), "[u8; N]"
        else: ty = FT[t][0]
        for x in a.split("+"):
            if x == "rename":
                r = RN[(i + len(t)) % len(RN)]
                while r in used: r += "x"
                kw["rename"] = r
            if x == "default": kw["default"] = True
            if x == "value": kw["default"] = FT[t][2]
            if x == "with": kw["default_with"] = FT[t][3]
            if x == "skip": kw["skip"] = True
            if x == "null": kw["null"] = True
        used.add(kw.get("rename", nm))
        return F(nm, ty, **kw), ft
    def generics(g, arg="u8"):
        return {"": ("", "", ""), "T": ("<T>", "", "<u8>"), "T:": ("<T: Clone>", "", "<u8>"), "Tw": ("<T>", "where T: Clone ", "<u8>"), "TU": ("<T, U>", "", None),
                "N": ("<const N: usize>", "", "<2>"), "T=": ("<T = u8>", "", "<u8>")}[g]
    for k, (lv, g, fs) in enumerate(cover(gen_struct, facets, 64)):
        used = set(FN[:len(fs)]) - set(); fields = []; fr = {}
        used = {FN[i] for i, (t, a) in enumerate(fs) if "rename" not in a}
        for i, (t, a) in enumerate(fs):
            f, ft = mk(i, t, a, used); fields.append(f)
            if ft: fr[f.name] = ft
        gd, wh, inst = generics(g)
        if g == "TU": # the second parameter stands for some field of its own
            fields.append(F("u_", Vec(S))); fr["u_"] = "Vec<U>"; inst = "<u8, String>"
        nm = "Ks%d" % k
        root(Struct(nm + ("__i" if g else ""), fields, rust=nm + inst, generics=gd, where=wh, fieldrust=fr,
                    default="default" in lv, default_with="Default::default" if lv == "with" else False, null="null" in lv),
             "combo", "struct", "field", *(["proxy"] if any(f.proxy for f in fields) else []), *(["opt"] if any(f.ty.opt for f in fields) else []), *(["gen"] if g else []))

    # ---- enums ----
    TT = ["u8", "i64", "f64", "bool", "str", "unit", "optu", "optb", "opts", "vec", "vecob", "map", "tup", "arr", "box", "plain", "uni", "new", "dur", "opttup"]
    def gen_enum(rng):
        g = rng.choice(["", "", "T", "T:", "Tw"]); n = rng.choice([1, 2, 3, 4, 5]); vs = []
        ren = rng.random() < 0.4
        for i in range(n):
            kind = rng.choice(["unit", "tup", "rec"])
            r = ren and rng.random() < 0.5
            if kind == "unit": vs.append(("unit", r, ()))
            elif kind == "tup":
                vs.append(("tup", r, tuple(rng.choice(TT + (["T", "vecT"] if g else [])) for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6])))))
            else:
                fs = []
                for j in range(rng.choice([1, 2, 3, 4])):
                    t, a = gen_field(rng, j, g, True)
                    fs.append((t, a))
                vs.append(("rec", r, tuple(fs)))
        if g and not any("T" in str(v) for v in vs): vs[rng.randrange(n)] = ("tup", False, ("T",))
        return (g, tuple(vs))
    def efacets(c):
        g, vs = c; n = len(vs); o = {("n", n, bool(g))}
        for i, (k, r, fs) in enumerate(vs):
            p = pos(i, n)
            o |= {("kp", k, p, r), ("kg", k, bool(g), r), ("ka", k, len(fs), p), ("kr", k, len(fs), r)}
            if i + 1 < n: o.add(("adj", k, vs[i + 1][0], len(fs)))
            if k == "tup":
                for j, t in enumerate(fs): o |= {("tt", t, pos(j, len(fs)), len(fs) > 2), ("ta", t, len(fs))}
            if k == "rec":
                for j, (t, a) in enumerate(fs): o |= {("ra", cls(t), a, pos(j, len(fs))), ("rt", t, a)}
        return o
    VN = ["A", "Bb", "C_", "D1", "Ee"]
    for k, (g, vs) in enumerate(cover(gen_enum, efacets, 36, seed=2)):
        out = []; fr = {}
        for i, (kind, r, fs) in enumerate(vs):
            rn = ["r%d" % i, VN[(i + 1) % 5] + "_", "é%d" % i][i % 3] if r else None
            if kind == "unit": out.append(V(VN[i], rename=rn))
            elif kind == "tup":
                tys = [{"T": u8, "vecT": Vec(u8)}.get(t) or FT[t][0] for t in fs]
                if "T" in fs or "vecT" in fs: fr[VN[i]] = [{"T": "T", "vecT": "Vec<T>"}.get(t) or FT[t][0].rust for t in fs]
                out.append(V(VN[i], tys, rename=rn))
            else:
                used = {FN[j] for j, (t, a) in enumerate(fs) if "rename" not in a}; fl = []
                for j, (t, a) in enumerate(fs):
                    f, ft = mk(j, t, a, used)
                    f.name = f.name + "v%d" % i      # the field type table is per name
                    if ft: fr[f.name] = ft
                    fl.append(f)
                out.append(V(VN[i], fl, rename=rn))
        gd, wh, inst = generics(g)
        nm = "Ke%d" % k
        e = root(Enum(nm + ("__i" if g else ""), out, rust=nm + inst, generics=gd, where=wh, fieldrust=fr), "combo", "enum", *(["gen"] if g else []),
             *(["field"] if any(v.fields and isinstance(v.fields[0], F) for v in out) else []))

        root(Vec(e), "combo", "inlist")
    # ---- tuple structs ----
    def gen_ts(rng):
        g = rng.choice(["", "", "T", "T:", "Tw"]); n = rng.choice([1, 2, 3, 4, 5, 6, 7])
        ts = [rng.choice(TT + (["T", "optT", "vecT"] if g else [])) for _ in range(n)]
        if g and not any(t in ("T", "optT", "vecT") for t in ts): ts[rng.randrange(n)] = "T"
        px = rng.random() < 0.35
        if px: ts[rng.randrange(n)] = rng.choice(["pxS", "pxN", "pxD"])
        if g and not any(t in ("T", "optT", "vecT") for t in ts): g = ""
        return (g, n == 1 and rng.random() < 0.5 and not px, tuple(ts))
    def tfacets(c):
        g, tr, ts = c; n = len(ts); o = {("gn", bool(g), n, tr)}
        for i, t in enumerate(ts):
            o |= {("tp", t, pos(i, n), n > 3), ("gt", bool(g), t), ("tn", cls(t), n)}
            if i + 1 < n: o.add(("adj", cls(t), cls(ts[i + 1])))
        return o
    for k, (g, tr, ts) in enumerate(cover(gen_ts, tfacets, 28, seed=3)):
        own = {"T": (u8, "T"), "optT": (Opt(u8), "Option<T>"), "vecT": (Vec(u8), "Vec<T>"), "pxS": (RawS, RawS.rust), "pxN": (RawN, RawN.rust), "pxD": (RawD, RawD.rust)}
        tys = [own[t][0] if t in own else FT[t][0] for t in ts]
        fr = [own[t][1] if t in own else FT[t][0].rust for t in ts]
        px = {i: (("wrap", WrapP) if t == "pxS" else ("scale", i32)) for i, t in enumerate(ts) if t.startswith("px")}
        gd, wh, inst = generics(g)
        nm = "Kt%d" % k
        root(TStruct(nm + ("__i" if g else ""), tys, rust=nm + inst, generics=gd, where=" " + wh if wh else "", fieldrust=fr, transparent=tr, fmts="j" if tr else None, proxies=px or None),
             "combo", "arity", "struct", *(["proxy"] if px else []), *(["gen"] if g else []))

    # ---- containers in containers ----
    W = {"Vec": Vec, "LL": LL, "BSet": BSet, "HSet": HSet, "Arr2": lambda t: Arr(t, 2), "Arr3": lambda t: Arr(t, 3), "TupL": lambda t: Tup(t, u8), "TupR": lambda t: Tup(S, t), "Tup4": lambda t: Tup(u8, t, bl, S),
         "Tup4b": lambda t: Tup(u8, S, bl, t), "BMap": lambda t: BMap(S, t), "BMapN": lambda t: BMap(u16, t), "HMap": lambda t: HMap(S, t), "KMap": lambda t: BMap(t, u8), "Opt": Opt, "Box": Box}
    L = {"u8": u8, "i64": i64, "f64": f64, "bool": bl, "str": S, "unit": unit, "dur": dur, "Uni": Uni, "Plain": Plain, "New": New, "optb": Opt(bl), "opts": Opt(S)}
    HASHOK = {"u8", "i64", "bool", "str", "unit", "Uni", "optb", "opts"}
    def valid(chain, leaf):
        seq = list(chain)
        # keys and set elements need an order (and a hash); options of options and of units are not told apart
        for i, w in enumerate(seq):
            inner = seq[i + 1:]
            if w in ("BSet", "HSet", "KMap"):
                if any(x in ("LL", "HSet", "HMap", "BSet", "BMap", "BMapN", "KMap") for x in inner): return False
                if leaf not in HASHOK: return False
            if w == "Opt":
                nx = inner[0] if inner else None
                if nx == "Box": nx = inner[1] if len(inner) > 1 else None
                if nx == "Opt" or (nx is None and leaf in ("optb", "opts", "unit")): return False
            if w == "KMap" and (inner and inner[0] in ("Opt",) or (not inner and leaf in ("optb", "opts"))): return False
            if w == "Box" and i == 0: return False
        if leaf == "unit" and "Vec" in seq[-1:] + []: return False
        return True
    def chain_gen(n):
        def g(rng):
            while True:
                c = tuple(rng.choice(list(W)) for _ in range(n)); l = rng.choice(list(L))
                if valid(c, l): return (c, l)
        return g
    def cfacets(c):
        ch, l = c
        o = {("cl", ch[-1], l), ("ol", ch[0], l)} | {("p", i, w) for i, w in enumerate(ch)}
        for i in range(len(ch) - 1): o.add(("cc", ch[i], ch[i + 1]))
        if len(ch) > 1: o.add(("2", ch[-2], l))
        return o
    done = set()
    for n, cnt, sd in ((2, 130, 4), (3, 50, 5)):
        for ch, l in cover(chain_gen(n), cfacets, cnt, seed=sd, tries=200):
            if (ch, l) in done: continue
            done.add((ch, l))
            t = L[l]
            for w in reversed(ch): t = W[w](t)
            opt = l in ("optb", "opts") or "Opt" in ch
            root(t, "combo", "coll", *(["opt"] if opt else []), *(["arity"] if any(w.startswith(("Tup", "Arr")) for w in ch) else []), *(["time"] if l == "dur" else []), *(["enum"] if l == "Uni" else []))
