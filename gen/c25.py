"""C25: TLC selects builds (MC_Builds); each spec module runs once and its cases go to every build that has the format;
TR_Builds judges whether the builds answered alike, word for word."""
import os, json, hashlib
from concurrent.futures import ThreadPoolExecutor
import schema
LOC = {"VERIF_LOC": "1", "VERIF_SPARSE": "1"}; THIN = {"VERIF_SPARSE": "1"}; LOCF = dict(LOC, VERIF_TAGS="field")
FIELD = dict(THIN, VERIF_TAGS="field"); ENUM = dict(THIN, VERIF_TAGS="enum"); TIME = dict(THIN, VERIF_TAGS="time")
RUNS = [("bin", "MC_C01", THIN), ("bin", "MC_C03", LOC),
        ("json", "MC_Round", THIN), ("json", "MC_Total", LOC), ("json", "MC_Fields", LOCF), ("json", "MC_Ints", THIN), ("json", "MC_Time", TIME),
        ("ron", "MC_Round", THIN), ("ron", "MC_Total", LOC), ("ron", "MC_Fields", LOCF), ("ron", "MC_Ints", THIN), ("ron", "MC_Time", TIME),
        ("toml", "MC_TomlTotal", LOC), ("toml", "MC_Toml", THIN)]
MORE = [("bin", "MC_Seq", THIN), ("bin", "MC_C02", THIN), ("json", "MC_Enums", ENUM), ("json", "MC_Walk", THIN), ("json", "MC_Strings", THIN), ("json", "MC_Fields", FIELD),
        ("ron", "MC_Enums", ENUM), ("ron", "MC_Walk", THIN), ("ron", "MC_Strings", THIN), ("ron", "MC_Fields", FIELD)]
BLOCK = 64

def answers(recs):
    """(shard, number) -> (operation, types, absent, digest of the words)"""
    out = {}
    for s, f in enumerate(recs):
        for line in open(f + ".dig", encoding="utf-8"):
            idx, about, absent, words = line.rstrip("\n").split("\t")
            op, _, ts = about.partition(":")
            out[(s, int(idx))] = (op, [int(t) for t in ts.split(",") if t], absent == "1", words)
    return out

def run(pid, run_, wd, ck):
    states = trans = ran = absent = traces = 0; bad = []; detail = []
    bf = os.path.join(wd, "builds")
    s, g, _ = ck.tlc("MC_Builds", "MC_Builds.cfg", bf, wd); states += s; trans += g
    builds = []
    for line in open(bf):
        if line.startswith('"CASE '): builds += json.loads(json.loads(line)[5:])
    builds.sort(key=lambda b: (-len(b["fmts"]), not b["std"], b["fmts"]))
    for b in builds: b["feats"] = (["std"] if b["std"] else []) + b["fmts"]; b["name"] = "+".join(b["feats"])
    crate = os.path.join(ck.HERE, "harness") if ck.REPO == "/repo" else ck.copy_crate("harness", os.path.join(wd, "harness"))
    nostd = os.path.join(ck.HERE, "nostd") if ck.REPO == "/repo" else ck.copy_crate("nostd", os.path.join(wd, "nostd"))
    def make(b):
        b["exe"] = ck.build(b["feats"], crate, "target-" + "-".join(b["feats"]))
        if not b["std"]: ck.cargo(nostd, b["fmts"], os.path.join(ck.BUILD, "nostd-" + "-".join(b["fmts"])))
    make(builds[0])       # everything on: fails only if the tree or the harness does not build at all
    try:
        try:
            with ThreadPoolExecutor(ck.CORES) as ex: list(ex.map(make, builds[1:]))
        except ck.Tool as e: raise ck.Broken(str(e)) from e
        hashed = {i + 1 for i, (t, tags) in enumerate(schema.ROOTS) if t.std}    # a hash collection's written order is nobody's promise
        for fmt, mc, env in RUNS + (MORE if ck.TIER == "thorough" else []):
            cases = os.path.join(wd, "cases"); mine = [b for b in builds if fmt in b["fmts"]]; got = []
            s, g, _ = ck.tlc(mc, mc + ".cfg", cases, wd, dict(env, VERIF_FMT=fmt[0])); states += s; trans += g
            for b in mine:
                n, a, x, recs = ck.replay(b["exe"], fmt, cases, wd, "c25-" + b["name"], env={"VERIF_DIGEST": "1"})
                if n == 0: raise ck.Tool("no case of %s ran" % mc)
                ran += n; absent += a; bad += [("build %s, %s: %s" % (b["name"], mc, m), c) for m, c in x]
                got.append(answers(recs))
                for r in recs: os.remove(r + ".dig")
            blocks = {}
            for key in sorted(got[0]):
                op, ts, ab, _ = got[0][key]
                if ab or (op not in ("dec", "same") and hashed & set(ts)): continue
                std = False
                for b, g2 in zip(mine, got):
                    if key in g2 and g2[key][2]:
                        std = True
                        if not set(ts) & set(b["lacks"]): bad.append(("build %s offers less than specified" % b["name"], ck.case_at(cases, key[0], ck.CORES, key[1])))
                blocks.setdefault((std, key[0], key[1] // BLOCK), []).append(key)
            tf = os.path.join(wd, "blocks"); order = sorted(blocks)
            with open(tf, "w") as o:
                for bk in order:
                    r = [{"b": b["name"], "h": hashlib.sha1("".join(g2.get(k, ("",) * 4)[3] for k in blocks[bk]).encode()).hexdigest()[:16]}
                         for b, g2 in zip(mine, got) if b["std"] or not bk[0]]
                    o.write(json.dumps({"r": r, "k": list(bk)}) + "\n")
            t, s, g, rej = ck.check_trace("TR_Builds", [tf], wd, {"VERIF_FMT": fmt[0]})
            traces += t; states += s; trans += g
            for why, rec in rej[:6]:
                k = tuple(rec["k"]); live = [(b, g2) for b, g2 in zip(mine, got) if b["std"] or not k[0]]
                for key in blocks[k]:
                    other = [b for b, g2 in live if g2.get(key) != live[0][1].get(key)]
                    if other:
                        c = ck.case_at(cases, key[0], ck.CORES, key[1])
                        bad.append(("%s: %s %r, %s %r" % (why, live[0][0]["name"], words(ck, live[0][0], fmt, c, wd), other[0]["name"], words(ck, other[0], fmt, c, wd)), c)); break
            detail.append([fmt, mc, len(mine), len(got[0]), t])
    finally:
        for b in builds:
            if "exe" in b and os.path.exists(b["exe"]): os.remove(b["exe"])
    return {"ran": ran, "absent": absent, "bad": bad, "xstates": states, "xtrans": trans, "xtraces": traces,
            "samples": [b["name"] for b in builds[:4]], "detail": detail, "builds": [b["name"] for b in builds]}

def words(ck, b, fmt, case, wd):
    """the answer of one build to one case, in full"""
    cf = os.path.join(wd, "one"); open(cf, "w").write("CASE " + json.dumps([case]) + "\n")
    _, _, _, recs = ck.replay(b["exe"], fmt, cf, wd, "one", shards=1, env={"VERIF_DIGEST": "2"})
    line = open(recs[0] + ".dig", encoding="utf-8").read(); os.remove(recs[0] + ".dig")
    return line.split("\t")[-1][:300]
